-------------------------------- MODULE PtlRef --------------------------------
(* References.  vals: the values of the objects that can be referred to (-1: the *)
(* optional object is absent).  optional_ref: ref[a] is the object referred to,  *)
(* 0 if none.  variant_ref: ref[a] is [t, alt], an object and the alternative;   *)
(* alts lists the alternatives as [type, is const].  A request e: reference a,   *)
(* second reference d, object t, value v.                                        *)
EXTENDS PtlBase
NoRef == 0
\* layout: the object (none: null), of a variant_ref also the index of the alternative
RefImage(x, isopt) == IF isopt THEN x ELSE <<x.t, x.alt - 1>>
\* ---- optional_ref
OptRefAfter(e, ref, vals) ==
    CASE e.op = "bind" -> [ref EXCEPT ![e.a] = IF vals[e.t] = -1 THEN NoRef ELSE e.t]
      [] e.op = "clear" -> [ref EXCEPT ![e.a] = NoRef]
      [] e.op \in {"assign", "copy"} -> [ref EXCEPT ![e.a] = ref[e.d]]
      [] e.op = "swap" -> [ref EXCEPT ![e.a] = ref[e.d], ![e.d] = ref[e.a]]
      [] OTHER -> ref
OptValsAfter(e, ref, vals) ==
    CASE e.op = "write" -> [vals EXCEPT ![ref[e.a]] = e.v]
      [] e.op = "poke" -> [vals EXCEPT ![e.t] = e.v]
      [] e.op = "empty" -> [vals EXCEPT ![e.t] = -1]
      [] OTHER -> vals
OptLegal(e, ref, vals) ==
    /\ e.op = "write" => ref[e.a] # NoRef /\ e.a <= 2
    /\ e.op = "bind" /\ e.t = 10 => e.a > 2
    /\ e.op = "empty" => \A k \in DOMAIN ref : ref[k] # e.t
    /\ e.op \in {"assign", "copy"} /\ e.a <= 2 => e.d <= 2
\* [returned value, object returned, error]
OptAnswer(e, ref, vals) ==
    LET x == ref[e.a] IN
    CASE e.op = "value" -> IF x = NoRef THEN <<-7, 0, "badopt">> ELSE <<vals[x], x, "">>
      [] e.op = "value_or" -> <<IF x = NoRef THEN e.v ELSE vals[x], 0, "">>
      [] e.op \in {"assign", "copy"} -> <<1, 0, "">>
      [] OTHER -> <<-7, 0, "">>
\* ---- variant_ref
IndexOf(alts, ty, cst) == LET ks == {k \in DOMAIN alts : alts[k] = <<ty, cst>>} IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : TRUE
\* the alternative for an object of a type, seen as const or not (0: cannot be bound)
AltFor(alts, ty, cst) == IF cst = 0 /\ IndexOf(alts, ty, 0) # 0 THEN IndexOf(alts, ty, 0) ELSE IndexOf(alts, ty, 1)
TypeOf(alts, t) == alts[(t + 1) \div 2][1]
VarRefAfter(e, ref, alts) ==
    CASE e.op = "bind" -> [ref EXCEPT ![e.a] = [t |-> e.t, alt |-> AltFor(alts, TypeOf(alts, e.t), e.as)]]
      [] e.op \in {"assign", "copy"} -> [ref EXCEPT ![e.a] = ref[e.d]]
      [] e.op = "swap" -> [ref EXCEPT ![e.a] = ref[e.d], ![e.d] = ref[e.a]]
      [] OTHER -> ref
VarValsAfter(e, ref, vals, alts) ==
    CASE e.op = "write" /\ alts[ref[e.a].alt][2] = 0 -> [vals EXCEPT ![ref[e.a].t] = e.v]
      [] e.op = "poke" -> [vals EXCEPT ![e.t] = e.v]
      [] OTHER -> vals
VarLegal(e, ref, alts) == e.op = "bind" => AltFor(alts, TypeOf(alts, e.t), e.as) # 0
VarAnswer(e, ref, vals, alts) ==
    LET x == ref[e.a] IN
    CASE e.op = "temp" -> <<e.v, 0, "">>
      [] e.op \in {"assign", "copy"} -> <<1, 0, "">>
      [] e.op = "write" -> <<IF alts[x.alt][2] = 0 THEN 1 ELSE 0, 0, "">>
      [] e.op = "throw" -> <<1, 0, "user">>
      [] e.op = "result" -> <<vals[x.t], x.t, "">>
      [] OTHER -> <<-7, 0, "">>
\* can an expression of a type be bound: [type, as const, as prvalue, can]
VarBinds(alts, q) == q[4] = Bool(IF q[3] = 1 THEN IndexOf(alts, q[1], 1) # 0 ELSE AltFor(alts, q[1], q[2]) # 0)
=============================================================================
