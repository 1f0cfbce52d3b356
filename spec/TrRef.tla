-------------------------------- MODULE TrRef --------------------------------
(* Validates recorded executions of optional_ref (type "o") and variant_ref.     *)
EXTENDS TraceBase, PtlRef
CONSTANT Aspects
VARIABLES sc, l, ref, vals, alts
vars == <<sc, l, ref, vals, alts>>
Ev == Trace[sc].ev
Opt == Trace[sc].ty = "o"
Rule(name, ok) == R(Trace[sc].id, l, name, ok)
On(a) == a \in Aspects
Init == sc \in 1..Len(Trace) /\ l = 1 /\ ref = <<>> /\ vals = <<>> /\ alts = <<>>

OptSeen(q, x) == q = <<Bool(x # NoRef), Bool(x # NoRef), x, x>>
VarSeen(q, x, v1, al) ==
    /\ Rule("alternative and object", \A k \in DOMAIN al : q[1][k] = IF k = x.alt THEN <<1, x.t, x.t>> ELSE <<0, 0, -1>>)
    /\ Rule("visit", q[2] = <<1, al[x.alt][2], x.t, v1[x.t]>>)
    /\ Rule("visit with several visitors", q[3] = <<1, x.alt, x.t, v1[x.t]>>)
Observed(e, r1, v1, al) ==
    /\ On("image") => Rule("pointer and index", \A k \in DOMAIN r1 : e.img[k] = RefImage(r1[k], Opt))
    /\ Rule("values of the objects", e.vals = v1)
    /\ IF Opt THEN Rule("object referred to", \A k \in DOMAIN r1 : OptSeen(e.refs[k], r1[k]))
       ELSE \A k \in DOMAIN r1 : VarSeen(e.refs[k], r1[k], v1, al)
Start(e) ==
    /\ e.op = "init"
    /\ vals' = e.vals
    /\ IF Opt THEN /\ ref' = [k \in 1..4 |-> NoRef] /\ alts' = alts
                   /\ Rule("types bound to", \A k \in DOMAIN e.types : e.types[k][2] = e.types[k][3])
       ELSE /\ alts' = e.alts /\ ref' = [k \in 1..3 |-> [t |-> 1, alt |-> AltFor(e.alts, e.alts[1][1], 0)]]
            /\ Rule("types bound to", \A k \in DOMAIN e.binds : VarBinds(e.alts, e.binds[k]))
    /\ Rule("size", ~On("image") \/ e.size = 1)
    /\ Observed(e, ref', vals', alts')
Step(e) ==
    /\ e.op # "init"
    /\ Rule("crash", e.op # "crash")
    /\ alts' = alts
    /\ IF Opt THEN /\ OptLegal(e, ref, vals)
                   /\ Rule("result", <<e.rv, e.rt, e.x>> = OptAnswer(e, ref, vals))
                   /\ ref' = OptRefAfter(e, ref, vals) /\ vals' = OptValsAfter(e, ref, vals)
       ELSE /\ VarLegal(e, ref, alts)
            /\ Rule("result", <<e.rv, e.rt, e.x>> = VarAnswer(e, ref, vals, alts))
            /\ ref' = VarRefAfter(e, ref, alts) /\ vals' = VarValsAfter(e, ref, vals, alts)
    /\ Observed(e, ref', vals', alts')
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Done \/ (l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED sc /\ LET e == Ev[l] IN Start(e) \/ Step(e))
Spec == Init /\ [][Next]_vars
=============================================================================
