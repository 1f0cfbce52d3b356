-------------------------------- MODULE PtlSeq --------------------------------
(* Abstract semantics of ptl::string and ptl::vector.                           *)
(*                                                                              *)
(* The abstract state of an object is a finite sequence of values.  A request e *)
(* is a record; o is the modified object, p a second one, positions are 0-based,*)
(*   arg = the values the caller hands over:                                    *)
(*     sp = 0: literally xs,  sp > 0: the slice si..sj of object sp (reversed   *)
(*     if sr = 1) - which may be the modified object itself -,                  *)
(*     the whole repeated rep times.                                            *)
(* Effect gives the new values of all objects.                                  *)
EXTENDS PtlBase

Arg(e, c) ==
    LET base == IF e.sp = 0 THEN e.xs ELSE Slice(c[e.sp], e.si, e.sj)
        r == IF e.sr = 1 THEN Rev(base) ELSE base
    IN Rep(r, e.rep)

Effect(e, c) ==
    LET o == e.o
        p == e.p
    IN CASE e.op \in {"create", "assign", "foreign"} -> [c EXCEPT ![o] = Arg(e, c)]
         [] e.op \in {"mvcreate", "mvassign"} -> IF o = p THEN c ELSE [c EXCEPT ![o] = c[p]]
         [] e.op = "append"  -> [c EXCEPT ![o] = @ \o Arg(e, c)]
         [] e.op = "insert"  -> [c EXCEPT ![o] = Splice(@, e.i, e.i, Arg(e, c))]
         [] e.op = "erase"   -> [c EXCEPT ![o] = Splice(@, e.i, e.j, <<>>)]
         [] e.op = "replace" -> [c EXCEPT ![o] = Splice(@, e.i, e.j, Arg(e, c))]
         [] e.op = "pop"     -> [c EXCEPT ![o] = Take(@, Len(@) - 1)]
         [] e.op = "clear"   -> [c EXCEPT ![o] = <<>>]
         [] e.op = "resize"  -> [c EXCEPT ![o] = IF e.n <= Len(@) THEN Take(@, e.n)
                                                 ELSE @ \o Rep(Arg(e, c), e.n - Len(@))]
         [] e.op = "write"   -> [c EXCEPT ![o] = [@ EXCEPT ![e.i + 1] = e.v]]
         [] e.op = "concat"  -> [c EXCEPT ![o] = IF e.ov \in {"sv+s", "ch+s"} THEN Arg(e, c) \o c[p]
                                                 ELSE c[p] \o Arg(e, c)]
         [] e.op \in {"substr", "mvsubstr"} -> [c EXCEPT ![o] = Slice(c[p], e.i, e.j)]
         [] e.op = "swap"    -> [c EXCEPT ![o] = c[p], ![p] = c[o]]
         [] e.op = "grow"    -> [c EXCEPT ![o] = @ \o Rep(<<e.v>>, e.n)]
         [] e.op \in {"reserve", "shrink", "read", "huge"} -> c

\* objects left with an unspecified (but valid) value
Loose(e) == IF e.op \in {"mvcreate", "mvassign"} /\ e.o # e.p THEN {e.p}
            ELSE IF e.op = "mvsubstr" THEN {e.p} ELSE {}

\* objects the request may modify
Frame(e) == IF e.op \in {"mvcreate", "mvassign", "swap", "mvsubstr"} THEN {e.o, e.p} ELSE {e.o}

\* a failed request leaves every value alone; a failed construction leaves nothing behind, so that
\* the harness puts an empty object there
Failed(e, c) == IF e.op \in {"create", "concat", "substr", "mvsubstr"} THEN [c EXCEPT ![e.o] = <<>>] ELSE c

\* operations that do not throw
NoThrow == {"mvcreate", "mvassign", "swap", "clear", "erase", "pop", "shrink", "end", "init"}

\* what the operation returns (position, or "a reference to the object itself" = 1); -1: nothing to check
Result(e, c) ==
    CASE e.op \in {"insert", "erase"} -> e.i
      [] e.op = "replace" -> 1
      [] e.op \in {"assign", "mvassign"} -> IF e.ov \in {"op=copy", "op=il", "op=sv", "op=move"} THEN 1 ELSE -1
      [] e.op = "append" -> IF e.ov \in {"+=il", "+=sv", "+=obj", "+=ch"} THEN 1
                            ELSE IF e.ov \in {"push_back", "push_back&&", "emplace_back"} THEN Len(c[e.o])
                            ELSE -1
      [] OTHER -> -1
=============================================================================
