------------------------------ MODULE TrShare ------------------------------
(* Validates what threads observed of shared and own objects.  The events of    *)
(* all threads are merged in the order in which they finished.                  *)
EXTENDS TraceBase, PtlShare
CONSTANT Aspects
VARIABLES sc, l, val
vars == <<sc, l, val>>
Ev == Trace[sc].ev
Ty == Trace[sc].ty
Rule(name, ok) == R(Trace[sc].id, l, name, ok)
Init == sc \in 1..Len(Trace) /\ l = 1 /\ val = [k \in Objects |-> <<>>]
Step(e) ==
    /\ Rule("crash", e.op # "crash")
    /\ IF e.op = "init" THEN UNCHANGED val
       ELSE /\ MayUse(e)
            /\ IF e.op \in {"set", "take", "chg"} THEN TRUE ELSE Rule("what a thread observes", e.r = Answer(Ty, e.op, val[e.x], val[e.y], e.i))
            /\ val' = After(Ty, e, val)
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Done \/ (l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED sc /\ Step(Ev[l]))
Spec == Init /\ [][Next]_vars
=============================================================================
