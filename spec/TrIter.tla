-------------------------------- MODULE TrIter --------------------------------
(* Validates recorded walks of iterators.                                        *)
EXTENDS TraceBase, PtlIter
CONSTANT Aspects
VARIABLES sc, l, s, pos
vars == <<sc, l, s, pos>>
Ev == Trace[sc].ev
Rule(name, ok) == R(Trace[sc].id, l, name, ok)

Init == sc \in 1..Len(Trace) /\ l = 1 /\ s = <<>> /\ pos = [k \in Slots |-> -1]
Observed(e, s1, p1) ==
    /\ Rule("elements", e.s = s1)
    /\ Rule("size", e.dist = Len(s1) * 1001)
    /\ Rule("positions", \A k \in Slots : e.pos[k][1] = p1[k])
    /\ Rule("element denoted", \A k \in Slots : p1[k] \in 0..(Len(s1) - 1) => e.pos[k][2] = ElemOf(k, p1[k], s1))
    /\ Rule("comparison", \A k \in DOMAIN e.cmp : Compared(e.cmp[k], p1))
Step(e) ==
    /\ e.op # "init"
    /\ Rule("crash", e.op # "crash")
    /\ Legal(e, s, pos)
    /\ Rule("result", e.rv = Returns(e, s, pos) /\ e.st = 1)
    /\ s' = ElemsAfter(e, s, pos)
    /\ pos' = PosAfter(e, s, pos)
    /\ Observed(e, s', pos')
Start(e) == e.op = "init" /\ s' = e.v /\ pos' = pos /\ Observed(e, s', pos')
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Done \/ (l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED sc /\ LET e == Ev[l] IN Start(e) \/ Step(e))
Spec == Init /\ [][Next]_vars
=============================================================================
