-------------------------------- MODULE TrAgg --------------------------------
(* Validates recorded executions of array and tuple.                             *)
EXTENDS TraceBase, PtlAgg
CONSTANT Aspects
VARIABLES sc, l, o
vars == <<sc, l, o>>
Ev == Trace[sc].ev
Arr == Ev[1].arr
Rule(name, ok) == R(Trace[sc].id, l, name, ok)
On(a) == a \in Aspects
Init == sc \in 1..Len(Trace) /\ l = 1 /\ o = <<>>
Known(x) == \A k \in DOMAIN x : x[k] >= 0
Observed(e, o1) ==
    /\ Rule("size", e.size = 1 /\ \A k \in Slots : Len(e.o[k]) = Ev[1].n)
    /\ Rule("elements", e.o = o1)
    /\ Rule("element referred to", e.same = 1)
    /\ On("compare") => Rule("comparison", \A k \in DOMAIN e.cmp : LET q == e.cmp[k] IN Compared(q, o1[q[1]], o1[q[2]]))
    /\ On("image") => Rule("byte image", \A k \in Slots : Known(o1[k]) /\ ~(Arr = 0 /\ Ev[1].n = 0) => e.img[k] = Image(o1[k], Ev[1].w, Arr))
Start(e) ==
    /\ e.op = "init"
    /\ o' = [k \in Slots |-> [i \in 1..e.n |-> 10 * k + i - 1]]
    /\ Rule("category of get", \A k \in DOMAIN e.cats : e.cats[k] = 1)
    /\ Observed(e, o')
Step(e) ==
    /\ e.op # "init"
    /\ Rule("crash", e.op # "crash")
    /\ Rule("result", <<e.rv, e.x>> = AggAnswer(e, o))
    /\ LET exp == AggAfter(e, o) IN o' = [k \in Slots |-> IF k \in AggLoose(e) THEN e.o[k] ELSE exp[k]]
    /\ Observed(e, o')
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Done \/ (l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED sc /\ LET e == Ev[l] IN Start(e) \/ Step(e))
Spec == Init /\ [][Next]_vars
=============================================================================
