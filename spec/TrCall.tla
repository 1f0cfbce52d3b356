-------------------------------- MODULE TrCall --------------------------------
(* Validates recorded executions of function_ref.                                *)
EXTENDS TraceBase, PtlCall
CONSTANT Aspects
VARIABLES sc, l, to, cells, n
vars == <<sc, l, to, cells, n>>
Ev == Trace[sc].ev
Sig == LET i == Ev[1] IN [const |-> i.const, nothrow |-> i.nothrow, arg |-> i.arg, res |-> i.res]
Rule(name, ok) == R(Trace[sc].id, l, name, ok)
On(a) == a \in Aspects
Init == sc \in 1..Len(Trace) /\ l = 1 /\ to = [k \in Slots |-> To(2, 0)] /\ cells = <<11, 12, 13, 14>> /\ n = <<0, 0, 0, 0, 0>>
Observed(e, t1, c1, n1) ==
    /\ On("image") => Rule("target and dispatcher", \A k \in Slots : e.img[k] = CallImage(t1[k]))
    /\ Rule("objects results refer to", e.cells = c1)
    /\ Rule("state of the targets", e.n = n1)
Start(e) ==
    /\ e.op = "init"
    /\ UNCHANGED <<to, cells, n>>
    /\ Rule("targets bound to", \A k \in DOMAIN e.types : Binds(e.types[k]))
    /\ Rule("size", ~On("image") \/ e.size = 1)
    /\ Observed(e, to, cells, n)
Step(e) ==
    /\ e.op # "init"
    /\ Rule("crash", e.op # "crash")
    /\ e.op = "bind" => Fits(e.t, e.cst, Sig)
    /\ Rule("calls of the target", e.calls = CallsOf(e, to, Sig))
    /\ Rule("result", <<e.rv, e.ref, e.x>> = AnswerOf(e, to, cells, Sig))
    /\ Rule("arguments", e.same = 1)
    /\ to' = ToAfter(e, to) /\ cells' = CellsAfter(e, to, cells, Sig) /\ n' = CountsAfter(e, to, n)
    /\ Observed(e, to', cells', n')
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Done \/ (l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED sc /\ LET e == Ev[l] IN Start(e) \/ Step(e))
Spec == Init /\ [][Next]_vars
=============================================================================
