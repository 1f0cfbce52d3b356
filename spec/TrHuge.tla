-------------------------------- MODULE TrHuge --------------------------------
(* Validates recorded executions over memories of more than 2^32 elements.       *)
EXTENDS TraceBase, PtlHuge
CONSTANT Aspects
VARIABLES sc, l, vw, n, cells, raws
vars == <<sc, l, vw, n, cells, raws>>
Ev == Trace[sc].ev
Rule(name, ok) == R(Trace[sc].id, l, name, ok)
View == Ev[1].kind = "view"
Room == Ev[1].room
Init == sc \in 1..Len(Trace) /\ l = 1 /\ vw = <<NoView, NoView>> /\ n = Zero /\ cells = [p \in {} |-> 0] /\ raws = 0
Observed(e, vw1, n1, cells1, raws1) ==
    IF View THEN Rule("range denoted", \A k \in 1..2 : LET q == e.vw[k] IN q[3] = vw1[k][2] /\ q[4] = Bool(vw1[k][2] = Zero) /\ (q[1] = 1 => vw1[k][2] = Zero) /\ (q[1] = 0 => q[2] = vw1[k][1]))
    ELSE /\ Rule("size and buffer", e.o = <<1, n1, Room, Bool(n1 = Zero), 1>>)
         /\ Rule("elements", \A k \in DOMAIN e.see : e.see[k][2] = Value(cells1, e.see[k][1]))
         /\ Rule("buffer released", e.rel = raws1)
Start(e) ==
    /\ e.op = "init"
    /\ IF View THEN vw' = <<<<Zero, e.room>>, NoView>> /\ n' = n ELSE n' = e.n /\ vw' = vw
    /\ UNCHANGED <<cells, raws>>
    /\ Observed(e, vw', n', cells', raws')
Step(e) ==
    /\ e.op \notin {"init", "end"}
    /\ Rule("crash", e.op # "crash")
    /\ LET o == IF View THEN vw[e.a][1] ELSE Zero
           m == IF View THEN vw[e.a][2] ELSE n
       IN /\ e.op = "at" => Rule("checked access", Accessed(e, o, m, cells))
          /\ e.op = "walk" => Leq(e.p, m) /\ Leq(e.q, m) /\ Rule("iterators", Walked(e, o, m))
          /\ e.op = "ends" => Rule("first and last", Ends(e, o, m))
          /\ e.op = "view" => Rule("view of it", (e.at = 1 \/ m = Zero) /\ e.n = m)
          /\ e.op \in {"insert", "erase"} => Rule("position returned", e.ret = <<0, e.i>>)
          /\ IF View THEN /\ RangesLegal(e, vw, Room)
                          /\ vw' = RangesAfter(e, vw)
                          /\ cells' = IF e.op = "write" THEN Put(cells, Add(o, e.i), e.v) ELSE cells
                          /\ UNCHANGED <<n, raws>>
             ELSE /\ Legal(e, n, Room)
                  /\ n' = SizeAfter(e, n) /\ cells' = CellsAfter(e, n, cells)
                  /\ raws' = IF e.op = "raw" THEN raws + 1 ELSE raws
                  /\ UNCHANGED vw
    /\ Observed(e, vw', n', cells', raws')
\* the last buffer is released with the object
End(e) == e.op = "end" /\ Rule("buffer released", e.rel = raws + 1) /\ UNCHANGED <<vw, n, cells, raws>>
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Done \/ (l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED sc /\ LET e == Ev[l] IN Start(e) \/ Step(e) \/ End(e))
Spec == Init /\ [][Next]_vars
=============================================================================
