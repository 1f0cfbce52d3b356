-------------------------------- MODULE TrView --------------------------------
(* Validates recorded executions of array_ref and string_ref.                    *)
EXTENDS TraceBase, PtlView
CONSTANT Aspects
VARIABLES sc, l, vw, mem
vars == <<sc, l, vw, mem>>
Ev == Trace[sc].ev
Rule(name, ok) == R(Trace[sc].id, l, name, ok)
On(a) == a \in Aspects
Init == sc \in 1..Len(Trace) /\ l = 1 /\ mem = <<>> /\ vw = [k \in Slots |-> Null]

Observed(e, vw1, mem1) ==
    /\ Rule("elements of the sources", e.mm = mem1)
    /\ Rule("range denoted", \A k \in Slots : LET q == e.vw[k] IN q[1] = vw1[k].m /\ q[2] = vw1[k].o /\ q[3] = vw1[k].n /\ q[4] = Bool(vw1[k].n = 0))
    /\ On("image") => Rule("two pointers", \A k \in Slots : e.img[k] = ViewImage(vw1[k]))
    /\ Rule("elements seen", \A k \in Slots : e.vw[k][5] = Content(vw1[k], mem1))
Answer(e) ==
    LET w == vw[e.a]
        c == Content(w, mem) IN
    CASE e.op = "assign" -> e.rv = 1
      [] e.op = "ends" -> e.rv = c[1] * 1000 + c[Len(c)]
      [] e.op = "out" -> e.rv = 1 /\ e.text = c
      [] e.op = "conv" -> e.sv = <<w.m, w.o, w.n>>
      [] e.op = "lit" -> e.text = e.lit
      [] OTHER -> TRUE
Access(e) == e.op = "at" =>
    LET c == Content(vw[e.a], mem) IN
    IF BigLess(e.idx, BigOf(Len(c))) THEN e.x = "" /\ e.rv = c[e.idx[1] + 1] /\ e.n = 1 ELSE e.x = "range"
Start(e) ==
    /\ e.op = "init"
    /\ Rule("size", ~On("image") \/ e.size = 1)
    /\ mem' = e.mm /\ vw' = vw
    /\ Observed(e, vw', mem')
    /\ Rule("types bound to", \A k \in DOMAIN e.binds : Binds(e.binds[k]))
Step(e) ==
    /\ e.op # "init"
    /\ Rule("crash", e.op # "crash")
    /\ Legal(e, vw, mem)
    /\ Rule("result", Answer(e))
    /\ Rule("checked access", Access(e))
    /\ mem' = MemAfter(e, vw, mem) /\ vw' = ViewsAfter(e, vw, mem)
    /\ Observed(e, vw', mem')
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Done \/ (l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED sc /\ LET e == Ev[l] IN Start(e) \/ Step(e))
Spec == Init /\ [][Next]_vars
=============================================================================
