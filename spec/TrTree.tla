-------------------------------- MODULE TrTree --------------------------------
(* Validates recorded executions of the nodes of PtlTree.                        *)
EXTENDS TraceBase, PtlTree
CONSTANT Aspects
VARIABLES sc, l, N
vars == <<sc, l, N>>
Ev == Trace[sc].ev
Rule(name, ok) == R(Trace[sc].id, l, name, ok)
\* recorded: [node, tag, x, optional, elements of the vector]
Seen(e) == [n \in {x[1] : x \in Range(e.nodes)} |-> LET x == CHOOSE x \in Range(e.nodes) : x[1] = n IN [v |-> <<x[2], x[3]>>, o |-> x[4], s |-> x[5]]]
Sound(e, M) ==
    /\ Rule("references to dead nodes", \A n \in DOMAIN M : Out(M[n]) \subseteq DOMAIN M)
    /\ Rule("nodes alive", Roots \subseteq DOMAIN M /\ DOMAIN M = Live(M))
    /\ Rule("references alive", e.refs = Total(M, DOMAIN M) + e.extra)
    /\ Rule("counts", \A x \in Range(e.counts) : x[2] = x[3])
Step(e) ==
    /\ Rule("crash", e.op # "crash")
    /\ LET M == Seen(e)
           X == Effect(e, N)
       IN /\ Legal(e, N)
          /\ Rule("nodes", DOMAIN X \subseteq DOMAIN M)
          /\ \A n \in DOMAIN X :
               /\ Rule("variant", <<n, "v">> \in Open(e, N) \/ M[n].v = X[n].v)
               /\ Rule("optional", M[n].o = X[n].o)
               /\ Rule("vector", <<n, "s">> \in Open(e, N) \/ M[n].s = X[n].s)
          /\ Sound(e, M)
          /\ N' = M
Init == sc \in 1..Len(Trace) /\ l = 1 /\ N = [n \in Roots |-> Blank]
Done == l > Len(Ev) /\ UNCHANGED vars
\* the roots are given up at the end, and nothing is left
End(e) == e.op = "end" /\ Rule("left over", e.left = 0 /\ e.refs = 2) /\ N' = N
Next == Done \/ (l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED sc /\ LET e == Ev[l] IN IF e.op = "end" THEN End(e) ELSE Step(e))
Spec == Init /\ [][Next]_vars
=============================================================================
