-------------------------------- MODULE TrBits --------------------------------
(* Validates recorded executions of ptl::bitset.                                *)
EXTENDS TraceBase, PtlBits, PtlLayout
CONSTANT Aspects
VARIABLES sc, l, n, set
vars == <<sc, l, n, set>>
Ev == Trace[sc].ev
Rule(name, ok) == R(Trace[sc].id, l, name, ok)
On(a) == a \in Aspects

Init == sc \in 1..Len(Trace) /\ l = 1 /\ n = 0 /\ set = <<>>

Logged(e, o) == LET ks == {k \in DOMAIN e.d : e.d[k].o = o} IN IF ks = {} THEN set[o] ELSE Range(e.d[CHOOSE k \in ks : TRUE].s)
\* everything else a bitset tells about itself depends on the set only
Reported(d, N) == LET S == Range(d.s) IN
    /\ d.cnt = Cardinality(S) /\ d.any = Bool(S # {}) /\ d.none = Bool(S = {}) /\ d.all = Bool(S = All(N)) /\ d.bo = Bool(S # {}) /\ d.ok = 1
Equalities(e, s) == \A k \in DOMAIN e.eq :
    LET q == e.eq[k]
        same == s[q[1]] = s[q[2]]
    IN /\ q[3] = Bool(same) /\ q[4] = Bool(~same)
       /\ same => q[5] = 1

Stream(e) ==
    /\ e.op = "in" /\ n > 0 =>
         LET k == Skipped(e.text, e.ov)
             d == DigitsAt(e.text, k, n)
         IN IF e.ov = "failed" THEN Rule("input from a failed stream", e.fail = 1 /\ e.left = Len(e.text) /\ e.same = 1)
            ELSE Rule("stream input", e.fail = Bool(d = 0) /\ e.left = Len(e.text) - k - d /\ e.same = 1)
    /\ e.op = "out" => Rule("stream output", e.text = Printed(set[e.o], n) /\ e.fail = 0 /\ e.same = 1)

Step(e) ==
    /\ e.op # "init"
    /\ Rule("crash", e.op # "crash")
    /\ LET exp == Effect(e, set, n)
           post == [o \in DOMAIN set |-> Logged(e, o)]
       IN /\ On("content") =>
               /\ Rule("set of indices", \A o \in DOMAIN set : o \in Loose(e) \/ post[o] = exp[o])
               /\ Rule("queries", \A k \in DOMAIN e.d : Reported(e.d[k], n))
               /\ Rule("equality and hash", Equalities(e, post))
               /\ Rule("returned value", e.x # "" \/ Result(e, set, n) \in {-1, e.rv})
          /\ On("content") \/ On("access") => Rule("range check", e.x = IF Throws(e, n) THEN "range" ELSE "")
          /\ On("access") => /\ Rule("element access", e.op # "read" \/ e.x # "" \/ Result(e, set, n) = e.rv)
                             /\ Rule("designated element", \A o \in DOMAIN set : o \in Loose(e) \/ post[o] = exp[o])
          /\ On("stream") => /\ Stream(e)
                             /\ e.op \in {"in", "out"} => Rule("value read", \A o \in DOMAIN set : post[o] = exp[o])
          /\ On("image") => Rule("byte image", \A k \in DOMAIN e.d : e.d[k].im = BitsImage(Range(e.d[k].s), n))
          /\ Rule("memory outside of the object written", e.g = 0)
          /\ set' = post
    /\ UNCHANGED n
Start(e) ==
    /\ e.op = "init"
    /\ n' = e.n
    /\ On("content") => Rule("default construction", \A k \in DOMAIN e.d : e.d[k].s = <<>> /\ Reported(e.d[k], e.n)) /\ Rule("equality and hash", Equalities(e, [o \in 1..Len(e.d) |-> {}]))
    /\ On("image") => /\ Rule("size", e.size = BitsBytes(e.n) /\ e.align = 1)
                      /\ Rule("byte image", \A k \in DOMAIN e.d : e.d[k].im = BitsImage({}, e.n))
    /\ set' = [o \in 1..Len(e.d) |-> Range(e.d[o].s)]
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Done \/ (l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED sc /\ LET e == Ev[l] IN Start(e) \/ Step(e))
Spec == Init /\ [][Next]_vars
=============================================================================
