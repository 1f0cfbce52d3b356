-------------------------------- MODULE TrSeq --------------------------------
(* Validates recorded executions of ptl::string and ptl::vector.  Aspects       *)
(* selects the rules a run is to check; whatever is not checked is adopted from *)
(* the trace.                                                                   *)
EXTENDS TraceBase, PtlBuffer, PtlHeap, PtlLife, PtlLayout
CONSTANT Aspects
VARIABLES sc, l, obj, heap, alive
vars == <<sc, l, obj, heap, alive>>

Ev == Trace[sc].ev
IsString == Trace[sc].ty = "string"
Rule(name, ok) == R(Trace[sc].id, l, name, ok)
On(a) == a \in Aspects

\* object states after the event as logged
After(e, pre) == [o \in DOMAIN pre |->
    LET ks == {k \in DOMAIN e.d : e.d[k].o = o} IN IF ks = {} THEN pre[o] ELSE e.d[CHOOSE k \in ks : TRUE]]
Values(os) == [o \in DOMAIN os |-> os[o].c]

Init == /\ sc \in 1..Len(Trace)
        /\ l = 1
        /\ obj = <<>>
        /\ heap = {}
        /\ alive = {}

\* every logged object is consistent in itself
Consistent(s) == s.n = Len(s.c) /\ s.e = Bool(s.n = 0)

Content(e, pre, post) ==
    LET c == Values(pre)
        d == Values(post)
        exp == IF e.x = "" THEN Effect(e, c) ELSE Failed(e, c)
        loose == IF e.x = "" THEN Loose(e) ELSE {}
    IN /\ Rule("value", exp[e.o] = d[e.o] \/ e.o \in loose)
       /\ Rule("other objects", \A o \in DOMAIN c \ {e.o} : o \in loose \/ exp[o] = d[o])
       /\ Rule("self-consistent", \A o \in DOMAIN post : Consistent(post[o]))

Returned(e, pre) ==
    e.op \notin {"grow", "huge", "read"} =>
        LET r == Result(e, Values(pre)) IN Rule("returned position", e.x # "" \/ r = -1 \/ r = e.rv)

Thrown(e) ==
    /\ Rule("unexpected exception", e.x # "" => e.ff = 1 \/ e.op \in {"huge", "read"})

FaultRules(e) ==
    /\ Rule("exception of a non-throwing operation", e.op \in NoThrow => e.x = "")
    /\ Rule("kind of exception", e.x # "" /\ e.op \notin {"huge", "read"} => e.ff = 1 /\ e.x = IF e.fk \in {1, 4} THEN "alloc" ELSE "user")
    /\ Rule("swallowed exception", e.ff = 1 /\ e.fk \in {2, 3} => e.x = "user")

Buffer(e, pre, post) ==
    LET s == pre[e.o]
        t == post[e.o]
    IN /\ Rule("keeps buffer", e.x = "" => Keeps(e, s, t))
       /\ Rule("untouched buffers", \A o \in DOMAIN pre \ Frame(e) : Same(pre[o], post[o]))
       /\ IF IsString THEN /\ Rule("string invariant", \A o \in DOMAIN post : StringOk(post[o]))
                           /\ Rule("inline storage", e.x = "" => StringInline(e, s, t) /\ StringMoved(e, pre, post))
          ELSE /\ Rule("vector invariant", \A o \in DOMAIN post : VectorOk(post[o]))
               /\ Rule("shrink_to_fit", VectorShrinks(e, s, t))
               /\ Rule("growth", e.op = "grow" => e.moves <= GrowthBound(t.n))

Huge(e) == e.op = "huge" =>
    /\ Rule("request beyond max_size accepted", e.x \in {"length", "alloc"})
    /\ Rule("object produced", e.ov \in {"ctor", "ctorit", "ctorn"} => e.rv = 1)

Access(e, pre) == e.op = "read" =>
    LET n == BigOf(Len(pre[e.o].c))
        ok == BigLess(e.big, n)
    IN IF e.ov \in {"at", "cat"}
       THEN Rule("at", IF ok THEN e.x = "" /\ BigCmp(BigOf(e.rv), e.big) = 0 ELSE e.x = "range")
       ELSE Rule("element access", e.x = "" /\ e.rv >= 0 /\ BigCmp(BigOf(e.rv), e.big) = 0)

ImageOk(post) == On("image") =>
    Rule("byte image", \A o \in DOMAIN post : LET x == post[o] IN IF IsString THEN StringImage(x, x.c, x.cap, x.n) ELSE VectorImage(x, x.c, x.cap, x.n))
MemOk(e, post) == On("mem") =>
    LET h == MemSteps(heap, e.mem)
    IN /\ Rule("released by the wrong module or twice", h # Bad)
       /\ Rule("leak or shared buffer", Owned(h, post))
LifeOk(e) == On("life") =>
    LET a == LifeSteps(alive, e.u)
    IN /\ Rule("element used while dead or constructed twice", a # LBad)
       /\ Rule("live elements are not those reported", a = Elements(e.els))

Common(e, post) ==
    /\ ImageOk(post)
    /\ MemOk(e, post) /\ LifeOk(e)
    /\ Rule("memory outside of the object written", e.g = 0)
    /\ heap' = IF On("mem") THEN MemSteps(heap, e.mem) ELSE heap
    /\ alive' = IF On("life") THEN LifeSteps(alive, e.u) ELSE alive
    /\ obj' = post
    /\ l' = l + 1
    /\ UNCHANGED sc

Start(e) ==
    /\ e.op = "init"
    /\ LET post == [o \in 1..Len(e.d) |-> e.d[o]]
       IN /\ Rule("empty after default construction", \A o \in DOMAIN post : post[o].c = <<>> /\ Consistent(post[o]))
          /\ On("image") => Rule("size", e.size = 32 /\ e.align = 8)
          /\ On("buffer") => Rule("buffer after default construction",
                                  \A o \in DOMAIN post : IF IsString THEN StringOk(post[o]) /\ post[o].inl = 1 ELSE VectorOk(post[o]))
          /\ Common(e, post)

Finish(e) ==
    /\ e.op = "end"
    /\ Common(e, <<>>)

Step(e) ==
    /\ e.op \notin {"init", "end"}
    /\ Rule("crash", e.op # "crash")
    /\ LET post == After(e, obj)
       IN /\ On("content") => Content(e, obj, post) /\ Returned(e, obj)
          /\ IF On("fault") THEN FaultRules(e) ELSE (On("content") => Thrown(e))
          /\ On("nul") => Rule("string stays terminated", \A o \in DOMAIN post : post[o].nul = 0 /\ post[o].cs = 1 /\ post[o].n <= post[o].cap)
          /\ On("buffer") => Buffer(e, obj, post)
          /\ On("huge") => Huge(e)
          /\ On("access") => Access(e, obj)
          /\ Common(e, post)

Done == l > Len(Ev) /\ UNCHANGED vars
Next == Done \/ (l <= Len(Ev) /\ LET e == Ev[l] IN Start(e) \/ Finish(e) \/ Step(e))
Spec == Init /\ [][Next]_vars
=============================================================================
