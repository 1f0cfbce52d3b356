-------------------------------- MODULE TrSum --------------------------------
(* Validates recorded executions of ptl::optional and ptl::variant.             *)
EXTENDS TraceBase, PtlSum, PtlHeap, PtlLife, PtlLayout
CONSTANT Aspects
VARIABLES sc, l, opt, obj, heap, alive
vars == <<sc, l, opt, obj, heap, alive>>

Ev == Trace[sc].ev
Rule(name, ok) == R(Trace[sc].id, l, name, ok)
On(a) == a \in Aspects

After(e, pre) == [o \in DOMAIN pre |->
    LET ks == {k \in DOMAIN e.d : e.d[k].o = o} IN IF ks = {} THEN pre[o] ELSE e.d[CHOOSE k \in ks : TRUE]]
Values(os) == [o \in DOMAIN os |-> <<os[o].a, os[o].v>>]

Init == /\ sc \in 1..Len(Trace)
        /\ l = 1 /\ opt = FALSE /\ obj = <<>> /\ heap = {} /\ alive = {}

\* exactly one alternative is reported, by every query; an optional answers has_value() and bool alike
Consistent(x, isopt) == IF isopt THEN x.a \in {0, 1} /\ x.h = x.a /\ x.gi = x.a
                        ELSE x.a >= 1 /\ x.h = 1 /\ x.gi = 1

Content(e, post) ==
    LET s == Values(obj)
        t == Values(post)
        ok == e.x = "" \/ e.op \in {"read", "visit"}
        exp == IF ok THEN Effect(e, s, opt) ELSE Failed(e, s, opt)
        loose == IF ok THEN Loose(e, s) ELSE {}
    IN /\ Rule("exactly one alternative", \A o \in DOMAIN post : Consistent(post[o], opt))
       /\ Rule("value", Agrees(exp[e.o], t[e.o], e.o \in loose))
       /\ Rule("other objects", \A o \in DOMAIN s \ {e.o} : Agrees(exp[o], t[o], o \in loose))
       /\ Rule("returned reference", e.x = "" /\ Returned(e) # -1 => e.rv = 1)
       /\ Rule("unexpected exception", e.x # "" => e.ff = 1 \/ e.op \in {"read", "visit"})

FaultRules(e) ==
    /\ Rule("exception of a non-throwing operation", NoThrow(e) => e.x = "")
    /\ Rule("kind of exception", e.x # "" /\ e.op \notin {"read", "visit"} => e.ff = 1 /\ e.x = IF e.fk \in {1, 4} THEN "alloc" ELSE "user")
    /\ Rule("swallowed exception", e.ff = 1 /\ e.fk = 2 => e.x = "user")

Reading(e) == e.op = "read" =>
    LET s == <<obj[e.o].a, obj[e.o].v>>
        here == s[1] = e.a
    IN CASE e.ov \in {"value", "get"} ->
              IF here THEN /\ Rule("checked access", e.x = "" /\ e.rv = s[2] /\ e.same = 1)
                           /\ Rule("type of the reference", e.cq = Const(e.cat) /\ e.rq = Moved(e.cat))
              ELSE Rule("access of an absent value", e.x = IF opt THEN "badopt" ELSE "badvar")
         [] e.ov = "*" -> Rule("dereferenced", e.x = "" /\ e.rv = s[2] /\ e.same = 1 /\ e.cq = Const(e.cat) /\ e.rq = Moved(e.cat))
         [] e.ov = "get_if" -> Rule("get_if", e.x = "" /\ e.same = 1 /\ e.rv = (IF here THEN s[2] ELSE -1) /\ e.cq = Bool(e.cat % 2 = 0))
         [] e.ov \in {"value_or", "value_or&&", "mvalue_or", "value_or_int"} ->
              Rule("value_or", e.x = "" /\ e.rv = IF here THEN s[2] ELSE e.v)
         [] OTHER -> Rule("query", e.x = "" /\ e.rv = Bool(here))

Visiting(e) == e.op = "visit" =>
    LET s == <<obj[e.o].a, obj[e.o].v>>
    IN /\ Rule("visitor calls", e.calls = 1)
       /\ Rule("visited alternative", e.va = s[1] /\ e.vv = s[2] /\ e.same = 1)
       /\ Rule("type of the visited reference", e.cq = Const(e.cat) /\ e.rq = Moved(e.cat))
       /\ Rule("outcome of the visitation", IF e.thr = 1 THEN e.x = "user" ELSE e.x = "" /\ e.res = 1000 + s[1])

ImageOk(post) == On("image") =>
    Rule("byte image", \A o \in DOMAIN post : LET x == post[o] IN SumImage(x.im, Ev[1].kinds, Ev[1].opt = 1, x.a, x.v, x.fv))
MemOk(e, post) == On("mem") =>
    LET h == MemSteps(heap, e.mem)
    IN /\ Rule("released by the wrong module or twice", h # Bad)
       /\ Rule("leak or shared buffer", Owned(h, post))
LifeOk(e) == On("life") =>
    LET a == LifeSteps(alive, e.u)
    IN /\ Rule("element used while dead or constructed twice", a # LBad)
       /\ Rule("live elements are not those reported", a = Elements(e.els))
Common(e, post) ==
    /\ ImageOk(post)
    /\ MemOk(e, post) /\ LifeOk(e)
    /\ Rule("memory outside of the object written", e.g = 0)
    /\ heap' = IF On("mem") THEN MemSteps(heap, e.mem) ELSE heap
    /\ alive' = IF On("life") THEN LifeSteps(alive, e.u) ELSE alive
    /\ obj' = post
    /\ l' = l + 1
    /\ UNCHANGED sc

Start(e) ==
    /\ e.op = "init"
    /\ opt' = (e.opt = 1)
    /\ LET post == [o \in 1..Len(e.d) |-> e.d[o]]
       IN /\ Rule("default construction", \A o \in DOMAIN post : Consistent(post[o], e.opt = 1) /\ <<post[o].a, post[o].v>> = Default(e.opt = 1))
          /\ On("image") => Rule("size", e.size = Largest(e.kinds) + 1 /\ e.align = 1)
          /\ Common(e, post)
Finish(e) == e.op = "end" /\ Common(e, <<>>) /\ UNCHANGED opt
Step(e) ==
    /\ e.op \notin {"init", "end"}
    /\ Rule("crash", e.op # "crash")
    /\ UNCHANGED opt
    /\ LET post == After(e, obj)
       IN /\ On("content") => Content(e, post)
          /\ On("fault") => FaultRules(e)
          /\ On("access") => Reading(e)
          /\ On("visit") => Visiting(e)
          /\ Common(e, post)

Done == l > Len(Ev) /\ UNCHANGED vars
Next == Done \/ (l <= Len(Ev) /\ LET e == Ev[l] IN Start(e) \/ Finish(e) \/ Step(e))
Spec == Init /\ [][Next]_vars
=============================================================================
