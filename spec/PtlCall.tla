-------------------------------- MODULE PtlCall --------------------------------
(* function_ref.  to[a] is what slot a is bound to: a target 1..8 (1, 2 free      *)
(* functions; 3, 4 functors with a const and a non-const overload; 5 only the    *)
(* non-const one; 6, 8 only the const one; 7 a const functor) and whether it was *)
(* seen as const.  cells: the objects that reference results refer to;           *)
(* n: how often the functors 3..7 were called.  sig: the signature.              *)
EXTENDS PtlBase
Slots == 1..3
To(t, c) == [t |-> t, c |-> c]
ToAfter(e, to) ==
    CASE e.op = "bind" -> [to EXCEPT ![e.a] = To(e.t, e.cst)]
      [] e.op \in {"assign", "copy"} -> [to EXCEPT ![e.a] = to[e.d]]
      [] e.op = "swap" -> [to EXCEPT ![e.a] = to[e.d], ![e.d] = to[e.a]]
      [] OTHER -> to
\* layout: the target's address, then the dispatcher
CallImage(x) == <<x.t, 1>>
Target(e, to) == IF e.op = "temp" THEN To(8, 0) ELSE to[e.a]
\* the overload called: -1 a function, 0 the non-const one, 1 the const one
Overload(x, sig) == CASE x.t <= 2 -> -1
                      [] x.t \in {3, 4} -> IF sig.const = 1 \/ x.c = 1 THEN 1 ELSE 0
                      [] x.t = 5 -> 0
                      [] OTHER -> 1
Fits(t, c, sig) == CASE t = 5 -> sig.const = 0 /\ c = 0
                     [] OTHER -> TRUE
\* the argument the target sees
ArgValue(sig, v) == CASE sig.arg = 6 -> 32 * v + 1 [] sig.arg = 7 -> 0 [] sig.arg = 8 -> 13 * v + 5 [] sig.arg = 9 -> 55 * v + 385 [] OTHER -> v
Throws(x, sig, v) == sig.nothrow = 0 /\ sig.arg # 7 /\ x.t # 2 /\ ArgValue(sig, v) = 666
\* the calls made by a request: [target, overload, argument]
CallsOf(e, to, sig) == IF e.op \in {"call", "temp"} THEN LET x == Target(e, to) IN <<<<x.t, Overload(x, sig), ArgValue(sig, e.v)>>>> ELSE <<>>
\* [result, cell referred to, error]
AnswerOf(e, to, cells, sig) ==
    LET x == Target(e, to) IN
    CASE e.op \in {"assign", "copy"} -> <<1, -7, "">>
      [] e.op \in {"call", "temp"} ->
            IF Throws(x, sig, e.v) THEN <<-7, -7, "user">>
            ELSE CASE sig.res = 0 -> <<0, -7, "">>
                   [] sig.res = 2 -> <<cells[(x.t % 4) + 1], x.t % 4, "">>
                   [] OTHER -> <<x.t * 1000 + ArgValue(sig, e.v), -7, "">>
      [] OTHER -> <<-7, -7, "">>
\* a reference result can be written through
CellsAfter(e, to, cells, sig) == IF e.op \in {"call", "temp"} /\ e.w = 1 /\ sig.res = 2 /\ sig.arg = 1 /\ ~Throws(Target(e, to), sig, e.v) THEN [cells EXCEPT ![(Target(e, to).t % 4) + 1] = e.v + 1] ELSE cells
CountsAfter(e, to, n) == IF e.op = "call" /\ to[e.a].t \in 3..7 THEN [n EXCEPT ![to[e.a].t - 2] = @ + 1] ELSE n
\* may a target be bound: [signature const, nothrow, const overload, non-const overload, target nothrow, object const, can]
Binds(q) == q[7] = Bool(/\ q[2] = 1 => q[5] = 1
                        /\ IF q[1] = 1 \/ q[6] = 1 THEN q[3] = 1 ELSE q[3] = 1 \/ q[4] = 1)
=============================================================================
