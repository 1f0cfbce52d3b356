-------------------------------- MODULE MCView --------------------------------
(* All requests in all states of two views over two small memories.              *)
EXTENDS PtlView, Json
CONSTANTS Text, Show
VARIABLES mem, vw, h, last
vars == <<mem, vw, h, last>>
view == vw
Used == IF Text THEN {1, 2} ELSE {1, 3}
Base == [op |-> "", a |-> 1, d |-> 1, m |-> 1, i |-> 0, n |-> 0, v |-> 0, src |-> ""]
Q(op, a) == [Base EXCEPT !.op = op, !.a = a]
Max == 3
Sources == IF Text THEN {"ptrn", "sv", "cstr", "view", "default"} ELSE {"ptr2", "ptrn", "range", "view", "default", "ctad", "rvalue"}
Requests ==
    {[Q("make", a) EXCEPT !.m = m, !.i = i, !.n = n, !.src = x] : a \in Used, m \in 1..2, i \in 0..Max, n \in 0..Max, x \in Sources \ {"view", "default"}}
    \cup {[Q("make", a) EXCEPT !.src = x, !.d = d, !.n = n] : a \in Used, d \in Used, n \in 0..1, x \in {"view", "default"}}
    \cup {[Q(k, a) EXCEPT !.d = d] : k \in {"assign", "swap"}, a \in Used, d \in Used}
    \cup {[Q(k, a) EXCEPT !.d = d, !.i = i, !.n = n] : k \in {"first", "last", "sub", "subn"}, a \in Used, d \in Used, i \in 0..Max, n \in 0..Max}
    \cup {[Q(k, a) EXCEPT !.n = n] : k \in {"prefix", "suffix"}, a \in Used, n \in 0..Max}
    \cup {[Q("write", a) EXCEPT !.i = i, !.v = 99] : a \in Used, i \in 0..(Max - 1)}
    \cup {[Q("poke", 1) EXCEPT !.m = m, !.i = i, !.v = 98] : m \in 1..2, i \in 0..(Max - 1)}
    \cup {Q(k, a) : k \in {"ends", "conv", "out"}, a \in Used}
Sensible(e) ==
    /\ e.op = "make" /\ e.src \in {"range", "ctad", "rvalue"} => e.i = 0 /\ e.n = 0
    /\ e.op = "make" /\ e.src = "cstr" => e.n = 0
    /\ e.op = "make" /\ e.src = "default" => e.d = e.a
    /\ e.op \in {"first", "last"} => e.i = 0
    /\ e.op = "sub" => e.n = 0
    /\ e.op \in {"prefix", "suffix", "conv", "out"} => Text
    /\ e.op = "write" => ~Text /\ e.a < 3
    \* a mutable view is not made of a const one
    /\ ~Text /\ e.op \in {"make", "assign"} => e.a >= 3 \/ e.d < 3
    /\ ~Text /\ e.op = "make" /\ e.src = "view" => e.a >= 3 \/ e.d < 3
    /\ ~Text /\ e.op \in {"first", "last", "sub", "subn"} => e.a < 3 \/ e.d >= 3
    /\ ~Text /\ e.op = "swap" => e.a = e.d
Init == mem = (IF Text THEN <<<<97, 0, 98>>, <<99, 100, 101>>>> ELSE <<<<51, 52, 53>>, <<61, 62>>>>) /\ vw = [k \in Slots |-> Null] /\ h = <<>> /\ last = Base
Next == \E e \in Requests :
    /\ Sensible(e) /\ Legal(e, vw, mem)
    /\ vw' = ViewsAfter(e, vw, mem) /\ mem' = MemAfter(e, vw, mem) /\ h' = Append(h, e) /\ last' = e
Spec == Init /\ [][Next]_vars
AllWithin == \A k \in Slots : Within(vw[k], mem)
\* how the sub-ranges relate
To(k, a, i, n) == ViewsAfter([Q(k, a) EXCEPT !.i = i, !.n = n, !.d = a], vw, mem)[a]
Laws == \A a \in Used : LET w == vw[a] c == Content(w, mem) IN \A i \in 0..w.n :
    /\ Content(To("first", a, 0, i), mem) \o Content(To("sub", a, i, 0), mem) = c
    /\ To("last", a, 0, w.n - i) = To("sub", a, i, 0)
    /\ To("prefix", a, 0, i) = To("sub", a, i, 0) /\ To("suffix", a, 0, i) = To("first", a, 0, w.n - i)
    /\ \A n \in 0..(w.n - i) : To("subn", a, i, n) = ViewsAfter([Q("first", a) EXCEPT !.n = n, !.d = a], [vw EXCEPT ![a] = To("sub", a, i, 0)], mem)[a]
\* only writing changes elements, and only one; only the named views change
Writes == [][mem' # mem => last'.op \in {"write", "poke"}]_vars
Keeps == [][\A k \in Slots : vw'[k] # vw[k] => k \in {last'.a, last'.d}]_vars
Seen == [][last'.op = "write" => \A k \in Slots : vw[k].m = vw[last'.a].m /\ vw[k].o = vw[last'.a].o /\ vw[k].n = vw[last'.a].n => Content(vw'[k], mem')[last'.i + 1] = 99]_vars
Emit == IF Show THEN PrintT("@" \o ToJson([h |-> h, e |-> last'])) ELSE TRUE
=============================================================================
