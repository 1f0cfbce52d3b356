-------------------------------- MODULE MCIter --------------------------------
(* All walks of two iterators of one direction (mutable and const) over N        *)
(* elements, with the laws of random access.                                     *)
EXTENDS PtlIter, Json
CONSTANTS N, Back, Show
VARIABLES s, pos, h, last
vars == <<s, pos, h, last>>
view == <<s, pos>>
Used == IF Back THEN {5, 6, 7} ELSE {1, 2, 3}
Base == [op |-> "", a |-> 1, d |-> 1, n |-> 0, v |-> 0, via |-> 0]
Q(op, a) == [Base EXCEPT !.op = op, !.a = a]
Other(a) == CASE a = 1 -> 2 [] a = 2 -> 1 [] a = 5 -> 6 [] a = 6 -> 5 [] OTHER -> a
Requests ==
    {[Q("get", a) EXCEPT !.n = n, !.via = v] : a \in Used, n \in 0..1, v \in 0..2}
    \cup {Q(k, a) : k \in {"inc", "pinc", "dec", "pdec"}, a \in Used}
    \cup {[Q(k, a) EXCEPT !.n = n] : k \in {"add", "sub"}, a \in Used, n \in (-N)..N}
    \cup {[Q(k, a) EXCEPT !.n = n, !.d = d] : k \in {"plus", "nplus", "minus"}, a \in Used, n \in (-N)..N, d \in Used}
    \cup {[Q(k, a) EXCEPT !.d = Other(a)] : k \in {"copy", "swap"}, a \in Used}
    \cup {[Q("conv", a) EXCEPT !.d = a + 2, !.via = v] : a \in Used, v \in 0..1}
    \cup {[Q("read", a) EXCEPT !.via = v, !.n = n] : a \in Used, v \in 0..2, n \in (-N)..N}
    \cup {[Q("write", a) EXCEPT !.via = v, !.n = n, !.v = 99] : a \in Used, v \in 0..2, n \in (-N)..N}
Sensible(e) == /\ (e.via # 2 /\ e.op \in {"read", "write"}) => e.n = 0
               /\ e.op = "conv" => e.a \in {1, 5}
               /\ e.op \in {"plus", "nplus", "minus"} => e.d \in {e.a, Other(e.a)}
               /\ e.op = "get" /\ Mutable(e.a) => e.via = 0
               /\ e.op = "swap" => e.d # e.a /\ pos[e.d] # -1
Init == s = [k \in 1..N |-> 40 + k] /\ pos = [k \in Slots |-> -1] /\ h = <<>> /\ last = Base
Next == \E e \in Requests :
    /\ Sensible(e) /\ Legal(e, s, pos)
    /\ s' = ElemsAfter(e, s, pos) /\ pos' = PosAfter(e, s, pos) /\ h' = Append(h, e) /\ last' = e
Spec == Init /\ [][Next]_vars
InRange == \A k \in Slots : pos[k] \in -1..N
\* laws
Laws == \A a \in Used : pos[a] # -1 =>
    /\ \A n \in (-N)..N : LET e == [Q("add", a) EXCEPT !.n = n] IN Legal(e, s, pos) =>
         /\ PosAfter([Q("sub", a) EXCEPT !.n = n], s, PosAfter(e, s, pos)) = pos
         /\ PosAfter(e, s, pos) = PosAfter([Q("sub", a) EXCEPT !.n = -n], s, pos)
         /\ n > 0 => PosAfter(e, s, pos) = PosAfter(Q("inc", a), s, PosAfter([e EXCEPT !.n = n - 1], s, pos))
    /\ pos[a] < N => PosAfter(Q("dec", a), s, PosAfter(Q("inc", a), s, pos)) = pos
\* reverse iterators denote the element before their base
BaseLaw == \A a \in 5..8 : pos[a] \in 0..(N - 1) => ElemOf(a, pos[a], s) = PosAfter([Q("base", a) EXCEPT !.d = a - 4], s, pos)[a - 4] - 1
\* only writing changes elements, and only one
Writes == [][s' # s => last'.op = "write" /\ Cardinality({k \in DOMAIN s : s[k] # s'[k]}) = 1]_vars
Keeps == [][\A k \in Slots : pos'[k] # pos[k] => k \in {last'.a, last'.d}]_vars
Emit == IF Show THEN PrintT("@" \o ToJson([h |-> h, e |-> last'])) ELSE TRUE
=============================================================================
