-------------------------------- MODULE MCAgg --------------------------------
(* All requests in all states of two objects of N elements.                      *)
EXTENDS PtlAgg, Json
CONSTANTS N, Show
VARIABLES o, h, last
vars == <<o, h, last>>
view == o
Values == 0..2
Used == 1..2
Base == [op |-> "", a |-> 1, b |-> 1, i |-> 0, v |-> 0, vals |-> <<>>, al |-> 0]
Q(op, a) == [Base EXCEPT !.op = op, !.a = a]
Requests ==
    {[Q("create", a) EXCEPT !.vals = s] : a \in Used, s \in [1..N -> Values]}
    \cup {[Q("part", a) EXCEPT !.vals = s] : a \in Used, s \in UNION {[1..k -> Values] : k \in 0..(IF N > 2 THEN 2 ELSE N - 1)}}
    \cup {Q("default", a) : a \in Used}
    \cup {[Q(k, a) EXCEPT !.b = b] : k \in {"copy", "mvcopy", "assign", "mvassign", "swap"}, a \in Used, b \in Used}
    \cup {[Q(k, a) EXCEPT !.i = i, !.v = v] : k \in {"write", "bind"}, a \in Used, i \in 0..(N - 1), v \in Values}
    \cup {[Q("fill", a) EXCEPT !.v = v] : a \in Used, v \in Values}
    \cup {[Q("fill", a) EXCEPT !.i = i, !.al = 1] : a \in Used, i \in 0..(N - 1)}
    \cup {[Q(k, a) EXCEPT !.i = i] : k \in {"read", "take"}, a \in Used, i \in 0..(N - 1)}
Init == o = [k \in Slots |-> [i \in 1..N |-> IF k = 3 THEN 0 ELSE k - 1]] /\ h = <<>> /\ last = Base
Next == \E e \in Requests : o' = AggAfter(e, o) /\ h' = Append(h, e) /\ last' = e
Spec == Init /\ [][Next]_vars
Sized == \A k \in Slots : Len(o[k]) = N
\* the order is total, and equality is being neither less
Total == \A x \in Used, y \in Used : Cardinality({k \in 1..3 : <<SeqLess(o[x], o[y]), o[x] = o[y], SeqLess(o[y], o[x])>>[k]}) = 1
\* the image determines the value and has the size of the elements
Injective == \A x \in Used, y \in Used, arr \in 0..1 : LET w == [k \in 1..N |-> k] IN N > 0 => (Image(o[x], w, arr) = Image(o[y], w, arr)) = (o[x] = o[y]) /\ Len(Image(o[x], w, arr)) = (N * (N + 1)) \div 2
Frames == [][\A k \in Slots : o'[k] # o[k] => k \in {last'.a} \/ (last'.op = "swap" /\ k = last'.b)]_vars
OneElement == [][last'.op \in {"write", "bind"} => \A i \in 1..N : o'[last'.a][i] # o[last'.a][i] => i = last'.i + 1]_vars
Swapped == [][last'.op = "swap" => AggAfter(last', o') = o]_vars
Emit == IF Show THEN PrintT("@" \o ToJson([h |-> h, e |-> last'])) ELSE TRUE
=============================================================================
