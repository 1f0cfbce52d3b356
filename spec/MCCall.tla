-------------------------------- MODULE MCCall --------------------------------
(* All requests in all states of two slots, for every kind of signature.         *)
EXTENDS PtlCall, Json
CONSTANTS Show
VARIABLES sig, to, cells, n, h, last
vars == <<sig, to, cells, n, h, last>>
view == <<sig, to, cells>>
Signatures == {[const |-> c, nothrow |-> x, arg |-> a, res |-> r] : c \in 0..1, x \in 0..1, a \in {0, 1, 6, 7}, r \in 0..2}
Used == 1..2
Base == [op |-> "", a |-> 1, d |-> 1, t |-> 1, v |-> 0, cst |-> 0, w |-> 0]
Q(op, a) == [Base EXCEPT !.op = op, !.a = a]
Requests ==
    {[Q("bind", a) EXCEPT !.t = t, !.cst = c] : a \in Used, t \in 1..7, c \in 0..1}
    \cup {[Q(k, a) EXCEPT !.d = d] : k \in {"assign", "copy", "swap"}, a \in Used, d \in Used}
    \cup {[Q(k, a) EXCEPT !.v = v, !.w = w] : k \in {"call", "temp"}, a \in Used, v \in {5, 666}, w \in 0..1}
Legal(e) == e.op = "bind" => Fits(e.t, e.cst, sig) /\ (e.t = 7 => e.cst = 1) /\ (e.cst = 1 => e.t \in {4, 7})
Init == sig \in Signatures /\ to = [k \in Slots |-> To(2, 0)] /\ cells = <<11, 12, 13, 14>> /\ n = <<0, 0, 0, 0, 0>> /\ h = <<>> /\ last = Base
Next == \E e \in Requests :
    /\ Legal(e)
    /\ to' = ToAfter(e, to) /\ cells' = CellsAfter(e, to, cells, sig) /\ n' = CountsAfter(e, to, n)
    /\ h' = Append(h, e) /\ last' = e /\ UNCHANGED sig
Spec == Init /\ [][Next]_vars
Few == Cardinality({k \in 1..4 : cells[k] # 10 + k}) <= 1
\* a const signature never calls the non-const overload, nor does a reference to a const functor
ConstOnly == \A a \in Used : /\ sig.const = 1 => Overload(to[a], sig) # 0
                             /\ to[a].c = 1 => Overload(to[a], sig) # 0
\* copying shares the target, calling rebinds nothing, only calls reach targets
Shares == [][last'.op \in {"assign", "copy"} => to'[last'.a] = to[last'.d]]_vars
Keeps == [][last'.op \in {"call", "temp"} => to' = to]_vars
Once == [][n' # n => last'.op = "call" /\ Cardinality({k \in 1..5 : n'[k] # n[k]}) = 1]_vars
Emit == IF Show THEN PrintT("@" \o ToJson([h |-> h, e |-> last', sig |-> <<sig.const, sig.nothrow, sig.arg, sig.res>>])) ELSE TRUE
=============================================================================
