-------------------------------- MODULE PtlIter --------------------------------
(* Iterators as positions.  State: the element sequence s and the positions of   *)
(* eight iterators (-1: not yet set): 1, 2 iterator; 3, 4 const_iterator; 5, 6   *)
(* reverse_iterator; 7, 8 const_reverse_iterator.  The position of a reverse     *)
(* iterator counts from the end.  A request e: iterator a, result iterator d,    *)
(* distance n, value v, access path via.                                         *)
EXTENDS PtlBase
Slots == 1..8
Reverse(a) == a >= 5
Mutable(a) == a \in {1, 2, 5, 6}
\* index (0-based) of the element denoted by position x of iterator a
ElemOf(a, x, s) == IF Reverse(a) THEN Len(s) - 1 - x ELSE x
FirstWith(s, v) == LET ks == {k \in DOMAIN s : s[k] = v} IN IF ks = {} THEN Len(s) ELSE (CHOOSE k \in ks : \A q \in ks : k <= q) - 1
Moves == {"get", "inc", "pinc", "dec", "pdec", "add", "sub", "plus", "nplus", "minus", "conv", "copy", "swap", "base", "algo"}
PosAfter(e, s, pos) ==
    LET a == e.a
        x == pos[a]
        To(d, y) == [pos EXCEPT ![d] = y]
    IN CASE e.op = "get" -> To(a, IF e.n = 0 THEN 0 ELSE Len(s))
         [] e.op \in {"inc", "pinc"} -> To(a, x + 1)
         [] e.op \in {"dec", "pdec"} -> To(a, x - 1)
         [] e.op = "add" -> To(a, x + e.n)
         [] e.op = "sub" -> To(a, x - e.n)
         [] e.op \in {"plus", "nplus"} -> To(e.d, x + e.n)
         [] e.op = "minus" -> To(e.d, x - e.n)
         [] e.op \in {"conv", "copy"} -> To(e.d, x)
         [] e.op = "swap" -> [pos EXCEPT ![a] = pos[e.d], ![e.d] = x]
         [] e.op = "base" -> To(e.d, Len(s) - x)
         [] e.op = "algo" -> To(a, FirstWith(s, e.v))
         [] OTHER -> pos
ElemsAfter(e, s, pos) == IF e.op = "write" THEN [s EXCEPT ![ElemOf(e.a, pos[e.a] + e.n, s) + 1] = e.v] ELSE s
\* returned value; -7: nothing is returned
Returns(e, s, pos) ==
    CASE e.op \in {"pinc", "pdec"} -> pos[e.a]
      [] e.op = "read" -> s[ElemOf(e.a, pos[e.a] + e.n, s) + 1]
      [] e.op = "algo" -> FirstWith(s, e.v) * 1000 + e.n
      [] OTHER -> -7
\* only legal requests are made: no iterator leaves [0, size]
Legal(e, s, pos) ==
    /\ e.op # "get" => pos[e.a] # -1
    /\ e.op \in Moves => \A k \in Slots : PosAfter(e, s, pos)[k] \in -1..Len(s)
    /\ e.op \in {"read", "write"} => ElemOf(e.a, pos[e.a] + e.n, s) \in 0..(Len(s) - 1)
    /\ e.op = "write" => Mutable(e.a)
\* comparing iterators of the same direction compares positions
Compared(q, pos) ==
    LET x == pos[q[1]]
        y == pos[q[2]]
    IN /\ q[3] = Bool(x = y) /\ q[4] = Bool(x # y)
       /\ q[5] = Bool(x < y) /\ q[6] = Bool(x <= y) /\ q[7] = Bool(x > y) /\ q[8] = Bool(x >= y)
       /\ q[9] = x - y
=============================================================================
