-------------------------------- MODULE MCHuge --------------------------------
(* The specification of huge containers on small ones, next to sequences: the    *)
(* sparse map with positions of limbs does exactly what a sequence does.  Base   *)
(* moves all positions to where limbs overflow.                                  *)
EXTENDS PtlHuge
CONSTANTS Room, Which
Base == <<Zero, <<65534, 0, 0, 0>>, <<65534, 65535, 0, 0>>, <<65534, 65535, 65535, 0>>>>[Which]
VARIABLES s, n, cells, last
vars == <<s, n, cells, last>>
At(k) == Add(Base, Num(k))
Values == 0..1
Q(op, i, c, v) == [op |-> op, i |-> At(i), n |-> Num(c), v |-> v, fresh |-> v]
Init == s = <<>> /\ n = Base /\ cells = [p \in {} |-> 0] /\ last = ""
Do(e, s1) == s' = s1 /\ n' = SizeAfter(e, n) /\ cells' = CellsAfter(e, n, cells) /\ last' = e.op /\ Legal(e, n, At(Room))
Next ==
    \/ \E v \in Values : Len(s) < Room /\ Do(Q("push", 0, 0, v), Append(s, v))
    \/ Len(s) > 0 /\ Do(Q("pop", 0, 0, 0), SubSeq(s, 1, Len(s) - 1))
    \/ \E i \in 0..(Len(s) - 1), v \in Values : Do(Q("write", i, 0, v), [s EXCEPT ![i + 1] = v])
    \/ \E i \in 0..Len(s), v \in Values : \E c \in 0..(Room - Len(s)) : Do(Q("insert", i, c, v), Splice(s, i, i, [k \in 1..c |-> v]))
    \/ \E i \in 0..Len(s) : \E c \in 0..(Len(s) - i) : Do(Q("erase", i, c, 0), Splice(s, i, i + c, <<>>))
    \/ \E c \in 0..Room, v \in Values : Do([Q("resize", 0, 0, v) EXCEPT !.n = At(c)], IF c <= Len(s) THEN SubSeq(s, 1, c) ELSE s \o [k \in 1..(c - Len(s)) |-> v])
Spec == Init /\ [][Next]_vars
Same == n = At(Len(s)) /\ \A k \in 1..Len(s) : Value(cells, At(k - 1)) = s[k]
Inside == \A p \in DOMAIN cells : BigLess(p, n)
Laws == \A a, b \in 0..Room : /\ Diff(At(a), At(b)) = IF a >= b THEN <<0, Num(a - b)>> ELSE <<1, Num(b - a)>>
                              /\ Sub(Add(At(a), Num(b)), Num(b)) = At(a)
                              /\ BigLess(At(a), At(b)) = (a < b)
                              /\ LET h == Half(At(a)) IN Sub(At(a), Add(h, h)) \in {Zero, Num(1)}
=============================================================================
