-------------------------------- MODULE PtlHuge --------------------------------
(* Views and containers of more than 2^32 elements.  Positions and sizes are     *)
(* numbers of four 16 bit limbs.  A memory of room elements is mostly zero:      *)
(* cells maps the positions that were written to their values.  Two views        *)
(* <<offset, size>> (kind "view"), or one container of n elements at the start   *)
(* of the memory, with capacity room (kind "cont").                              *)
EXTENDS PtlBase
Norm(a) == [k \in 1..4 |-> BigAt(a, k)]
Num(n) == Norm(BigOf(n))
Zero == Num(0)
Add(a, b) == Norm(BigAdd(a, b))
RECURSIVE BigSubAt(_, _, _, _)
BigSubAt(a, b, k, borrow) ==
    IF k > 4 THEN <<>>
    ELSE LET s == BigAt(a, k) - BigAt(b, k) - borrow
         IN <<IF s < 0 THEN s + Limb ELSE s>> \o BigSubAt(a, b, k + 1, IF s < 0 THEN 1 ELSE 0)
Sub(a, b) == BigSubAt(a, b, 1, 0)          \* a >= b
Leq(a, b) == ~BigLess(b, a)
\* signed difference: <<1 if negative, magnitude>>
Diff(a, b) == IF Leq(b, a) THEN <<0, Sub(a, b)>> ELSE <<1, Sub(b, a)>>
Value(cells, p) == IF p \in DOMAIN cells THEN cells[p] ELSE 0
Put(cells, p, v) == [q \in DOMAIN cells \cup {p} |-> IF q = p THEN v ELSE cells[q]]
Less(cells, p) == {q \in DOMAIN cells : BigLess(q, p)}
NoView == <<Zero, Zero>>
\* ---- views
RangesAfter(e, vw) ==
    LET w == vw[e.a] IN
    CASE e.op = "make" -> [vw EXCEPT ![e.a] = <<e.i, e.n>>]
      [] e.op = "assign" -> [vw EXCEPT ![e.a] = vw[e.b]]
      [] e.op = "first" -> [vw EXCEPT ![e.b] = <<w[1], e.n>>]
      [] e.op = "last" -> [vw EXCEPT ![e.b] = <<Add(w[1], Sub(w[2], e.n)), e.n>>]
      [] e.op = "prefix" -> [vw EXCEPT ![e.b] = <<Add(w[1], e.n), Sub(w[2], e.n)>>]
      [] e.op = "suffix" -> [vw EXCEPT ![e.b] = <<w[1], Sub(w[2], e.n)>>]
      [] e.op = "sub" -> [vw EXCEPT ![e.b] = <<Add(w[1], e.i), e.n>>]
      [] OTHER -> vw
RangesLegal(e, vw, room) ==
    /\ e.op = "make" => Leq(Add(e.i, e.n), room)
    /\ e.op \in {"first", "last", "prefix", "suffix"} => Leq(e.n, vw[e.a][2])
    /\ e.op = "sub" => Leq(Add(e.i, e.n), vw[e.a][2])
\* ---- one container
SizeAfter(e, n) ==
    CASE e.op \in {"raw", "resize"} -> e.n
      [] e.op = "push" -> Add(n, Num(1))
      [] e.op = "pop" -> Sub(n, Num(1))
      [] e.op = "insert" -> Add(n, e.n)
      [] e.op = "erase" -> Sub(n, e.n)
      [] OTHER -> n
\* n: the size before
CellsAfter(e, n, cells) ==
    LET Keep(s) == [q \in s |-> cells[q]]
        Filled(from, count, v) == [q \in {Add(from, Num(k)) : k \in 0..(count - 1)} |-> v]
        Small(x) == x[1] + Limb * x[2]
    IN CASE e.op = "raw" -> Keep({})
         [] e.op = "write" -> Put(cells, e.i, e.v)
         [] e.op = "push" -> Put(cells, n, e.v)
         [] e.op = "pop" -> Keep(Less(cells, Sub(n, Num(1))))
         [] e.op = "resize" -> IF Leq(e.n, n) THEN Keep(Less(cells, e.n)) ELSE Keep(DOMAIN cells) @@ Filled(n, Small(Sub(e.n, n)), e.fresh)
         [] e.op = "insert" -> LET tail == DOMAIN cells \ Less(cells, e.i)
                                   moved == [q \in {Add(p, e.n) : p \in tail} |-> cells[Sub(q, e.n)]]
                               IN Keep(Less(cells, e.i)) @@ moved @@ Filled(e.i, Small(e.n), e.v)
         [] e.op = "erase" -> LET tail == DOMAIN cells \ Less(cells, Add(e.i, e.n))
                              IN Keep(Less(cells, e.i)) @@ [q \in {Sub(p, e.n) : p \in tail} |-> cells[Add(q, e.n)]]
         [] OTHER -> cells
Legal(e, n, room) ==
    /\ e.op = "raw" => Leq(e.n, room)
    /\ e.op = "push" => BigLess(n, room)
    /\ e.op = "pop" => n # Zero
    /\ e.op = "resize" => Leq(e.n, room)
    /\ e.op = "insert" => Leq(e.i, n) /\ Leq(Add(n, e.n), room)
    /\ e.op = "erase" => Leq(Add(e.i, e.n), n)
\* ---- access: to a range of n elements from position o
ElemOf(rev, x, n) == IF rev = 1 THEN Sub(Sub(n, x), Num(1)) ELSE x
Walked(e, o, n) ==
    /\ e.di = <<0, e.p>> /\ e.dk = <<0, e.q>> /\ e.ki = Diff(e.q, e.p) /\ e.ik = Diff(e.p, e.q) /\ e.all = <<0, n>>
    /\ e.cmp = <<Bool(e.p = e.q), Bool(e.p # e.q), Bool(BigLess(e.p, e.q)), Bool(Leq(e.p, e.q)), Bool(BigLess(e.q, e.p)), Bool(Leq(e.q, e.p))>>
    /\ LET here == Add(o, ElemOf(e.rev, e.q, n))
           next == Add(o, ElemOf(e.rev, Add(e.q, Num(1)), n))
       IN e.el = IF ~BigLess(e.q, n) THEN <<>> ELSE IF ~BigLess(Add(e.q, Num(1)), n) THEN <<here, here, here>> ELSE <<here, here, here, next, here>>
Half(n) == LET h == [k \in 1..4 |-> n[k] \div 2 + (IF k < 4 /\ n[k + 1] % 2 = 1 THEN Limb \div 2 ELSE 0)] IN h
Ends(e, o, n) == e.el = <<o, Add(o, Sub(n, Num(1))), Add(o, Half(n))>>
Accessed(e, o, n, cells) == IF BigLess(e.idx, n) THEN e.x = "" /\ e.rv = Value(cells, Add(o, e.idx)) /\ e.w = Add(o, e.idx) ELSE e.x = "range"
=============================================================================
