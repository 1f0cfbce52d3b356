-------------------------------- MODULE PtlView --------------------------------
(* Views: each of four views is null or a range (offset o, n elements) of one of *)
(* several memories.  Views 1, 2 may write, views 3, 4 are const (array_ref);    *)
(* string_ref's four views are all const.  A request e: view a, result or second *)
(* view d, memory m, offset i, count n, value v, source src.                     *)
EXTENDS PtlBase
Slots == 1..4
Null == [m |-> 0, o |-> 0, n |-> 0]
At(m, o, n) == [m |-> m, o |-> o, n |-> n]
Within(w, mem) == IF w.m = 0 THEN w = Null ELSE w.m \in DOMAIN mem /\ w.o >= 0 /\ w.n >= 0 /\ w.o + w.n <= Len(mem[w.m])
\* first and last, as memory and offset
ViewImage(w) == <<w.m, w.o, w.m, w.o + w.n>>
Content(w, mem) == IF w.m = 0 THEN <<>> ELSE Slice(mem[w.m], w.o, w.o + w.n)
Sub(w, i, n) == [w EXCEPT !.o = IF w.m = 0 THEN 0 ELSE w.o + i, !.n = n]
\* characters up to the first NUL (or the terminator after the last)
UpToNul(s, i) == LET ks == {k \in (i + 1)..Len(s) : s[k] = 0} IN IF ks = {} THEN Len(s) - i ELSE (CHOOSE k \in ks : \A q \in ks : k <= q) - 1 - i
Made(e, vw, mem) ==
    CASE e.src \in {"ptr2", "ptrn", "sv", "raw"} -> At(e.m, e.i, e.n)
      [] e.src \in {"range", "ctad", "rvalue"} -> At(e.m, 0, Len(mem[e.m]))
      [] e.src = "view" -> vw[e.d]
      [] e.src = "cstr" -> At(e.m, e.i, UpToNul(mem[e.m], e.i))
      [] OTHER -> Null
ViewsAfter(e, vw, mem) ==
    LET w == vw[e.a] IN
    CASE e.op = "make" -> [vw EXCEPT ![e.a] = Made(e, vw, mem)]
      [] e.op = "assign" -> [vw EXCEPT ![e.a] = vw[e.d]]
      [] e.op = "swap" -> [vw EXCEPT ![e.a] = vw[e.d], ![e.d] = w]
      [] e.op = "first" -> [vw EXCEPT ![e.d] = Sub(w, 0, e.n)]
      [] e.op = "last" -> [vw EXCEPT ![e.d] = Sub(w, w.n - e.n, e.n)]
      [] e.op = "sub" -> [vw EXCEPT ![e.d] = Sub(w, e.i, w.n - e.i)]
      [] e.op = "subn" -> [vw EXCEPT ![e.d] = Sub(w, e.i, e.n)]
      [] e.op = "prefix" -> [vw EXCEPT ![e.a] = Sub(w, e.n, w.n - e.n)]
      [] e.op = "suffix" -> [vw EXCEPT ![e.a] = Sub(w, 0, w.n - e.n)]
      [] OTHER -> vw
MemAfter(e, vw, mem) ==
    CASE e.op = "write" -> [mem EXCEPT ![vw[e.a].m] = [@ EXCEPT ![vw[e.a].o + e.i + 1] = e.v]]
      [] e.op = "poke" -> [mem EXCEPT ![e.m] = [@ EXCEPT ![e.i + 1] = e.v]]
      [] OTHER -> mem
Legal(e, vw, mem) ==
    LET w == vw[e.a] IN
    /\ e.op = "make" /\ e.src \in {"ptr2", "ptrn", "sv", "raw"} => e.i + e.n <= Len(mem[e.m])
    /\ e.op = "make" /\ e.src = "cstr" => e.i <= Len(mem[e.m])
    /\ e.op \in {"first", "last", "prefix", "suffix"} => e.n <= w.n
    /\ e.op \in {"sub", "subn"} => e.i <= w.n
    /\ e.op = "subn" => e.i + e.n <= w.n
    /\ e.op = "write" => w.m # 0 /\ e.i < w.n
    /\ e.op = "poke" => e.i < Len(mem[e.m])
    /\ e.op = "ends" => w.n > 0
\* only qualification conversions: a row is [to, to is const, from, from is const, can]
Binds(q) == q[5] = Bool(q[1] = q[3] /\ (q[4] = 1 => q[2] = 1))
=============================================================================
