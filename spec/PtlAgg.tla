-------------------------------- MODULE PtlAgg --------------------------------
(* array and tuple: three objects of n elements each.  A request e: object a,    *)
(* second object b, element i, value v, values vals, al: the value is element i. *)
EXTENDS PtlBase, PtlOrder, PtlLayout
Slots == 1..3
AggAfter(e, o) ==
    LET x == o[e.a] IN
    CASE e.op \in {"create", "foreign"} -> [o EXCEPT ![e.a] = e.vals]
      [] e.op = "part" -> [o EXCEPT ![e.a] = [k \in DOMAIN x |-> IF k <= Len(e.vals) THEN e.vals[k] ELSE 0]]   \* fewer values than elements
      [] e.op = "default" -> [o EXCEPT ![e.a] = [k \in DOMAIN x |-> 0]]
      [] e.op \in {"copy", "mvcopy", "assign", "mvassign"} -> [o EXCEPT ![e.a] = o[e.b]]
      [] e.op = "swap" -> [o EXCEPT ![e.a] = o[e.b], ![e.b] = x]
      [] e.op \in {"write", "bind"} -> [o EXCEPT ![e.a] = [x EXCEPT ![e.i + 1] = e.v]]
      [] e.op = "fill" -> [o EXCEPT ![e.a] = [k \in DOMAIN x |-> IF e.al = 1 THEN x[e.i + 1] ELSE e.v]]
      [] OTHER -> o
\* elements whose value is unspecified afterwards: moved from
AggLoose(e) == CASE e.op \in {"mvcopy", "mvassign"} /\ e.a # e.b -> {e.b}
                 [] e.op = "take" -> {e.a}
                 [] OTHER -> {}
AggAnswer(e, o) ==
    LET x == o[e.a] IN
    CASE e.op \in {"read", "take"} -> <<x[e.i + 1], "">>
      [] e.op \in {"assign", "mvassign"} -> <<1, "">>
      [] e.op = "ends" -> <<x[1] * 1000 + x[Len(x)], "">>
      [] e.op = "at" -> IF BigLess(e.idx, BigOf(Len(x))) THEN <<x[e.idx[1] + 1], "">> ELSE <<-7, "range">>
      [] OTHER -> <<-7, "">>
\* byte images: the elements one after the other, of an array from the first, of a tuple from the last
RECURSIVE Packed(_, _)
Packed(x, w) == IF x = <<>> THEN <<>> ELSE Bytes(Head(x), Head(w)) \o Packed(Tail(x), Tail(w))
Image(x, w, arr) == CASE arr = 1 /\ x = <<>> -> [k \in 1..8 |-> 0]   \* a null pointer
                      [] arr = 0 /\ x = <<>> -> <<>>                \* one byte of no meaning
                      [] arr = 1 -> Packed(x, w)
                      [] OTHER -> Packed(Rev(x), Rev(w))
=============================================================================
