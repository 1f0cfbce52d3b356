------------------------------ MODULE PtlOrder ------------------------------
(* The order of the abstract values.  Every value has a key: the characters of *)
(* a text, the elements of a vector, array or tuple, <<>> for an empty optional *)
(* and <<1>> followed by the key of its value for an engaged one, the index    *)
(* followed by the key of the value for a variant.  Keys are ordered           *)
(* lexicographically.                                                          *)
EXTENDS PtlBase
\* the first position in lo..hi at which two sequences differ, knowing that there is one (by bisection: the texts are long)
RECURSIVE FirstDiff(_, _, _, _)
FirstDiff(x, y, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi) \div 2 IN
                           IF SubSeq(x, lo, m) # SubSeq(y, lo, m) THEN FirstDiff(x, y, lo, m) ELSE FirstDiff(x, y, m + 1, hi)
SeqLess(x, y) == LET n == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y) IN
                 IF SubSeq(x, 1, n) = SubSeq(y, 1, n) THEN Len(x) < Len(y)
                 ELSE LET d == FirstDiff(x, y, 1, n) IN x[d] < y[d]
\* q: objects 1 and 2, then the answers of ==, !=, <, <=, >, >=
Compared(q, x, y) == /\ q[3] = Bool(x = y) /\ q[4] = Bool(x # y)
                     /\ q[5] = Bool(SeqLess(x, y)) /\ q[6] = Bool(~SeqLess(y, x))
                     /\ q[7] = Bool(SeqLess(y, x)) /\ q[8] = Bool(~SeqLess(x, y))
\* q[9]: are the hashes equal (1), not (0), or is there none (-1)?
Hashed(q, x, y) == x = y => q[9] # 0
=============================================================================
