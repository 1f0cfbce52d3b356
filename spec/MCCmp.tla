-------------------------------- MODULE MCCmp --------------------------------
(* All pairs (laws: all triples) of keys of one kind.                           *)
EXTENDS PtlOrder, Json
CONSTANTS Kind, Letters, MaxLen, Show
VARIABLES ks
vars == <<ks>>
Words(n) == UNION {[1..k -> 0..(Letters - 1)] : k \in 0..n}
Keys == CASE Kind = "sequence" -> Words(MaxLen)
          [] Kind = "optional" -> {<<>>} \cup {<<1>> \o w : w \in [1..1 -> 0..(Letters - 1)]}
          [] Kind = "optional text" -> {<<>>} \cup {<<1>> \o w : w \in Words(MaxLen)}
          [] Kind = "variant" -> {<<k>> \o w : k \in {0, 2, 3}, w \in [1..1 -> 0..(Letters - 1)]} \cup {<<1>> \o w : w \in Words(MaxLen)}
Init == ks = <<>>
Next == Len(ks) < 2 /\ \E k \in Keys : ks' = Append(ks, k)
Spec == Init /\ [][Next]_vars
E(x, y) == <<1, 2, Bool(x = y), Bool(x # y), Bool(SeqLess(x, y)), Bool(~SeqLess(y, x)), Bool(SeqLess(y, x)), Bool(~SeqLess(x, y))>>
\* exactly one of <, =, >; the other three follow; the empty word comes first; prefixes come before
Laws == Len(ks) = 2 =>
    LET x == ks[1] y == ks[2] IN
    /\ Cardinality({k \in 1..3 : <<SeqLess(x, y), x = y, SeqLess(y, x)>>[k]}) = 1
    /\ Compared(E(x, y), x, y)
    /\ (IsPrefixOf(x, y) /\ x # y) => SeqLess(x, y)
    /\ \A z \in Keys : (SeqLess(x, y) /\ SeqLess(y, z)) => SeqLess(x, z)
    /\ \A k \in 0..Min2(Len(x), Len(y)) : (Take(x, k) = Take(y, k)) => SeqLess(x, y) = SeqLess(SubSeq(x, k + 1, Len(x)), SubSeq(y, k + 1, Len(y)))
Emit == IF Show /\ Len(ks') = 2 THEN PrintT("@" \o ToJson([k |-> ks'])) ELSE TRUE
=============================================================================
