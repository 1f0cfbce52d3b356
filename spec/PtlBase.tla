------------------------------- MODULE PtlBase -------------------------------
(* Operators shared by all specifications: sequence surgery, 64 bit numbers    *)
(* as limbs (TLC integers have 32 bits) and small conveniences.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Slice(c, i, j)     == SubSeq(c, i + 1, j)                \* elements i .. j-1 (0-based)
Splice(c, i, j, a) == SubSeq(c, 1, i) \o a \o SubSeq(c, j + 1, Len(c))
Take(c, n)         == SubSeq(c, 1, n)
Rev(s)             == LET n == Len(s) IN [x \in 1..n |-> s[n + 1 - x]]
Rep(s, k)          == IF k = 1 THEN s
                      ELSE IF Len(s) = 1 THEN [x \in 1..k |-> s[1]]
                      ELSE [x \in 1..(k * Len(s)) |-> s[((x - 1) % Len(s)) + 1]]
Range(s)           == {s[x] : x \in DOMAIN s}
Max2(a, b)         == IF a > b THEN a ELSE b
Min2(a, b)         == IF a < b THEN a ELSE b
Bool(b)            == IF b THEN 1 ELSE 0
IsPrefixOf(a, b)   == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* number of k such that 2^k <= n
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

(* unsigned numbers as little-endian sequences of 16 bit limbs *)
Limb == 65536
RECURSIVE BigCmpAt(_, _, _)
BigAt(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
BigCmpAt(a, b, k) == IF k = 0 THEN 0
                     ELSE IF BigAt(a, k) < BigAt(b, k) THEN -1
                     ELSE IF BigAt(a, k) > BigAt(b, k) THEN 1
                     ELSE BigCmpAt(a, b, k - 1)
BigCmp(a, b) == BigCmpAt(a, b, Max2(Len(a), Len(b)))
BigLess(a, b) == BigCmp(a, b) < 0
BigOf(n) == <<n % Limb, n \div Limb>>
RECURSIVE BigAddAt(_, _, _, _)
BigAddAt(a, b, k, carry) ==
    IF k > Max2(Len(a), Len(b)) THEN IF carry = 0 THEN <<>> ELSE <<carry>>
    ELSE LET s == BigAt(a, k) + BigAt(b, k) + carry
         IN <<s % Limb>> \o BigAddAt(a, b, k + 1, s \div Limb)
BigAdd(a, b) == BigAddAt(a, b, 1, 0)
=============================================================================
