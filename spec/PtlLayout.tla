------------------------------ MODULE PtlLayout ------------------------------
(* The frozen binary representation: byte images as sequences of 0..255.        *)
EXTENDS PtlBase
Zeros(n) == [x \in 1..n |-> 0]
\* little endian, two's complement, in w bytes
RECURSIVE Bytes(_, _), Number(_)
Bytes(v, w) == IF w = 0 THEN <<>> ELSE <<v % 256>> \o Bytes(v \div 256, w - 1)
Number(b) == IF b = <<>> THEN 0 ELSE Head(b) + 256 * Number(Tail(b))
Word(im, k) == SubSeq(im, 8 * k + 1, 8 * k + 8)      \* the k-th machine word
IsNull(w) == w = Zeros(8)

\* string: a null word, the size in one byte, the text, NUL - or the deallocator, pointer, capacity, size.
\* A representation is [im, da, fc]: the image, the address of the text and what is stored there.
SsoSize == 22
StringIsInline(im) == IsNull(Word(im, 0))
StringImage(x, c, cap, n) ==
    /\ Len(x.im) = 32
    /\ IF StringIsInline(x.im)
       THEN n <= SsoSize /\ x.im[9] = n /\ SubSeq(x.im, 10, 9 + n) = c /\ x.im[10 + n] = 0 /\ x.off = 9
       ELSE Word(x.im, 1) = x.da /\ Word(x.im, 2) = Bytes(cap, 8) /\ Word(x.im, 3) = Bytes(n, 8) /\ x.off = -1
    /\ x.fc = c
\* vector: deallocator, pointer, capacity, size; all null without a buffer
VectorImage(x, c, cap, n) ==
    /\ Len(x.im) = 32
    /\ Word(x.im, 1) = x.da /\ Word(x.im, 2) = Bytes(cap, 8) /\ Word(x.im, 3) = Bytes(n, 8)
    /\ cap = 0 <=> IsNull(Word(x.im, 0))
    /\ cap = 0 => x.im = Zeros(32)
    /\ x.fc = c

\* values by kind: an int, a character, six ints, a long 7 followed by an int (and padding), a string
SizeOf(k) == CASE k = "int" -> 4 [] k = "char" -> 1 [] k = "big" -> 24 [] k = "pad" -> 16 [] k = "text" -> 32
ValueBytes(k, v) == CASE k = "int" -> Bytes(v, 4) [] k = "char" -> Bytes(v, 1) [] k = "pad" -> Bytes(7, 8) \o Bytes(v, 4)
                      [] k = "big" -> LET b == Bytes(v, 4) IN b \o b \o b \o b \o b \o b
                      [] OTHER -> <<>>
Largest(ks) == LET s == {SizeOf(ks[k]) : k \in DOMAIN ks} IN CHOOSE x \in s : \A y \in s : y <= x
\* optional and variant: the value from the first byte, then (packed) one byte: engaged, or the index of the alternative
SumImage(im, ks, isopt, a, v, fv) ==
    /\ Len(im) = Largest(ks) + 1
    /\ im[Len(im)] = IF isopt THEN a ELSE a - 1
    /\ IF isopt /\ a = 0 THEN TRUE
       ELSE LET b == ValueBytes(ks[a], v) IN SubSeq(im, 1, Len(b)) = b /\ (ks[a] = "text" => fv = v)

\* bitset: bit i in bit i%8 of byte i/8, padding zero; a bitset<0> occupies one byte
BitsBytes(N) == IF N = 0 THEN 1 ELSE (N + 7) \div 8
ByteOf(S, k) == LET B(x) == IF 8 * k + x \in S THEN 2 ^ x ELSE 0 IN B(0) + B(1) + B(2) + B(3) + B(4) + B(5) + B(6) + B(7)
BitsImage(S, N) == [k \in 1..BitsBytes(N) |-> ByteOf(S, k - 1)]
=============================================================================
