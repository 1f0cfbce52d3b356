------------------------------- MODULE MCLayout -------------------------------
(* The encodings themselves, for all small values: what is written by one side   *)
(* is read back by the other, different values have different images, and inline  *)
(* and heap representations cannot be confused.                                   *)
EXTENDS PtlLayout, PtlAgg
CONSTANT Size
VARIABLES kind, x, im
Texts == UNION {[1..k -> {0, 97, 255}] : k \in 0..Size}
Inline(c) == [im |-> Zeros(8) \o <<Len(c)>> \o c \o Zeros(23 - Len(c)), da |-> <<>>, off |-> 9, fc |-> c]
Heap(c, cap) == [im |-> <<1, 1, 1, 1, 1, 1, 1, 1>> \o Zeros(8) \o Bytes(cap, 8) \o Bytes(Len(c), 8), da |-> Zeros(8), off |-> -1, fc |-> c]
ReadSize(r) == IF StringIsInline(r.im) THEN r.im[9] ELSE Number(SubSeq(Word(r.im, 3), 1, 3))
ReadText(r) == IF StringIsInline(r.im) THEN SubSeq(r.im, 10, 9 + r.im[9]) ELSE r.fc
ReadBits(b) == {i \in 0..(8 * Len(b) - 1) : (b[i \div 8 + 1] \div (2 ^ (i % 8))) % 2 = 1}
Kinds == <<"char", "int", "pad", "big">>
SumOf(a, v) == LET n == Largest(Kinds)
                   b == ValueBytes(Kinds[a], v) IN b \o [k \in 1..(n - Len(b)) |-> 119] \o <<a - 1>>
Init ==
    \/ kind = "inline" /\ \E c \in Texts : x = c /\ im = Inline(c)
    \/ kind = "heap" /\ \E c \in Texts : \E cap \in 23..26 : x = c /\ im = Heap(c, cap)
    \/ kind = "number" /\ x \in 0..5000 /\ im = Bytes(x, 4)
    \/ kind = "bits" /\ \E n \in 0..11 : \E S \in SUBSET (0..(n - 1)) : x = <<n, S>> /\ im = BitsImage(S, n)
    \/ kind = "sum" /\ \E a \in DOMAIN Kinds : \E v \in {0, 1, 127} : x = <<a, v>> /\ im = SumOf(a, v)
    \/ kind = "tuple" /\ x \in [1..3 -> {0, 1, 255}] /\ im = Image(x, <<1, 4, 2>>, 0)
Next == UNCHANGED <<kind, x, im>>
Spec == Init /\ [][Next]_<<kind, x, im>>
\* what the other side reads is the value
RoundTrip ==
    CASE kind \in {"inline", "heap"} -> ReadText(im) = x /\ ReadSize(im) = Len(x) /\ (kind = "inline" => StringImage(im, x, 22, Len(x)))
      [] kind = "number" -> Number(im) = x
      [] kind = "bits" -> ReadBits(im) = x[2] /\ Len(im) = BitsBytes(x[1])
      [] kind = "sum" -> SumImage(im, Kinds, FALSE, x[1], x[2], 0)
      [] kind = "tuple" -> Len(im) = 7 /\ <<im[7], Number(SubSeq(im, 3, 6)), Number(SubSeq(im, 1, 2))>> = x
\* an image denotes one value only
Injective ==
    CASE kind = "inline" -> \A c \in Texts : StringImage(im, c, 22, Len(c)) /\ im.fc = c => c = x
      [] kind = "bits" -> \A S \in SUBSET (0..(x[1] - 1)) : BitsImage(S, x[1]) = im => S = x[2]
      [] kind = "sum" -> \A a \in DOMAIN Kinds : \A v \in {0, 1, 127} : SumImage(im, Kinds, FALSE, a, v, 0) => <<a, v>> = x
      [] kind = "tuple" -> \A y \in [1..3 -> {0, 1, 255}] : Image(y, <<1, 4, 2>>, 0) = im => y = x
      [] OTHER -> TRUE
\* inline and heap strings are told apart by the first word alone
Separate == kind \in {"inline", "heap"} => (StringIsInline(im.im) <=> kind = "inline")
=============================================================================
