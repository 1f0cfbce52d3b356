------------------------------- MODULE StepBits -------------------------------
(* The bytes of a ptl::bitset: bit k lives in byte k / B (of B bits here, 8 in  *)
(* the library), the unused bits of the last byte are kept zero.  Shifting goes *)
(* bit by bit through all bytes, handing the carry from byte to byte.  Checked: *)
(* every operation on the bytes has the effect PtlBits gives it on the set of   *)
(* bits, the unused bits stay zero, the queries (count, any, all) that look at  *)
(* whole bytes answer what they must, and that they do not if any of the places *)
(* that clear the unused bits, hand on the carry or limit the count is wrong.   *)
EXTENDS PtlBits
CONSTANTS N, B, Bug
VARIABLES v, pc, j, left, want
vars == <<v, pc, j, left, want>>
NB == (N + B - 1) \div B
Byte == 0..(2 ^ B - 1)
Full == 2 ^ B - 1
BitOf(x, k) == (x \div 2 ^ k) % 2
Bits(w) == {k \in 0..(NB * B - 1) : BitOf(w[k \div B], k % B) = 1}
Bytes(S) == [x \in 0..(NB - 1) |-> FoldLeft(+, 0, [k \in 1..B |-> IF x * B + k - 1 \in S THEN 2 ^ (k - 1) ELSE 0])]
Mask == IF N % B = 0 THEN (IF Bug = "mask" THEN 0 ELSE Full) ELSE 2 ^ (N % B) - 1
And(x, y) == FoldLeft(+, 0, [k \in 1..B |-> BitOf(x, k - 1) * BitOf(y, k - 1) * 2 ^ (k - 1)])
Clear(w) == [w EXCEPT ![NB - 1] = And(@, Mask)]
Each(w, f(_)) == [x \in DOMAIN w |-> f(w[x])]

Init == /\ v = Bytes({}) /\ pc = "idle" /\ j = 0 /\ left = 0 /\ want = {}
Idle == pc = "idle"
Whole(w, s) == v' = w /\ want' = s /\ UNCHANGED <<pc, j, left>>
SetAll == Idle /\ LET w == [x \in 0..(NB - 1) |-> Full] IN Whole(IF Bug = "set" THEN w ELSE Clear(w), All(N))
FlipAll == Idle /\ LET w == [x \in 0..(NB - 1) |-> Full - v[x]] IN Whole(IF Bug = "flip" THEN w ELSE Clear(w), All(N) \ want)
SetOne == Idle /\ \E k \in All(N) : Whole(IF BitOf(v[k \div B], k % B) = 1 THEN v ELSE [v EXCEPT ![k \div B] = @ + 2 ^ (k % B)], want \cup {k})
ResetOne == Idle /\ \E k \in All(N) : Whole(IF BitOf(v[k \div B], k % B) = 0 THEN v ELSE [v EXCEPT ![k \div B] = @ - 2 ^ (k % B)], want \ {k})
FlipOne == Idle /\ \E k \in All(N) : Whole([v EXCEPT ![k \div B] = IF BitOf(@, k % B) = 1 THEN @ - 2 ^ (k % B) ELSE @ + 2 ^ (k % B)], Xor(want, {k}))
Limit(n) == IF Bug = "limit" THEN Min2(n, N) - 1 ELSE Min2(n, N)
Shift == Idle /\ \E n \in 1..(N + 2) : \E d \in {"left", "right"} :
            /\ left' = Limit(n) /\ pc' = d /\ j' = IF d = "left" THEN NB - 1 ELSE 1
            /\ v' = IF d = "right" /\ Limit(n) > 0 THEN [v EXCEPT ![0] = @ \div 2] ELSE v
            /\ want' = IF d = "left" THEN Left(want, n, N) ELSE Right(want, n)
\* one step handles byte j
StepLeft == /\ pc = "left"
            /\ IF left = 0 THEN v' = v /\ pc' = "idle" /\ j' = 0 /\ left' = 0
               ELSE IF j > 0 THEN /\ v' = [v EXCEPT ![j] = ((@ * 2) % (2 ^ B)) + (IF Bug = "carry" THEN 0 ELSE BitOf(v[j - 1], B - 1))]
                                  /\ j' = j - 1 /\ UNCHANGED <<pc, left>>
               ELSE /\ LET w == [v EXCEPT ![0] = (@ * 2) % (2 ^ B)] IN v' = IF Bug = "shift" THEN w ELSE Clear(w)
                    /\ j' = NB - 1 /\ left' = left - 1 /\ UNCHANGED pc
            /\ UNCHANGED want
StepRight == /\ pc = "right"
             /\ IF left = 0 THEN v' = v /\ pc' = "idle" /\ j' = 0 /\ left' = 0
                ELSE IF j < NB
                THEN LET low == BitOf(v[j], 0) IN
                     /\ v' = IF Bug = "carry" THEN [v EXCEPT ![j] = @ \div 2]
                             ELSE [[v EXCEPT ![j - 1] = @ + low * 2 ^ (B - 1)] EXCEPT ![j] = @ \div 2]
                     /\ j' = j + 1 /\ UNCHANGED <<pc, left>>
                ELSE /\ left' = left - 1 /\ j' = 1 /\ UNCHANGED pc
                     /\ v' = IF left > 1 THEN [v EXCEPT ![0] = @ \div 2] ELSE v
             /\ UNCHANGED want
Next == SetAll \/ FlipAll \/ SetOne \/ ResetOne \/ FlipOne \/ Shift \/ StepLeft \/ StepRight
Spec == Init /\ [][Next]_vars

Typed == \A x \in 0..(NB - 1) : v[x] \in Byte
Refines == Idle => Bits(v) = want
Trailing == Idle => \A k \in Bits(v) : k < N
\* whole byte queries
CountB == FoldLeft(+, 0, [x \in 1..NB |-> FoldLeft(+, 0, [k \in 1..B |-> BitOf(v[x - 1], k - 1)])])
AnyB == \E x \in 0..(NB - 1) : v[x] # 0
AllB == (\A x \in 0..(NB - 2) : v[x] = Full) /\ v[NB - 1] = Mask
Queries == Idle => CountB = Cardinality(want) /\ (AnyB <=> want # {}) /\ (AllB <=> want = All(N))
=============================================================================
