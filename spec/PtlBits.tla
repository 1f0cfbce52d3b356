-------------------------------- MODULE PtlBits --------------------------------
(* Abstract semantics of ptl::bitset<N>: a set of indices below N.              *)
(* A request e: object o, operands p and t, big numbers i and j (16 bit limbs), *)
(* bool b.                                                                      *)
EXTENDS PtlBase, SequencesExt

All(N) == 0..(N - 1)
\* a big number as an index/count: N if it is N or more
Idx(x, N) == IF BigLess(x, BigOf(N)) THEN BigAt(x, 1) + Limb * BigAt(x, 2) ELSE N
Bit(x, k) == (BigAt(x, k \div 16 + 1) \div 2 ^ (k % 16)) % 2 = 1
Put(S, k, b) == IF b THEN S \cup {k} ELSE S \ {k}
Left(S, n, N) == {x + n : x \in {y \in S : y + n < N}}
Right(S, n) == {x - n : x \in {y \in S : y >= n}}
Xor(S, T) == (S \ T) \cup (T \ S)
OpOf(k, S, T) == CASE k = "and" -> S \cap T [] k = "or" -> S \cup T [] k = "xor" -> Xor(S, T)

IsDigit(c) == c \in {48, 49}
IsSpace(c) == c = 32 \/ c \in 9..13
\* stream input: number of skipped characters, of digits read; the value read
Skipped(text, ov) == IF ov = "" THEN LET ks == {k \in DOMAIN text : ~IsSpace(text[k])} IN IF ks = {} THEN Len(text) ELSE (CHOOSE k \in ks : \A q \in ks : k <= q) - 1 ELSE 0
DigitsAt(text, k, N) == LET ks == {q \in (k + 1)..Len(text) : ~IsDigit(text[q])}
                            end == IF ks = {} THEN Len(text) ELSE (CHOOSE q \in ks : \A r \in ks : q <= r) - 1
                        IN Min2(N, end - k)
ReadValue(text, k, n) == {x \in 0..(n - 1) : text[k + n - x] = 49}
Printed(S, N) == [k \in 1..N |-> IF (N - k) \in S THEN 49 ELSE 48]

\* requests whose index must be checked
Checked(e) == \/ e.op = "set" /\ e.ov \in {"one", "value"}
              \/ e.op \in {"reset", "flip"} /\ e.ov = "one"
              \/ e.op = "ref" /\ e.ov \in {"at", "at.flip"}
              \/ e.op = "read" /\ e.ov \in {"test", "cat", "at"}
Throws(e, N) == Checked(e) /\ Idx(e.i, N) = N

Effect(e, s, N) ==
    LET o == e.o
        i == Idx(e.i, N)
        j == Idx(e.j, N)
        S == s[o]
        P == s[e.p]
        T == s[e.t]
        b == e.b = 1
        Set(X) == [s EXCEPT ![o] = X]
    IN IF Throws(e, N) THEN s ELSE
       CASE e.op = "create"   -> Set(CASE e.ov = "default" -> {} [] e.ov = "copy" -> P [] OTHER -> {k \in 0..(Min2(N, 64) - 1) : Bit(e.i, k)})
         [] e.op \in {"mvcreate", "assign"} -> Set(P)
         [] e.op = "set"      -> Set(CASE e.ov = "all" -> All(N) [] e.ov = "one" -> S \cup {i} [] OTHER -> Put(S, i, b))
         [] e.op = "reset"    -> Set(IF e.ov = "all" THEN {} ELSE S \ {i})
         [] e.op = "flip"     -> Set(IF e.ov = "all" THEN All(N) \ S ELSE Xor(S, {i}))
         [] e.op = "compound" -> Set(OpOf(e.ov, S, P))
         [] e.op = "binary"   -> Set(OpOf(e.ov, P, T))
         [] e.op = "not"      -> Set(All(N) \ P)
         [] e.op = "shift"    -> Set(IF e.ov = "left" THEN Left(S, i, N) ELSE Right(S, i))
         [] e.op = "shifted"  -> Set(IF e.ov = "left" THEN Left(P, i, N) ELSE Right(P, i))
         [] e.op = "ref"      ->
              (CASE e.ov \in {"[]", "at", "refcopy"} -> Set(Put(S, i, b))
                 [] e.ov \in {"[]=[]", "[]=ref", "[]=c[]"} -> Set(Put(S, i, j \in P))
                 [] e.ov \in {"[].flip", "at.flip"} -> Set(Xor(S, {i}))
                 [] OTHER -> IF e.p = o THEN Set(Put(Put(S, i, j \in S), j, i \in S))
                             ELSE [s EXCEPT ![o] = Put(S, i, j \in P), ![e.p] = Put(P, j, i \in S)])
         [] e.op = "foreign"  -> Set(Range(e.xs))
         [] e.op = "swap"     -> [s EXCEPT ![o] = P, ![e.p] = S]
         [] e.op = "in" /\ e.ov # "failed" ->
              LET k == Skipped(e.text, e.ov)
                  n == DigitsAt(e.text, k, N)
              IN IF n = 0 THEN s ELSE Set(ReadValue(e.text, k, n))
         [] OTHER -> s

\* moved-from bitsets are unspecified
Loose(e) == IF e.op = "mvcreate" \/ (e.op = "assign" /\ e.ov = "move" /\ e.o # e.p) THEN {e.p} ELSE {}

\* returned values, -1: nothing to check
Result(e, s, N) ==
    LET i == Idx(e.i, N)
    IN CASE e.op = "read" -> IF e.ov = "~" THEN Bool(i \notin s[e.o]) ELSE Bool(i \in s[e.o])
         [] e.op \in {"assign", "set", "reset", "flip", "compound", "shift"} -> 1
         [] e.op = "ref" /\ e.ov = "refcopy" -> e.b
         [] OTHER -> -1
=============================================================================
