------------------------------ MODULE PtlShare ------------------------------
(* Objects used by several threads.  Objects 1..3 are shared and only read      *)
(* while threads run, object 3 + t belongs to thread t.  An object's value is a *)
(* sequence of numbers: the elements of a sequence, the members of a bit set    *)
(* in increasing order, <<>> or <<value>> of an optional, <<index, value>> of a *)
(* variant, the fields of a tuple, <<id>> of a callable's target.               *)
EXTENDS PtlOrder, FiniteSetsExt, SequencesExt
Shared == 1..3
Mine(t) == 3 + t
Objects == 1..6
Bits == 70
Sequences == {"string", "vector", "array", "string_ref", "array_ref"}
Sorted(S) == SetToSortSeq(S, <)
Text(v) == v % 40          \* the length of the text that stands for v
Value(ty, alt, v) == IF ty = "optional" \/ alt = 1 THEN Text(v) ELSE v
Six(x, y) == <<Bool(x = y), Bool(x # y), Bool(SeqLess(x, y)), Bool(~SeqLess(y, x)), Bool(SeqLess(y, x)), Bool(~SeqLess(x, y))>>
SeqAnswer(q, x, y, i) ==
    CASE q \in {"all", "out", "view"} -> x
      [] q = "rev" -> Rev(x)
      [] q = "size" -> <<Len(x), Bool(x = <<>>)>>
      [] q = "at" -> IF i < Len(x) THEN <<x[i + 1]>> ELSE <<-1>>
      [] q = "ends" -> IF x = <<>> THEN <<>> ELSE <<x[1], x[Len(x)]>>
      [] q = "cstr" -> Append(x, 0)
      [] q = "sub" -> Slice(x, i % (Len(x) + 1), Len(x))
      [] q = "cat" -> x \o y
      [] q = "cmp" -> Six(x, y)
      [] q = "hash" -> <<1, 1>>
BitAnswer(q, x, y, i) ==
    LET X == Range(x) Y == Range(y) A == 0..(Bits - 1) IN
    CASE q = "set" -> x
      [] q = "count" -> <<Len(x), Bool(Len(x) = Bits), Bool(x # <<>>), Bool(x = <<>>), Bits>>
      [] q = "and" -> Sorted(X \cap Y) [] q = "or" -> Sorted(X \cup Y) [] q = "xor" -> Sorted((X \cup Y) \ (X \cap Y)) [] q = "not" -> Sorted(A \ X)
      [] q = "shl" -> Sorted({k + i : k \in X} \cap A) [] q = "shr" -> Sorted({k - i : k \in X} \cap A)
      [] q = "eq" -> <<Bool(X = Y), Bool(X # Y)>>
      [] q = "bits" -> [k \in 1..Bits |-> Bool(Bits - k \in X)]
      [] q = "hash" -> <<1, 1>>
OptAnswer(ty, q, x, y, i) ==
    CASE q = "has" -> <<Len(x), Len(x)>>
      [] q = "get" -> IF x = <<>> THEN <<-1>> ELSE <<Value(ty, 0, x[1])>>
      [] q = "or" -> IF x = <<>> THEN <<i % 40>> ELSE <<Value(ty, 0, x[1])>>
      [] q = "eq" -> <<Bool(x = y), Bool(x # y), 1>>
      [] q = "null" -> <<Bool(x = <<>>), Bool(x # <<>>)>>
VarAnswer(ty, q, x, y, i) ==
    CASE q = "which" -> <<x[1], 1 - x[1]>>
      [] q \in {"alt", "if"} -> IF x[1] = (i % 2) THEN <<Value(ty, x[1], x[2])>> ELSE <<-1>>
      [] q = "visit" -> <<x[1], Value(ty, x[1], x[2])>>
      [] q = "eq" -> <<Bool(x = y), Bool(x # y), 1>>
Answer(ty, q, x, y, i) ==
    CASE ty \in Sequences -> SeqAnswer(q, x, y, i)
      [] ty = "strings" -> [k \in DOMAIN x |-> Text(x[k])]
      [] ty = "bitset" -> BitAnswer(q, x, y, i)
      [] ty \in {"optional", "optional_ref"} -> OptAnswer(ty, q, x, y, i)
      [] ty \in {"variant", "variant_ref"} -> VarAnswer(ty, q, x, y, i)
      [] ty = "tuple" -> IF q = "eq" THEN <<Bool(x = y), Bool(x # y), 1>> ELSE <<x[1], Text(x[2]), x[3]>>
      [] ty = "function_ref" -> <<x[1] * 1000 + i>>
Changed(ty, x, v) ==
    CASE ty \in {"string", "vector", "strings"} -> Append(x, v)
      [] ty \in {"array", "tuple"} -> [x EXCEPT ![1] = v]
      [] ty = "bitset" -> Sorted(Range(x) \cup {v % Bits})
      [] ty = "optional" -> <<v>>
      [] ty = "variant" -> <<1 - (v % 2), v>>
After(ty, e, val) ==
    CASE e.op = "set" -> [val EXCEPT ![e.x] = e.vals]
      [] e.op = "take" -> [val EXCEPT ![Mine(e.t)] = val[e.x]]
      [] e.op = "chg" -> [val EXCEPT ![Mine(e.t)] = Changed(ty, @, e.i)]
      [] OTHER -> val
\* a thread may change its own object only, and read that and the shared ones
MayUse(e) == e.op = "set" \/ {e.x, e.y} \subseteq Shared \cup {Mine(e.t)}
=============================================================================
