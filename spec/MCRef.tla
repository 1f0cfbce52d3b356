-------------------------------- MODULE MCRef --------------------------------
(* All requests in all states: optional_ref over a plain object, an engaged and  *)
(* an empty optional and a const object (Opt), or variant_ref over two objects   *)
(* of each alternative.                                                          *)
EXTENDS PtlRef, Json
CONSTANTS Opt, Alts, Show
VARIABLES ref, vals, h, last
vars == <<ref, vals, h, last>>
view == <<ref, vals>>
\* [type, is const] of the alternatives
Table == CASE Alts = "v1" -> <<<<1, 0>>, <<1, 1>>, <<3, 0>>, <<4, 0>>>>
           [] Alts = "v2" -> <<<<1, 1>>, <<2, 0>>>>
           [] Alts = "v3" -> <<<<1, 0>>>>
           [] Alts = "v4" -> <<<<1, 1>>, <<2, 1>>>>
           [] OTHER -> <<>>
Used == IF Opt THEN {1, 3} ELSE 1..2
Objects == IF Opt THEN {1, 4, 6, 10} ELSE 1..(2 * Len(Table))
Base == [op |-> "", a |-> 1, d |-> 1, t |-> 1, v |-> 0, as |-> 0]
Q(op, a) == [Base EXCEPT !.op = op, !.a = a]
Requests ==
    {[Q("bind", a) EXCEPT !.t = t, !.as = c] : a \in Used, t \in Objects, c \in IF Opt THEN {0} ELSE 0..1}
    \cup {[Q(k, a) EXCEPT !.d = d] : k \in {"assign", "copy", "swap"}, a \in Used, d \in Used}
    \cup {[Q("write", a) EXCEPT !.v = 9] : a \in Used}
    \cup {[Q("poke", 1) EXCEPT !.v = 8, !.t = t] : t \in Objects \ {10}}
    \cup (IF Opt THEN {Q("clear", a) : a \in Used} \cup {Q("value", a) : a \in Used} \cup {[Q("value_or", a) EXCEPT !.v = 5] : a \in Used} \cup {[Q("empty", 1) EXCEPT !.t = t] : t \in Objects \ {1, 10}}
          ELSE {Q(k, a) : k \in {"throw", "result"}, a \in Used})
Legal(e) == IF Opt THEN OptLegal(e, ref, vals) /\ (e.op = "swap" => (e.a <= 2) = (e.d <= 2)) ELSE VarLegal(e, ref, Table)
Init == /\ h = <<>> /\ last = Base
        /\ ref = IF Opt THEN [k \in 1..4 |-> NoRef] ELSE [k \in 1..3 |-> [t |-> 1, alt |-> AltFor(Table, Table[1][1], 0)]]
        /\ vals = IF Opt THEN [t \in 1..10 |-> IF t \in {1, 10} THEN 1 ELSE -1] ELSE [t \in Objects |-> 1]
Next == \E e \in Requests :
    /\ Legal(e)
    /\ ref' = IF Opt THEN OptRefAfter(e, ref, vals) ELSE VarRefAfter(e, ref, Table)
    /\ vals' = IF Opt THEN OptValsAfter(e, ref, vals) ELSE VarValsAfter(e, ref, vals, Table)
    /\ h' = Append(h, e) /\ last' = e
Spec == Init /\ [][Next]_vars
Few == Cardinality({t \in Objects : vals[t] \notin {1, -1}}) <= 1
\* a reference denotes an object that exists, and its alternative fits the object
Valid == IF Opt THEN \A a \in Used : ref[a] # NoRef => vals[ref[a]] # -1 /\ (ref[a] = 10 => a > 2)
         ELSE \A a \in 1..3 : LET x == ref[a] IN x.alt \in DOMAIN Table /\ Table[x.alt][1] = TypeOf(Table, x.t)
\* binding, copying, assigning and swapping references touch no object
Untouched == [][last'.op \notin {"write", "poke", "empty"} => vals' = vals]_vars
\* writing and changing objects rebind nothing
Bound == [][last'.op \in {"write", "poke", "empty", "throw", "result", "value", "value_or"} => ref' = ref]_vars
OneWritten == [][Cardinality({t \in Objects : vals'[t] # vals[t]}) <= 1]_vars
\* through a const alternative nothing is written
ConstKept == [][~Opt /\ last'.op = "write" /\ Table[ref[last'.a].alt][2] = 1 => vals' = vals]_vars
Shared == [][last'.op \in {"assign", "copy"} => ref'[last'.a] = ref[last'.d]]_vars
Emit == IF Show THEN PrintT("@" \o ToJson([h |-> h, e |-> last'])) ELSE TRUE
=============================================================================
