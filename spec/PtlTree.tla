-------------------------------- MODULE PtlTree --------------------------------
(* Objects that own each other.  A node has a variant (an int, a reference to a  *)
(* node or a string), an optional reference and a vector of references; a node   *)
(* lives while a root or a live node refers to it (references are counted, the   *)
(* graph is kept acyclic).                                                       *)
(*                                                                               *)
(* N: live node -> [v: <<tag, x>>, o: Int, s: Seq(Int)], a reference is a node   *)
(* or 0 (null), o = -1 is the empty optional.  Every request takes its argument  *)
(* before anything is given up, also if the argument lies in a node that only    *)
(* the old value of the target keeps alive.                                      *)
EXTENDS PtlBase
CONSTANT Roots
INT == 0
REF == 1
TEXT == 2
Blank == [v |-> <<INT, 0>>, o |-> -1, s |-> <<>>]
Slot(x, k) == CASE k = "v" -> x.v [] k = "o" -> x.o [] OTHER -> x.s
SetSlot(N, h, k, w) == [N EXCEPT ![h] = CASE k = "v" -> [@ EXCEPT !.v = w] [] k = "o" -> [@ EXCEPT !.o = w] [] OTHER -> [@ EXCEPT !.s = w]]
RefsIn(k, w) == (CASE k = "v" -> (IF w[1] = REF THEN {w[2]} ELSE {}) [] k = "o" -> {w} [] OTHER -> Range(w)) \ {0, -1}
Out(x) == RefsIn("v", x.v) \cup RefsIn("o", x.o) \cup RefsIn("s", x.s)
RECURSIVE From(_, _)
From(N, S) == LET T == S \cup UNION {Out(N[n]) : n \in S} IN IF T = S THEN S ELSE From(N, T)
Live(N) == From(N, Roots)
Acyclic(N) == \A n \in DOMAIN N : n \notin From(N, Out(N[n]))
Only(N, S) == [n \in S |-> N[n]]
\* references that exist: the values of variants, optionals and elements of vectors
Count(x) == Bool(x.v[1] = REF) + Bool(x.o # -1) + Len(x.s)
RECURSIVE Total(_, _)
Total(N, S) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN Count(N[n]) + Total(N, S \ {n})
\* a place holds a reference
Holds(N, g, p, i) == CASE p = "v" -> N[g].v[1] = REF [] p = "o" -> N[g].o # -1 [] OTHER -> i \in DOMAIN N[g].s
Ref(N, g, p, i) == CASE p = "v" -> N[g].v[2] [] p = "o" -> N[g].o [] OTHER -> N[g].s[i]
Emptied(N, g, p, i) == CASE p = "v" -> SetSlot(N, g, p, <<REF, 0>>) [] p = "o" -> SetSlot(N, g, p, 0) [] OTHER -> SetSlot(N, g, p, [N[g].s EXCEPT ![i] = 0])
\* a reference is stored: the variant and the optional get it as their value, the vector as a further element at j
Store(N, h, k, j, r) == SetSlot(N, h, k, CASE k = "v" -> <<REF, r>> [] k = "o" -> r [] OTHER -> Splice(N[h].s, j - 1, j - 1, <<r>>))
Gone(k, w) == CASE k = "v" -> (IF w[1] = REF THEN <<REF, 0>> ELSE w) [] k = "o" -> (IF w = -1 THEN -1 ELSE 0) [] OTHER -> <<>>
Raw(e, N) ==
    CASE e.op = "new" -> Store([n \in DOMAIN N \cup {e.f} |-> IF n = e.f THEN Blank ELSE N[n]], e.h, e.k, e.j, e.f)
      [] e.op = "link" -> Store(IF e.w = 1 THEN Emptied(N, e.g, e.p, e.i) ELSE N, e.h, e.k, e.j, Ref(N, e.g, e.p, e.i))
      [] e.op = "many" -> SetSlot(N, e.h, "s", Splice(N[e.h].s, e.j - 1, e.j - 1, Rep(<<Ref(N, e.g, e.p, e.i)>>, e.n)))
      [] e.op = "fill" -> SetSlot(N, e.h, "s", Rep(<<Ref(N, e.g, e.p, e.i)>>, e.n))
      [] e.op = "copy" -> SetSlot(N, e.h, e.k, Slot(N[e.g], e.k))
      [] e.op = "move" -> IF e.h = e.g THEN N ELSE SetSlot(SetSlot(N, e.g, e.k, Gone(e.k, Slot(N[e.g], e.k))), e.h, e.k, Slot(N[e.g], e.k))
      [] e.op = "swap" -> SetSlot(SetSlot(N, e.g, e.k, Slot(N[e.h], e.k)), e.h, e.k, Slot(N[e.g], e.k))
      [] e.op = "splice" -> SetSlot(N, e.h, "s", Splice(N[e.h].s, e.j - 1, e.j - 1, N[e.g].s))
      [] e.op = "int" -> SetSlot(N, e.h, "v", <<INT, e.n>>)
      [] e.op = "text" -> SetSlot(N, e.h, "v", <<TEXT, e.n>>)
      [] e.op = "reset" -> SetSlot(N, e.h, "o", -1)
      [] e.op = "clear" -> SetSlot(N, e.h, "s", <<>>)
      [] e.op = "erase" -> SetSlot(N, e.h, "s", Splice(N[e.h].s, e.j - 1, e.j - 1 + e.n, <<>>))
      [] e.op = "resize" -> SetSlot(N, e.h, "s", IF e.n <= Len(N[e.h].s) THEN Take(N[e.h].s, e.n) ELSE N[e.h].s \o [x \in 1..(e.n - Len(N[e.h].s)) |-> 0])
      [] OTHER -> N                                 \* "reserve", "shrink", "nop"
Effect(e, N) == LET M == Raw(e, N) IN Only(M, Live(M))
Source == {"link", "many", "fill"}
Legal(e, N) ==
    /\ e.h \in DOMAIN N
    /\ e.op \in Source => e.g \in DOMAIN N /\ Holds(N, e.g, e.p, e.i)
    /\ e.op \in {"copy", "move", "swap", "splice"} => e.g \in DOMAIN N
    /\ e.op = "new" => e.f \notin DOMAIN N
    /\ (e.op \in {"new", "link", "many"} /\ (e.op = "many" \/ e.k = "s")) \/ e.op = "splice" => e.j \in 1..(Len(N[e.h].s) + 1)
    /\ e.op = "erase" => e.j >= 1 /\ e.n >= 0 /\ e.j - 1 + e.n <= Len(N[e.h].s)
    /\ Acyclic(Raw(e, N))
\* what a moved-from string or vector holds is left open
Open(e, N) == IF e.op = "move" /\ e.h # e.g THEN (IF e.k = "s" THEN {<<e.g, "s">>} ELSE IF e.k = "v" /\ N[e.g].v[1] = TEXT THEN {<<e.g, "v">>} ELSE {}) ELSE {}
=============================================================================
