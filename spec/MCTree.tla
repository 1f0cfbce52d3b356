-------------------------------- MODULE MCTree --------------------------------
(* All requests in all graphs of two roots and some further nodes.               *)
EXTENDS PtlTree, Json
CONSTANTS Nodes, MaxLen, Show
VARIABLES N, h, last
vars == <<N, h, last>>
view == N
Kinds == {"v", "o", "s"}
Base == [op |-> "nop", h |-> 1, k |-> "v", g |-> 1, p |-> "v", i |-> 1, j |-> 1, n |-> 0, w |-> 0, f |-> 0]
Fresh == CHOOSE f \in Nodes : f \notin DOMAIN N /\ \A m \in Nodes : m \notin DOMAIN N => f <= m
Ends(m) == {1, Len(N[m].s) + 1}
Requests ==
    {[Base EXCEPT !.op = "new", !.h = a, !.k = k, !.j = j, !.f = f] : a \in DOMAIN N, k \in Kinds, j \in 1..(MaxLen + 1), f \in IF Nodes \subseteq DOMAIN N THEN {} ELSE {Fresh}}
    \cup {[Base EXCEPT !.op = "link", !.h = a, !.k = k, !.g = b, !.p = p, !.i = i, !.j = j, !.w = w] : a \in DOMAIN N, k \in Kinds, b \in DOMAIN N, p \in Kinds, i \in 1..MaxLen, j \in 1..(MaxLen + 1), w \in 0..1}
    \cup {[Base EXCEPT !.op = o, !.h = a, !.g = b, !.p = p, !.i = i, !.n = n] : o \in {"many", "fill"}, a \in DOMAIN N, b \in DOMAIN N, p \in Kinds, i \in 1..MaxLen, n \in 0..2}
    \cup {[Base EXCEPT !.op = o, !.h = a, !.k = k, !.g = b] : o \in {"copy", "move", "swap"}, a \in DOMAIN N, k \in Kinds, b \in DOMAIN N}
    \cup {[Base EXCEPT !.op = "splice", !.h = a, !.k = "s", !.g = b, !.j = j] : a \in DOMAIN N, b \in DOMAIN N, j \in 1..(MaxLen + 1)}
    \cup {[Base EXCEPT !.op = o, !.h = a] : o \in {"int", "text", "reset", "clear"}, a \in DOMAIN N}
    \cup {[Base EXCEPT !.op = "erase", !.h = a, !.j = j, !.n = n] : a \in DOMAIN N, j \in 1..MaxLen, n \in 0..MaxLen}
    \cup {[Base EXCEPT !.op = "resize", !.h = a, !.n = n] : a \in DOMAIN N, n \in 0..MaxLen}
Plain(e) == (e.op \in {"new", "link"} /\ e.k # "s" => e.j = 1) /\ (e.op \in Source /\ e.p # "s" => e.i = 1)
Init == N = [n \in Roots |-> Blank] /\ h = <<>> /\ last = Base
Next == \E e \in Requests :
    /\ Plain(e) /\ Legal(e, N)
    /\ N' = Effect(e, N) /\ h' = Append(h, e) /\ last' = e
Spec == Init /\ [][Next]_vars
Small == /\ \A n \in DOMAIN N : Len(N[n].s) <= MaxLen
         /\ Total(N, DOMAIN N) <= 3
         /\ Cardinality({n \in DOMAIN N : N[n].v[1] = TEXT}) <= 1
         /\ Len(h) <= 6
Sound == Acyclic(N) /\ DOMAIN N = Live(N) /\ \A n \in DOMAIN N : Out(N[n]) \subseteq DOMAIN N
\* what is stored lives on
Kept == [][last'.op \in Source => LET r == Ref(N, last'.g, last'.p, last'.i) IN r = 0 \/ r \in DOMAIN N' \/ (last'.op # "link" /\ last'.n = 0)]_vars
\* only what the old value of the target kept alive can die
Dies == [][DOMAIN N \ DOMAIN N' \subseteq From(N, RefsIn("v", N[last'.h].v) \cup RefsIn("o", N[last'.h].o) \cup RefsIn("s", N[last'.h].s))]_vars
\* all the rest stays as it was
Frame == [][\A n \in DOMAIN N \cap DOMAIN N' : n \notin {last'.h, last'.g} => N'[n] = N[n]]_vars
\* the target gets what the source had before, whoever owned it
Taken == [][last'.op \in {"copy", "move", "swap"} => Slot(N'[last'.h], last'.k) = Slot(N[last'.g], last'.k)]_vars
Emit == IF Show THEN PrintT("@" \o ToJson([h |-> h, e |-> last'])) ELSE TRUE
=============================================================================
