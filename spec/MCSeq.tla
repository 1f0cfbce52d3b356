-------------------------------- MODULE MCSeq --------------------------------
(* The abstract machine of strings and vectors as a state machine over a finite *)
(* set of requests, used (a) to check properties of the abstract semantics and  *)
(* (b) to enumerate request scripts: every request in every reachable state.    *)
(*                                                                              *)
(* The library's control flow depends on sizes and capacities but not on the    *)
(* values (data independence), so the VIEW keeps only sizes and capacities;     *)
(* literal arguments consist of fresh values.  cap follows a simple policy      *)
(* (grow exactly as needed, never shrink unless asked to) - it only steers the  *)
(* exploration, the conformance rules are in PtlBuffer.                         *)
(*                                                                              *)
(* Every transition is printed as a pair of JSON texts: the requests leading to *)
(* the state (shortest path) and the request itself.                            *)
EXTENDS PtlSeq, Json
CONSTANTS NObj, MaxLen, MaxCap, Inline, Ops, LitLens, Alias, Show
VARIABLES c, cap, h, fresh
vars == <<c, cap, h, fresh>>
view == <<[o \in DOMAIN c |-> Len(c[o])], cap>>
Objs == 1..NObj

Base == [op |-> "", ov |-> "", o |-> 1, p |-> 1, i |-> 0, j |-> 0, n |-> 0, xs |-> <<>>, rep |-> 1, sp |-> 0, si |-> 0, sj |-> 0, sr |-> 0, v |-> 0]
Lits == {[Base EXCEPT !.xs = [k \in 1..m |-> fresh + k]] : m \in LitLens}
Slices(q) == {[Base EXCEPT !.sp = q, !.si = i, !.sj = j, !.sr = r] : i \in 0..Len(c[q]), j \in 0..Len(c[q]), r \in 0..1}
Args == Lits \cup (IF Alias THEN {a \in UNION {Slices(q) : q \in Objs} : a.si < a.sj \/ (a.si = a.sj /\ a.sr = 0 /\ a.si \in {0, Len(c[a.sp])})} ELSE {})

\* all requests of kind op on object o
Requests(op, o) ==
    LET n == Len(c[o])
    IN CASE op \in {"create", "assign", "append"} -> {[a EXCEPT !.op = op, !.o = o] : a \in {x \in Args : op = "create" => x.sp # o}}
         [] op = "insert"  -> {[a EXCEPT !.op = op, !.o = o, !.i = i, !.j = i] : a \in Args, i \in 0..n}
         [] op = "replace" -> {[a EXCEPT !.op = op, !.o = o, !.i = i, !.j = j] : a \in Args, i \in 0..n, j \in 0..n}
         [] op = "erase"   -> {[Base EXCEPT !.op = op, !.o = o, !.i = i, !.j = j] : i \in 0..n, j \in 0..n}
         [] op = "resize"  -> {[Base EXCEPT !.op = op, !.o = o, !.n = k, !.xs = <<fresh>>] : k \in 0..MaxLen}
                              \cup (IF Alias THEN {[Base EXCEPT !.op = op, !.o = o, !.n = k, !.sp = o, !.si = i, !.sj = i + 1] : k \in 0..MaxLen, i \in 0..(n - 1)} ELSE {})
         [] op = "reserve" -> {[Base EXCEPT !.op = op, !.o = o, !.n = k] : k \in 0..MaxCap}
         [] op = "write"   -> {[Base EXCEPT !.op = op, !.o = o, !.i = i, !.v = fresh] : i \in 0..(n - 1)}
         [] op = "pop"     -> {[Base EXCEPT !.op = op, !.o = o] : z \in 1..Min2(1, n)}
         [] op \in {"clear", "shrink"} -> {[Base EXCEPT !.op = op, !.o = o]}
         [] op \in {"mvassign", "swap"} -> {[Base EXCEPT !.op = op, !.o = o, !.p = p] : p \in Objs}
         [] op = "copy" -> {[Base EXCEPT !.op = "assign", !.ov = "op=copy", !.o = o, !.p = p, !.sp = p, !.sj = Len(c[p])] : p \in Objs}
         [] op = "mvcreate" -> {[Base EXCEPT !.op = op, !.o = o, !.p = p] : p \in Objs \ {o}}
         [] op = "substr" -> {[Base EXCEPT !.op = op, !.o = o, !.p = p, !.i = i, !.j = j] : p \in Objs \ {o}, i \in 0..MaxLen, j \in 0..MaxLen}
         [] op = "mvsubstr" -> {[Base EXCEPT !.op = op, !.o = o, !.p = p, !.i = i, !.j = j] : p \in Objs \ {o}, i \in 0..MaxLen, j \in 0..MaxLen}
         [] op = "concat" -> {[a EXCEPT !.op = op, !.o = o, !.p = p, !.ov = v] : a \in Lits, p \in Objs \ {o}, v \in {"sv+s", "s+sv"}}
                             \cup {[Base EXCEPT !.op = op, !.o = o, !.p = p, !.ov = "s+s", !.sp = q, !.sj = Len(c[q])] : p \in Objs \ {o}, q \in Objs \ {o}}

Valid(e) == /\ e.op \in {"erase", "replace"} => e.i <= e.j
            /\ e.op \in {"substr", "mvsubstr"} => e.i <= e.j /\ e.j <= Len(c[e.p])

CapAfter(e, d) ==
    LET o == e.o
        p == e.p
        Fit(x) == Max2(Inline, x)
    IN IF e.op \in {"create", "substr", "mvsubstr", "concat"} THEN [cap EXCEPT ![o] = Fit(Len(d[o]))]
       ELSE IF e.op = "swap" THEN [cap EXCEPT ![o] = cap[p], ![p] = cap[o]]
       ELSE IF e.op \in {"mvassign", "mvcreate"} THEN IF o = p THEN cap ELSE [cap EXCEPT ![o] = cap[p], ![p] = Inline]
       ELSE IF e.op = "reserve" THEN [cap EXCEPT ![o] = Max2(@, e.n)]
       ELSE IF e.op = "shrink" THEN [cap EXCEPT ![o] = Fit(Len(d[o]))]
       ELSE [cap EXCEPT ![o] = Max2(@, Len(d[o]))]
\* moved-from objects are empty in this implementation
Moved(e, d) == [o \in Objs |-> IF o \in Loose(e) /\ e.op # "mvsubstr" THEN <<>> ELSE IF o \in Loose(e) THEN <<>> ELSE d[o]]

Init == /\ c = [o \in Objs |-> <<>>]
        /\ cap = [o \in Objs |-> Inline]
        /\ h = <<>>
        /\ fresh = 1
Do(e) == /\ Valid(e)
         /\ LET d == Effect(e, c)
            IN /\ \A o \in Objs : Len(d[o]) <= MaxLen
               /\ c' = Moved(e, d)
               /\ cap' = CapAfter(e, d)
               /\ h' = Append(h, e)
               /\ fresh' = fresh + 4
Next == \E op \in Ops, o \in Objs : \E e \in Requests(op, o) : Do(e)
Spec == Init /\ [][Next]_vars

\* --- properties of the abstract semantics
WithinCapacity == \A o \in Objs : Len(c[o]) <= cap[o]
\* values only come from somewhere: every value was there before or was handed over
Conservation == [][LET e == h'[Len(h')] IN \A o \in Objs : Range(c'[o]) \subseteq
                      UNION {Range(c[q]) : q \in Objs} \cup Range(e.xs) \cup {e.v}]_vars
\* nobody but the addressed objects changes
Frames == [][LET e == h'[Len(h')] IN \A o \in Objs : c'[o] # c[o] => o \in Frame(e)]_vars
\* an argument that refers into the container acts like a copy of it
AliasIsCopy == [][LET e == h'[Len(h')] IN e.sp > 0 =>
                    Effect([e EXCEPT !.sp = 0, !.sr = 0, !.rep = 1, !.xs = Arg(e, c)], c) = Effect(e, c)]_vars
\* insertion followed by erasure of what was inserted is the identity; replace = erase then insert
Inverse == [][LET e == h'[Len(h')] IN
    /\ e.op = "insert" => Splice(c'[e.o], e.i, e.i + Len(Arg(e, c)), <<>>) = c[e.o]
    /\ e.op = "replace" => c'[e.o] = Splice(Splice(c[e.o], e.i, e.j, <<>>), e.i, e.i, Arg(e, c))
    /\ e.op \in {"append", "insert", "replace"} => Len(c'[e.o]) = Len(c[e.o]) + Len(Arg(e, c)) - IF e.op = "replace" THEN e.j - e.i ELSE 0]_vars
Emit == IF Show THEN PrintT("@" \o ToJson([h |-> h, e |-> h'[Len(h')]])) ELSE TRUE
=============================================================================
