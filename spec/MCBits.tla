-------------------------------- MODULE MCBits --------------------------------
(* All bitsets of N bits under all requests (N small).                          *)
EXTENDS PtlBits, Json
CONSTANTS N, NObj, Texts, Show
VARIABLES s, h, last
vars == <<s, h, last>>
view == s
Objs == 1..NObj
Base == [op |-> "", ov |-> "", o |-> 1, p |-> 1, t |-> 1, i |-> <<0>>, j |-> <<0>>, b |-> 0, text |-> <<>>]
Nums == {BigOf(k) : k \in 0..(N + 1)} \cup {<<65535, 65535, 65535, 65535>>}
Inside == {BigOf(k) : k \in 0..(N - 1)}
Ints == {BigOf(k) : k \in 0..(2 ^ (N + 1))} \cup {<<0, 0, 0, 32768>>, <<65535, 65535, 65535, 65535>>}
Digits(d) == LET T == <<48, 49, 32, 120>> IN [k \in DOMAIN d |-> T[d[k]]]
TextSet == UNION {{Digits(f) : f \in [1..m -> 1..4]} : m \in 0..Texts}
Q(op, ov) == [Base EXCEPT !.op = op, !.ov = ov]
Requests ==
    {[Q("create", "default") EXCEPT !.o = o] : o \in Objs} \cup {[Q("create", "int") EXCEPT !.o = o, !.i = i] : o \in Objs, i \in Ints}
    \cup {[Q("create", "copy") EXCEPT !.o = o, !.p = p] : o \in Objs, p \in Objs} \cup {[Q("mvcreate", "") EXCEPT !.o = o, !.p = p] : o \in Objs, p \in Objs}
    \cup {[Q("assign", k) EXCEPT !.o = o, !.p = p] : k \in {"copy", "move"}, o \in Objs, p \in Objs}
    \cup {[Q(k, "all") EXCEPT !.o = o] : k \in {"set", "reset", "flip"}, o \in Objs}
    \cup {[Q(k, "one") EXCEPT !.o = o, !.i = i] : k \in {"set", "reset", "flip"}, o \in Objs, i \in Nums}
    \cup {[Q("set", "value") EXCEPT !.o = o, !.i = i, !.b = b] : o \in Objs, i \in Nums, b \in 0..1}
    \cup {[Q("compound", k) EXCEPT !.o = o, !.p = p] : k \in {"and", "or", "xor"}, o \in Objs, p \in Objs}
    \cup {[Q("binary", k) EXCEPT !.o = o, !.p = p, !.t = t] : k \in {"and", "or", "xor"}, o \in Objs, p \in Objs, t \in Objs}
    \cup {[Q("not", "") EXCEPT !.o = o, !.p = p] : o \in Objs, p \in Objs}
    \cup {[Q("shift", k) EXCEPT !.o = o, !.i = i] : k \in {"left", "right"}, o \in Objs, i \in Nums}
    \cup {[Q("shifted", k) EXCEPT !.o = o, !.p = p, !.i = i] : k \in {"left", "right"}, o \in Objs, p \in Objs, i \in Nums}
    \cup {[Q("ref", k) EXCEPT !.o = o, !.i = i, !.b = b] : k \in {"[]", "refcopy", "[].flip"}, o \in Objs, i \in Inside, b \in 0..1}
    \cup (IF N > 0 THEN {[Q("ref", k) EXCEPT !.o = o, !.i = i, !.b = b] : k \in {"at", "at.flip"}, o \in Objs, i \in Nums, b \in 0..1} ELSE {})
    \cup {[Q("ref", k) EXCEPT !.o = o, !.p = p, !.i = i, !.j = j] : k \in {"[]=[]", "[]=ref", "[]=c[]", "swap", "fswap"}, o \in Objs, p \in Objs, i \in Inside, j \in Inside}
    \cup {[Q("swap", k) EXCEPT !.o = o, !.p = p] : k \in {"member", "friend", "adl"}, o \in Objs, p \in Objs}
    \cup {[Q("read", k) EXCEPT !.o = o, !.i = i] : k \in {"test", "cat", "at"}, o \in Objs, i \in Nums}
    \cup {[Q("read", k) EXCEPT !.o = o, !.i = i] : k \in {"c[]", "[]", "~"}, o \in Objs, i \in Inside}
    \cup {[Q("in", k) EXCEPT !.o = 1, !.text = t] : k \in {"", "noskipws", "failed"}, t \in TextSet}
    \cup {[Q("out", "") EXCEPT !.o = o] : o \in Objs}
Valid(e) == /\ e.op = "mvcreate" \/ (e.op = "create" /\ e.ov = "copy") => e.o # e.p
            /\ N = 0 => e.op # "in"
Init == s = [o \in Objs |-> {}] /\ h = <<>> /\ last = Base
Next == \E e \in Requests : Valid(e) /\ s' = Effect(e, s, N) /\ h' = Append(h, e) /\ last' = e
Spec == Init /\ [][Next]_vars
Typed == \A o \in Objs : s[o] \subseteq All(N)
\* laws of the abstract sets
Laws == \A S \in {s[o] : o \in Objs}, T \in {s[o] : o \in Objs} :
    /\ All(N) \ (All(N) \ S) = S
    /\ All(N) \ (S \cap T) = (All(N) \ S) \cup (All(N) \ T)
    /\ Xor(Xor(S, T), T) = S
    /\ \A a \in 0..(N + 1), b \in 0..(N + 1) : Left(Left(S, a, N), b, N) = Left(S, Min2(a + b, N), N) /\ Right(Right(S, a), b) = Right(S, a + b)
    /\ \A a \in 0..N : Right(Left(S, a, N), a) = {x \in S : x < N - a}
    \* output followed by input restores the value
    /\ N > 0 => /\ Skipped(Printed(S, N), "") = 0 /\ DigitsAt(Printed(S, N), 0, N) = N
                /\ ReadValue(Printed(S, N), 0, N) = S
Frames == [][\A o \in Objs : s'[o] # s[o] => o = last'.o \/ (o = last'.p /\ (last'.op = "swap" \/ last'.ov \in {"swap", "fswap"}))]_vars
Emit == IF Show THEN PrintT("@" \o ToJson([h |-> h, e |-> last'])) ELSE TRUE
=============================================================================
