------------------------------- MODULE MCStream -------------------------------
(* Everything a program can do with one stream and two small bitsets.           *)
EXTENDS PtlStream, Json
CONSTANTS N, NObj, MaxLen, MaxWidth, Show
VARIABLES c, h, last, sent
\* sent: the values written (unpadded, onto a channel that was empty or held such values only) and not yet read
vars == <<c, h, last, sent>>
view == IF Show THEN <<c>> ELSE <<c, sent>>
Base == [op |-> "", ov |-> "", o |-> 1, v |-> 0, text |-> <<>>, ms |-> <<>>]
Q(op, ov) == [Base EXCEPT !.op = op, !.ov = ov]
Objs == 1..NObj
Texts == {<<>>, <<32, 49>>, <<49, 120>>}
Requests ==
    {[Q("put", k) EXCEPT !.o = o] : k \in {"bits", "string", "ref"}, o \in Objs} \cup {[Q("get", "") EXCEPT !.o = o] : o \in Objs}
    \cup {[Q("width", "") EXCEPT !.v = v] : v \in 0..MaxWidth} \cup {[Q("fill", "") EXCEPT !.v = v] : v \in {42}}
    \cup {Q("adj", k) : k \in {"left", "right"}} \cup {[Q("skip", "") EXCEPT !.v = v] : v \in 0..1}
    \cup {[Q("feed", "") EXCEPT !.text = t] : t \in Texts} \cup {[Q("room", "") EXCEPT !.v = v] : v \in {0, 1, -1}}
    \cup {Q("clear", "")} \cup {Q("state", k) : k \in {"eof", "fail", "bad"}} \cup (IF Show THEN {[Q("mask", "") EXCEPT !.ms = m] : m \in {<<>>, <<"fail">>, <<"bad">>}} ELSE {})
    \cup {[Q("bits", "") EXCEPT !.o = o, !.text = [k \in 1..Cardinality(S) |-> SetToSeq(S)[k]]] : o \in Objs, S \in SUBSET (0..(N - 1))}
    \cup {[Q("text", "") EXCEPT !.text = t] : t \in Texts}
Init == /\ c = [ch |-> <<>>, st |-> {}, mask |-> {}, w |-> 0, fill |-> 42, adj |-> "right", skip |-> 1, fl |-> 0, room |-> -1, bits |-> [o \in Objs |-> {}], text |-> [o \in Objs |-> <<>>]]
        /\ h = <<>> /\ last = Base /\ sent = <<>>
Next == \E e \in Requests :
    /\ c' = Effect2(e, c, N) /\ h' = Append(h, e) /\ last' = e
    /\ sent' = (IF e.op = "put" /\ ~Blocked(e, c)
               THEN IF e.ov = "bits" /\ c.w <= N /\ (c.room >= N \/ c.room < 0) /\ (c.ch = <<>> \/ sent # <<>>) THEN Append(sent, c.bits[e.o]) ELSE <<>>
               ELSE IF e.op = "get" /\ ~Blocked(e, c) THEN IF sent = <<>> THEN <<>> ELSE Tail(sent)
               ELSE IF e.op = "feed" /\ e.text # <<>> THEN <<>> ELSE sent)
Spec == Init /\ [][Next]_vars
Few == Len(c.ch) <= MaxLen
\* what was written is what is read, in order, without separators and up to the end of the stream
RoundTrip == sent # <<>> => LET d == Get(c, 1, N) IN d.bits[1] = Head(sent) /\ d.st = {} /\ Len(d.ch) = Len(c.ch) - N
Order == sent # <<>> => Len(c.ch) = N * Len(sent) /\ \A k \in 1..Len(sent) : ReadValue(c.ch, (k - 1) * N, N) = sent[k]
\* input changes the value only if something was read, and reads at most N digits
Unread == LET d == Get(c, 1, N) IN /\ "fail" \in d.st <=> (Len(d.ch) = Len(c.ch) - Skipped(c.ch, IF c.skip = 1 THEN "" ELSE "noskipws"))
                                   /\ "fail" \in d.st => d.bits = c.bits
                                   /\ d.ch = SubSeq(c.ch, Len(c.ch) - Len(d.ch) + 1, Len(c.ch))
\* padding surrounds the text
Whole == \A o \in Objs : LET T == c.text[o]
                             P == Pad(c, T)
                         IN Len(P) = Max2(Len(T), c.w) /\ (SubSeq(P, 1, Len(T)) = T \/ SubSeq(P, Len(P) - Len(T) + 1, Len(P)) = T)
Blocks == [][~Good(c) /\ last'.op \in {"put", "get"} => c' = c]_vars
Once == [][last'.op = "put" /\ Good(c) => c'.w = 0]_vars
Emit == IF Show /\ last'.op \in {"put", "get"} THEN PrintT("@" \o ToJson([h |-> h, e |-> last'])) ELSE TRUE
=============================================================================
