-------------------------------- MODULE MCSum --------------------------------
(* optional / variant as a state machine over all requests, with failures; the *)
(* VIEW keeps the active alternatives only (data independence).  Emits every    *)
(* request in every reachable state.                                            *)
EXTENDS PtlSum, Json
CONSTANTS NObj, Alts, Opt, Show
VARIABLES s, h, last, fresh, failed
vars == <<s, h, last, fresh, failed>>
view == <<[o \in DOMAIN s |-> s[o][1]], failed>>
Objs == 1..NObj
As == 1..Alts
Base == [op |-> "", ov |-> "", o |-> 1, p |-> 1, a |-> 1, v |-> 0, cat |-> 0, thr |-> 0]

CreateOv == IF Opt THEN {"value", "value&&", "args", "none", "args_copy", "nullopt", "default"} ELSE {"value", "value&&", "value&", "index", "type", "none", "default"}
AssignOv == IF Opt THEN {"value", "value&&", "nullopt"} ELSE {"value", "value&&", "value&"}
EmplaceOv == IF Opt THEN {"args", "none", "copy", "move"} ELSE {"index", "type", "none", "copy", "move"}
SwapOv == {"member", "friend", "adl"}
WriteOv == IF Opt THEN {"*", "->", "value", "move"} ELSE {"get", "get_if", "move"}
ReadOv == IF Opt THEN {"value", "*", "value_or", "value_or&&", "mvalue_or", "value_or_int", "has_value", "bool"} ELSE {"get", "get_if", "holds"}
VisitOv == IF Opt THEN {} ELSE {"one", "two", "three", "ref", "void", "lambda"}

Requests ==
    {[Base EXCEPT !.op = "create", !.ov = k, !.o = o, !.p = o, !.a = a, !.v = fresh] : k \in CreateOv, o \in Objs, a \in As}
    \cup {[Base EXCEPT !.op = "assign", !.ov = k, !.o = o, !.p = o, !.a = a, !.v = fresh] : k \in AssignOv, o \in Objs, a \in As}
    \cup {[Base EXCEPT !.op = "emplace", !.ov = k, !.o = o, !.p = o, !.a = a, !.v = fresh] : k \in EmplaceOv, o \in Objs, a \in As}
    \cup {[Base EXCEPT !.op = k, !.ov = "copy", !.o = o, !.p = p] : k \in {"create", "assign"}, o \in Objs, p \in Objs}
    \cup {[Base EXCEPT !.op = k, !.ov = "move", !.o = o, !.p = p] : k \in {"mvcreate", "mvassign"}, o \in Objs, p \in Objs}
    \cup {[Base EXCEPT !.op = "swap", !.ov = k, !.o = o, !.p = p] : k \in SwapOv, o \in Objs, p \in Objs}
    \cup {[Base EXCEPT !.op = "write", !.ov = k, !.o = o, !.p = o, !.v = fresh] : k \in WriteOv, o \in Objs}
    \cup {[Base EXCEPT !.op = "read", !.ov = k, !.o = o, !.p = o, !.a = a, !.v = fresh, !.cat = q] : k \in ReadOv, o \in Objs, a \in As, q \in 0..3}
    \cup {[Base EXCEPT !.op = "visit", !.ov = k, !.o = o, !.p = o, !.v = fresh, !.cat = q, !.thr = t] : k \in VisitOv, o \in Objs, q \in 0..3, t \in 0..2}
    \cup (IF Opt THEN {[Base EXCEPT !.op = "reset", !.o = o, !.p = o] : o \in Objs}
                      \cup {[Base EXCEPT !.op = "emplace", !.ov = k, !.o = o, !.p = p] : k \in {"inner", "inner&&"}, o \in Objs, p \in Objs} ELSE {})
    \cup {[Base EXCEPT !.op = "assign", !.ov = k, !.o = o, !.p = p] : k \in {"inner", "inner&&"}, o \in Objs, p \in Objs}
Valid(e) == /\ e.op \in {"create", "mvcreate"} /\ e.ov \in {"copy", "move"} => e.o # e.p
            /\ e.ov \in {"inner", "inner&&"} => s[e.p][1] # 0 /\ (e.ov = "inner&&" => e.o # e.p)
            /\ e.op = "write" => s[e.o][1] # 0
            /\ e.ov = "*" => s[e.o][1] # 0
            /\ e.op = "read" /\ Opt => e.a = 1

Init == s = [o \in Objs |-> Default(Opt)] /\ h = <<>> /\ last = Base /\ fresh = 1 /\ failed = FALSE
Do(e) == /\ Valid(e)
         /\ s' = Effect(e, s, Opt)
         /\ h' = Append(h, e) /\ last' = e /\ fresh' = fresh + 1 /\ failed' = FALSE
\* the operation throws: nothing has happened
Fail(e) == /\ Valid(e) /\ ~NoThrow(e) /\ e.op \notin {"read", "visit", "write"}
           /\ s' = Failed(e, s, Opt)
           /\ h' = h /\ last' = e /\ fresh' = fresh + 1 /\ failed' = TRUE
Next == \E e \in Requests : Do(e) \/ Fail(e)
Spec == Init /\ [][Next]_vars

Last == last'
OneAlternative == \A o \in Objs : s[o][1] \in IF Opt THEN {0, 1} ELSE As
EmptyHasNoValue == \A o \in Objs : s[o][1] = 0 => s[o][2] = 0
Frames == [][\A o \in Objs : s'[o] # s[o] => o = Last.o \/ (Last.op = "swap" /\ o = Last.p)]_vars
Neutral == [][Last.op \in {"read"} \/ (Last.op \in {"assign", "mvassign", "swap"} /\ Last.o = Last.p /\ Last.ov \in {"copy", "inner", "inner&&", "move", "member", "friend", "adl"}) => s' = s]_vars
VisitKeeps == [][Last.op \in {"visit", "write"} => \A o \in Objs : s'[o][1] = s[o][1]]_vars
Strong == [][failed' /\ Last.op # "create" => s' = s]_vars
Emit == IF Show /\ ~failed /\ ~failed' THEN PrintT("@" \o ToJson([h |-> h, e |-> Last])) ELSE TRUE
=============================================================================
