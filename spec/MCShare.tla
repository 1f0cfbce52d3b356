------------------------------ MODULE MCShare ------------------------------
(* Threads that run operations in small steps: an operation loads what it       *)
(* reads, then works, then stores its result.  Scratch = "none": between its    *)
(* steps an operation keeps everything in variables of its own.  The other      *)
(* settings are libraries with hidden state, for which Sequential must fail:    *)
(* "static" keeps intermediate results in a static variable, "const" writes     *)
(* (and restores) the object it only reads, "shared" lets a copy share its      *)
(* contents with the original.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Rounds, Scratch
VARIABLES val, pc, reg, buf, hist, told, home
vars == <<val, pc, reg, buf, hist, told, home>>
\* object 0 is shared, object t belongs to thread t; values are small numbers
Objects == {0} \cup Threads
Ops == {"read", "take", "change"}
Init == /\ val = [o \in Objects |-> o] /\ pc = [t \in Threads |-> "idle"] /\ reg = [t \in Threads |-> 0] /\ buf = 0
        /\ hist = [t \in Threads |-> <<>>] /\ told = [t \in Threads |-> <<>>] /\ home = [o \in Objects |-> o]
\* what a thread would observe if it ran alone
RECURSIVE Alone(_, _, _)
Alone(ops, own, out) ==
    IF ops = <<>> THEN out
    ELSE LET op == Head(ops) IN
         CASE op = "read" -> Alone(Tail(ops), own, Append(out, 0))
           [] op = "take" -> Alone(Tail(ops), 0, Append(out, 0))
           [] OTHER -> Alone(Tail(ops), own + 10, Append(out, own + 10))
Source(t, op) == IF op = "change" THEN home[t] ELSE 0
Begin(t) == \E op \in Ops :
    /\ pc[t] = "idle" /\ Len(hist[t]) < Rounds
    /\ hist' = [hist EXCEPT ![t] = Append(@, op)]
    /\ pc' = [pc EXCEPT ![t] = op]
    /\ LET v == val[Source(t, op)] IN IF Scratch = "static" THEN buf' = v /\ UNCHANGED reg ELSE reg' = [reg EXCEPT ![t] = v] /\ UNCHANGED buf
    /\ val' = IF Scratch = "const" /\ op = "read" THEN [val EXCEPT ![0] = 99] ELSE val
    /\ UNCHANGED <<told, home>>
Work(t) ==
    /\ pc[t] \in Ops
    /\ LET r == IF Scratch = "static" THEN buf ELSE reg[t]
           v == IF pc[t] = "change" THEN r + 10 ELSE r IN
       /\ told' = [told EXCEPT ![t] = Append(@, v)]
       /\ IF Scratch = "shared" /\ pc[t] = "take" THEN home' = [home EXCEPT ![t] = 0] /\ UNCHANGED val
          ELSE /\ UNCHANGED home
               /\ val' = CASE pc[t] = "read" -> IF Scratch = "const" THEN [val EXCEPT ![0] = r] ELSE val
                           [] OTHER -> [val EXCEPT ![home[t]] = v]
    /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ UNCHANGED <<reg, buf, hist>>
Next == \E t \in Threads : Begin(t) \/ Work(t)
Spec == Init /\ [][Next]_vars
\* every thread observes exactly what it would observe alone
Finished(t) == SubSeq(hist[t], 1, Len(told[t]))
Sequential == \A t \in Threads : told[t] = Alone(Finished(t), t, <<>>)
\* nothing but a thread's own object changes
OnlyOwn == [][\A o \in Objects : val'[o] # val[o] => \E t \in Threads : o = home[t] /\ pc[t] \in {"take", "change"} /\ pc'[t] = "idle"]_vars
SharedKept == Scratch = "none" => val[0] = 0
=============================================================================
