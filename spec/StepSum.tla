------------------------------- MODULE StepSum -------------------------------
(* Assignment, emplacement and swap of optional and variant as sequences of     *)
(* steps on storage: constructing, assigning, destroying an alternative, and    *)
(* setting the tag that says which alternative is alive.  Copying may throw at  *)
(* any step, moving may not.  Cells 1 and 2 are objects, 3 is a temporary       *)
(* object, 4 a plain value outside.                                             *)
(*                                                                              *)
(* Checked: the tag of an object always says what lives in it once an operation *)
(* ended, normally or by an exception; nothing is constructed over a live       *)
(* value, nothing read or destroyed that is not there; the operation has the    *)
(* effect of PtlSum or (if it failed) none - except that a failed emplace may   *)
(* leave an optional empty; whatever the operands are, including the object or  *)
(* its own value.                                                               *)
EXTENDS PtlBase
CONSTANTS Opt, Bug
VARIABLES cell, tag, prog, was, want, pc, bad, op
vars == <<cell, tag, prog, was, want, pc, bad, op>>
Types == IF Opt THEN {1} ELSE {1, 2}
Dead == [t |-> 0, v |-> 0]
Junk == 0
Value(t, v) == [t |-> t, v |-> v]

\* instructions: <<name, destination, source, type>>
Ins(n, d, s) == <<n, d, s, 0>>
Programs ==
    IF Opt THEN
      \* copy assignment from p, move assignment, from a plain value (4 or the own value o), emplace, reset, swap
      {<<"copy", o, p, IF o = p THEN <<>>
                       ELSE IF tag[p] = 0 THEN (IF tag[o] = 0 THEN <<>> ELSE <<Ins("destroy", o, 0), <<"tag", o, 0, 0>>>>)
                       ELSE IF tag[o] # 0 THEN <<Ins("assign", o, p)>>
                       ELSE IF Bug = "tagfirst" THEN <<Ins("tagof", o, p), Ins("copy", o, p)>>
                       ELSE <<Ins("copy", o, p), Ins("tagof", o, p)>>>> : o \in 1..2, p \in 1..2}
      \cup {<<"move", o, p, IF o = p /\ Bug # "self" THEN <<>>
                       ELSE IF tag[p] = 0 THEN (IF tag[o] = 0 THEN <<>> ELSE <<Ins("destroy", o, 0), <<"tag", o, 0, 0>>>>)
                       ELSE IF tag[o] # 0 THEN <<Ins("moveassign", o, p)>>
                       ELSE <<Ins("move", o, p), Ins("tagof", o, p)>>>> : o \in 1..2, p \in 1..2}
      \cup {<<"value", o, s, IF tag[o] # 0
                       THEN (IF Bug = "destroyfirst" THEN <<Ins("destroy", o, 0), Ins("copy", o, s)>> ELSE <<Ins("assign", o, s)>>)
                       ELSE <<Ins("copy", o, s), Ins("tagof", o, s)>>>> : o \in 1..2, s \in 1..4}
      \cup {<<"emplace", o, s, (IF tag[o] = 0 THEN <<>> ELSE IF Bug = "staletag" THEN <<Ins("destroy", o, 0)>> ELSE <<Ins("destroy", o, 0), <<"tag", o, 0, 0>>>>)
                       \o <<Ins("copy", o, s), Ins("tagof", o, s)>>>> : o \in 1..2, s \in {4}}
      \cup {<<"swap", o, p, IF o = p \/ (tag[o] = 0 /\ tag[p] = 0) THEN <<>>
                       ELSE IF tag[o] # 0 /\ tag[p] # 0 THEN <<Ins("swapvalues", o, p)>>
                       ELSE LET a == IF tag[o] # 0 THEN o ELSE p
                                b == IF tag[o] # 0 THEN p ELSE o
                            IN <<Ins("move", b, a), Ins("tagof", b, a)>> \o (IF Bug = "keep" THEN <<>> ELSE <<Ins("destroy", a, 0)>>) \o <<<<"tag", a, 0, 0>>>>>> : o \in 1..2, p \in 1..2}
    ELSE
      {<<"copy", o, p, IF o = p /\ Bug # "self" THEN <<>>
                       ELSE IF Bug = "destroyfirst" THEN <<Ins("destroy", o, 0), Ins("copy", o, p), Ins("tagof", o, p)>>
                       ELSE <<Ins("copy", 3, p), Ins("tagof", 3, p), Ins("destroy", o, 0), Ins("move", o, 3), Ins("tagof", o, 3), Ins("destroy", 3, 0), <<"tag", 3, 0, 0>>>>>> : o \in 1..2, p \in 1..2}
      \cup {<<"move", o, p, IF o = p /\ Bug # "self" THEN <<>>
                       ELSE IF Bug = "tagfirst" THEN <<Ins("tagof", o, p), Ins("destroy", o, 0), Ins("move", o, p)>>
                       ELSE <<Ins("destroy", o, 0), Ins("move", o, p), Ins("tagof", o, p)>>>> : o \in 1..2, p \in 1..2}
      \cup {<<"value", o, s, IF Bug = "inplace" THEN <<Ins("destroy", o, 0), Ins("copy", o, s), Ins("tagof", o, s)>>
                       ELSE <<Ins("copy", 3, s), Ins("tagof", 3, s), Ins("destroy", o, 0), Ins("move", o, 3), Ins("tagof", o, 3), Ins("destroy", 3, 0), <<"tag", 3, 0, 0>>>>>> : o \in 1..2, s \in {1, 2, 4}}
      \cup {<<"swap", o, p, IF o = p THEN <<>>
                       ELSE IF tag[o] = tag[p] THEN <<Ins("swapvalues", o, p)>>
                       ELSE <<Ins("move", 3, o), Ins("tagof", 3, o), Ins("destroy", o, 0), Ins("move", o, p), Ins("tagof", o, p)>>
                            \o (IF Bug = "keep" THEN <<>> ELSE <<Ins("destroy", p, 0)>>)
                            \o <<Ins("move", p, 3), Ins("tagof", p, 3), Ins("destroy", 3, 0), <<"tag", 3, 0, 0>>>>>> : o \in 1..2, p \in 1..2}

Init == /\ cell \in [1..4 -> {Dead} \cup {Value(t, 0) : t \in Types}]
        /\ cell[3] = Dead /\ cell[4].t # 0
        /\ ~Opt => cell[1].t # 0 /\ cell[2].t # 0
        /\ cell = [x \in 1..4 |-> IF cell[x].t = 0 THEN Dead ELSE cell[x]]
        /\ tag = [x \in 1..4 |-> cell[x].t]
        /\ was = cell /\ want = cell /\ pc = "number" /\ prog = <<>> /\ bad = "" /\ op = ""
\* give the values names
Number == /\ pc = "number"
          /\ cell' = [x \in 1..4 |-> IF cell[x].t = 0 THEN Dead ELSE Value(cell[x].t, 10 + x)]
          /\ was' = cell' /\ want' = cell' /\ pc' = "start" /\ UNCHANGED <<tag, prog, bad, op>>
Target(r) == CASE r[1] \in {"copy", "value", "emplace"} -> [cell EXCEPT ![r[2]] = cell[r[3]]]
               [] r[1] = "move" -> IF r[2] = r[3] THEN cell ELSE [cell EXCEPT ![r[2]] = cell[r[3]]]
               [] r[1] = "swap" -> [cell EXCEPT ![r[2]] = cell[r[3]], ![r[3]] = cell[r[2]]]
Start == /\ pc = "start"
         /\ \E r \in {x \in Programs : x[1] = "value" => cell[x[3]].t # 0} :
              /\ prog' = r[4] /\ want' = Target(r) /\ op' = <<r[1], r[2], r[3]>>
         /\ pc' = "run" /\ UNCHANGED <<cell, tag, was, bad>>

Flag(c, what) == bad' = IF bad # "" THEN bad ELSE IF c THEN what ELSE ""
I == Head(prog)
D == I[2]
S == I[3]
Broken(x) == tag[x] # cell[x].t \/ cell[x].t = 0 \/ cell[x].v = Junk
Run == /\ pc = "run" /\ prog # <<>>
       /\ prog' = Tail(prog)
       /\ (CASE I[1] = "copy" -> cell' = [cell EXCEPT ![D] = cell[S]] /\ tag' = tag /\ Flag(cell[D].t # 0 \/ Broken(S), "copy")
             [] I[1] = "move" -> cell' = [[cell EXCEPT ![D] = cell[S]] EXCEPT ![S].v = Junk] /\ tag' = tag /\ Flag(cell[D].t # 0 \/ Broken(S), "move")
             [] I[1] = "assign" -> cell' = [cell EXCEPT ![D] = cell[S]] /\ tag' = tag /\ Flag(cell[D].t # tag[D] \/ cell[D].t = 0 \/ Broken(S), "assign")
             [] I[1] = "moveassign" -> cell' = [[cell EXCEPT ![D] = cell[S]] EXCEPT ![S].v = Junk] /\ tag' = tag /\ Flag(cell[D].t # tag[D] \/ cell[D].t = 0 \/ Broken(S), "moveassign")
             [] I[1] = "swapvalues" -> cell' = [cell EXCEPT ![D] = cell[S], ![S] = cell[D]] /\ tag' = tag /\ Flag(cell[D].t # cell[S].t, "swap")
             [] I[1] = "destroy" -> cell' = [cell EXCEPT ![D] = Dead] /\ tag' = tag /\ Flag(cell[D].t # tag[D] \/ cell[D].t = 0, "destroy")
             [] I[1] = "tag" -> tag' = [tag EXCEPT ![D] = I[4]] /\ UNCHANGED <<cell, bad>>
             [] I[1] = "tagof" -> tag' = [tag EXCEPT ![D] = tag[S]] /\ UNCHANGED <<cell, bad>>)
       /\ UNCHANGED <<was, want, pc, op>>
\* a copy throws: locals are destroyed, the exception leaves the operation
Throw == /\ pc = "run" /\ prog # <<>> /\ I[1] \in {"copy", "assign"}
         /\ pc' = "failed" /\ prog' = <<>>
         /\ cell' = IF tag[3] # 0 THEN [cell EXCEPT ![3] = Dead] ELSE cell
         /\ tag' = [tag EXCEPT ![3] = 0]
         /\ UNCHANGED <<was, want, bad, op>>
End == /\ pc = "run" /\ prog = <<>> /\ pc' = "done" /\ UNCHANGED <<cell, tag, prog, was, want, bad, op>>
Stop == pc \in {"done", "failed"} /\ UNCHANGED vars
Next == Number \/ Start \/ Run \/ Throw \/ End \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoUB == bad = ""
AtRest == pc \in {"done", "failed"}
Tagged == AtRest => \A x \in 1..3 : tag[x] = cell[x].t
NoLeak == AtRest => cell[3] = Dead
\* objects the operation may leave unspecified
Loose == IF op[1] = "move" /\ op[2] # op[3] THEN {op[3]} ELSE {}
Refines == pc = "done" => \A x \in {1, 2, 4} \ Loose : cell[x] = want[x]
KeepsAlive == pc = "done" => \A x \in Loose : cell[x].t = was[x].t
Strong == pc = "failed" => \A x \in {1, 2, 4} : cell[x] = was[x] \/ (op[1] = "emplace" /\ x = op[2] /\ cell[x] = Dead)
NeverThrows == pc = "failed" => op[1] \notin {"move", "swap"}
Terminates == <>AtRest
=============================================================================
