------------------------------ MODULE StepTree ------------------------------
(* How a slot that owns a node is assigned: program of single steps on counted   *)
(* references.  Nodes have one slot each (0 empty, otherwise a node), the slots  *)
(* of the roots are 1..NR; giving up a reference may end a node, which gives up  *)
(* its own slot in turn.  dst := src by copy or by move, where src may lie in a  *)
(* node that only dst keeps alive.  Checked: no slot of an ended node is read or *)
(* written, the counts are exact, all that is unreachable has ended, and dst     *)
(* ends with what src held at the start.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NR, NN, Bug
VARIABLES slot, cnt, live, dst, src, move, tmp, want, work, pc, bad
vars == <<slot, cnt, live, dst, src, move, tmp, want, work, pc, bad>>
RootSlots == 1..NR
Nodes == (NR + 1)..(NR + NN)
All == RootSlots \cup Nodes
RECURSIVE Reach(_, _)
Reach(s, S) == LET T == (S \cup {s[x] : x \in S}) \ {0} IN IF T = S THEN S ELSE Reach(s, T)
In(s, L, n) == Cardinality({x \in L : s[x] = n})
Init ==
    /\ slot \in [All -> Nodes \cup {0}]
    /\ \A n \in Nodes : n \notin Reach(slot, {slot[n]} \ {0})
    /\ live = RootSlots \cup Reach(slot, {slot[r] : r \in RootSlots} \ {0})
    /\ \A n \in Nodes \ live : slot[n] = 0
    /\ cnt = [n \in Nodes |-> In(slot, live, n)]
    /\ dst \in live /\ src \in live /\ move \in BOOLEAN
    /\ slot[src] # 0 => dst \notin Reach(slot, {slot[src]})
    /\ tmp = 0 /\ want = slot[src] /\ work = 0 /\ pc = "start" /\ bad = ""
Use(x) == IF x \in live THEN bad ELSE "slot of an ended node"
Rest == UNCHANGED <<dst, src, move, want>>
Go(l) == pc' = l
\* dst is given up; what it held is left in work
GiveUp(next) == /\ work' = slot[dst] /\ slot' = [slot EXCEPT ![dst] = 0] /\ bad' = Use(dst) /\ Go(next) /\ UNCHANGED <<cnt, live, tmp>>
\* one reference less to work
Release(next) ==
    IF work = 0 THEN Go(next) /\ UNCHANGED <<slot, cnt, live, tmp, work, bad>>
    ELSE /\ cnt' = [cnt EXCEPT ![work] = @ - 1]
         /\ IF cnt[work] = 1 THEN live' = live \ {work} /\ work' = slot[work] /\ slot' = [slot EXCEPT ![work] = 0]
            ELSE work' = 0 /\ UNCHANGED <<live, slot>>
         /\ UNCHANGED <<tmp, bad, pc>>
Take(next) ==
    /\ tmp' = slot[src] /\ bad' = Use(src)
    /\ IF move THEN slot' = [slot EXCEPT ![src] = 0] /\ UNCHANGED cnt
       ELSE UNCHANGED slot /\ cnt' = [n \in Nodes |-> cnt[n] + IF n = slot[src] THEN 1 ELSE 0]
    /\ Go(next) /\ UNCHANGED <<live, work>>
Put(next) == /\ slot' = [slot EXCEPT ![dst] = tmp] /\ tmp' = 0 /\ bad' = Use(dst) /\ Go(next) /\ UNCHANGED <<cnt, live, work>>
First == Bug = "releasefirst"
Next == /\ Rest
        /\ CASE pc = "start" -> IF dst = src /\ Bug # "selfmove" THEN Go("done") /\ UNCHANGED <<slot, cnt, live, tmp, work, bad>>
                                ELSE IF First \/ Bug = "selfmove" THEN GiveUp("release") ELSE Take("give")
             [] pc = "give" -> GiveUp("put")
             [] pc = "put" -> Put(IF First \/ Bug = "selfmove" THEN "done" ELSE IF Bug = "leak" THEN "done" ELSE "release")
             [] pc = "release" -> Release(IF First \/ Bug = "selfmove" THEN "late" ELSE "done")
             [] pc = "late" -> Take("put")
             [] OTHER -> pc = "done" /\ UNCHANGED <<slot, cnt, live, tmp, work, pc, bad>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NoUB == bad = "" /\ \A n \in Nodes : cnt[n] >= 0
Neat == pc = "done" => /\ live = RootSlots \cup Reach(slot, {slot[r] : r \in RootSlots} \ {0})
                       /\ \A n \in Nodes : cnt[n] = In(slot, live, n)
Taken == pc = "done" /\ dst \in live => slot[dst] = want
Ends == <>(pc = "done")
=============================================================================
