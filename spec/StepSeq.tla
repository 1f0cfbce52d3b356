------------------------------- MODULE StepSeq -------------------------------
(* The modifying operations of strings and vectors as sequences of small steps  *)
(* on cells of memory, the way the library carries them out:                    *)
(*                                                                              *)
(*   in place      copy the argument behind the end, (undo if a copy throws),   *)
(*                 rotate it to its position, destroy what is left over, set    *)
(*                 the size;                                                    *)
(*   reallocating  allocate (may fail), copy the argument into the new block    *)
(*                 while the old one is still intact, move the old elements,    *)
(*                 destroy and give back the old block;                         *)
(*   erasing       move the tail down one by one, destroy the rest.             *)
(*                                                                              *)
(* It is checked here that these algorithms implement the abstract effect of    *)
(* PtlSeq (for every argument, including those that refer into the modified     *)
(* object, and for every copy that throws), construct only in dead cells, read  *)
(* and destroy only live ones, leak nothing and keep the terminator; and that   *)
(* the plausible alternatives (Bug) do not - which is where the requests the    *)
(* conformance runs need come from: aliasing arguments before and after the     *)
(* position, a throw at every copy, empty ranges, exact fits.                   *)
EXTENDS PtlBase
CONSTANTS MaxLen, MaxCap, MaxArg, Term, Bug
VARIABLES m, siz, cap, t, tcap, pc, k, req, old, bad, had
vars == <<m, siz, cap, t, tcap, pc, k, req, old, bad, had>>   \* old, had: content and capacity before

N == MaxLen + MaxArg + 1
Dead == -1
Junk == -2          \* moved from (still alive)
Nul == 0
Cells == 0..N
Fresh == [x \in Cells |-> Dead]
Live(q) == q # Dead
Content(b, n) == [x \in 1..n |-> b[x - 1]]

\* where an argument comes from: elements <<1, i>> of the object itself or <<0, v>> from elsewhere
Sources(n) == {[x \in 1..q |-> <<0, 90 + x>>] : q \in 0..MaxArg}
              \cup {[x \in 1..(b - a) |-> <<1, a + x - 1>>] : a \in 0..n, b \in 0..n}
              \cup {[x \in 1..q |-> <<1, a>>] : q \in 1..MaxArg, a \in 0..(n - 1)}
Fits(s) == Len(s) <= MaxArg
Value(s, c) == [x \in DOMAIN s |-> IF s[x][1] = 0 THEN s[x][2] ELSE c[s[x][2] + 1]]
Requests(n) ==
    {[op |-> o, i |-> i, j |-> i, s |-> s] : o \in {"insert"}, i \in 0..n, s \in {z \in Sources(n) : Fits(z)}}
    \cup {[op |-> "assign", i |-> 0, j |-> n, s |-> s] : s \in {z \in Sources(n) : Fits(z)}}
    \cup {[op |-> "replace", i |-> r[1], j |-> r[2], s |-> s] : r \in {z \in (0..n) \X (0..n) : z[1] <= z[2]}, s \in {z \in Sources(n) : Fits(z)}}
    \cup {[op |-> "erase", i |-> r[1], j |-> r[2], s |-> <<>>] : r \in {z \in (0..n) \X (0..n) : z[1] <= z[2]}}

Init == /\ siz \in 0..MaxLen
        /\ cap \in siz..MaxCap
        /\ m = [x \in Cells |-> IF x < siz THEN 10 + x ELSE IF Term /\ x = siz THEN Nul ELSE Dead]
        /\ t = Fresh /\ tcap = 0 /\ k = 0 /\ bad = ""
        /\ old = Content(m, siz) /\ had = cap
        /\ pc = "start"
        /\ req \in {r \in Requests(siz) : Term \/ r.op # "replace"}

L == Len(req.s)
Want == Splice(old, req.i, req.j, Value(req.s, old))

\* --- primitive steps: what would be undefined behaviour is noted in bad
Flag(c, what) == bad' = IF bad # "" THEN bad ELSE IF c THEN what ELSE ""
Read(q) == m[q]
ReadBad(q) == ~Live(m[q]) \/ m[q] = Junk
Argument(x) == IF req.s[x][1] = 0 THEN req.s[x][2] ELSE Read(req.s[x][2])
ArgumentBad(x) == req.s[x][1] = 1 /\ (req.s[x][2] \notin Cells \/ ReadBad(req.s[x][2]))
Rotated(b, first, mid, last) ==
    [x \in Cells |-> IF x < first \/ x >= last THEN b[x]
                     ELSE IF x < first + (last - mid) THEN b[mid + (x - first)] ELSE b[first + (x - first - (last - mid))]]
\* raw memory of a string may be written to at any time, of a vector only constructed in
Occupied(b, x) == ~Term /\ Live(b[x])
Terminated(b, n) == IF Term THEN [b EXCEPT ![n] = Nul] ELSE b

Same == UNCHANGED <<siz, cap, t, tcap, req, old>>

Start == /\ pc = "start"
         /\ k' = 0 /\ Same /\ UNCHANGED <<m, bad>>
         /\ pc' = IF req.op = "erase" THEN (IF req.i = req.j /\ Bug # "selfmove" THEN "done" ELSE "down")
                  ELSE IF siz + L <= cap - (IF Bug = "edge" THEN 1 ELSE 0) + (IF Bug = "over" THEN 1 ELSE 0)
                       THEN (IF Bug = "gap" /\ req.op = "insert" THEN "gap" ELSE "copy")
                  ELSE "alloc"

\* ------------------------------------------------------------- in place
\* the wrong way: make room first (moves the elements an aliasing argument refers to)
Gap == /\ pc = "gap"
       /\ m' = [x \in Cells |-> IF x >= req.i + L /\ x < siz + L THEN m[x - L] ELSE IF x >= req.i /\ x < req.i + L /\ x < siz THEN Junk ELSE m[x]]
       /\ pc' = "fill" /\ UNCHANGED k /\ Same /\ UNCHANGED bad
Fill == /\ pc = "fill"
        /\ IF k < L
           THEN /\ Flag(ArgumentBad(k + 1), "read")
                /\ m' = [m EXCEPT ![req.i + k] = Argument(k + 1)]
                /\ k' = k + 1 /\ pc' = "fill" /\ Same
           ELSE /\ m' = Terminated(m, siz + L) /\ siz' = siz + L /\ pc' = "done"
                /\ UNCHANGED <<k, cap, t, tcap, req, old, bad>>
Copy == /\ pc = "copy" /\ k < L
        /\ Flag(ArgumentBad(k + 1) \/ Occupied(m, siz + k) \/ siz + k >= cap, "construct")
        /\ m' = [m EXCEPT ![siz + k] = Argument(k + 1)]
        /\ k' = k + 1 /\ pc' = "copy" /\ Same
\* copying element k throws
Throw == /\ pc = "copy" /\ k < L
         /\ pc' = IF Bug = "noundo" THEN "failed" ELSE "undo"
         /\ UNCHANGED <<m, k, bad>> /\ Same
Undo == /\ pc = "undo"
        /\ Flag(\E x \in siz..(siz + k - 1) : ~Live(m[x]), "destroy")
        /\ m' = Terminated([x \in Cells |-> IF x >= siz /\ x < siz + k THEN Dead ELSE m[x]], siz)
        /\ pc' = "failed" /\ UNCHANGED k /\ Same
Rotate == /\ pc = "copy" /\ k = L
          /\ IF req.op = "replace"
             THEN \* the erased part is overwritten by what follows it, then the argument is rotated in
                  LET b == [x \in Cells |-> IF x >= req.i /\ x < siz + L - (req.j - req.i) THEN m[x + (req.j - req.i)] ELSE m[x]]
                      mid == siz - (req.j - req.i)
                      n == siz + L - (req.j - req.i)
                  IN m' = Terminated(Rotated(b, req.i, mid, n), n) /\ siz' = n
             ELSE IF req.op = "assign"
             THEN LET b == Rotated(m, 0, siz, siz + L)
                  IN m' = Terminated([x \in Cells |-> IF ~Term /\ Bug # "leftover" /\ x >= L /\ x < L + siz THEN Dead ELSE b[x]], L) /\ siz' = L
             ELSE m' = Terminated(Rotated(m, req.i, siz, siz + L), siz + L) /\ siz' = siz + L
          /\ pc' = "done" /\ UNCHANGED <<k, cap, t, tcap, req, old, bad>>

\* ------------------------------------------------------------- erasing
Down == /\ pc = "down"
        /\ LET d == req.j - req.i IN
           IF req.j + k < siz
           THEN /\ Flag(ReadBad(req.j + k), "read")
                /\ m' = IF Term THEN [m EXCEPT ![req.i + k] = Read(req.j + k)]
                        ELSE [[m EXCEPT ![req.i + k] = Read(req.j + k)] EXCEPT ![req.j + k] = Junk]
                /\ k' = k + 1 /\ pc' = "down" /\ Same
           ELSE /\ m' = Terminated([x \in Cells |-> IF ~Term /\ Bug # "leftover" /\ x >= siz - d /\ x < siz THEN Dead ELSE m[x]], siz - d)
                /\ siz' = siz - d /\ pc' = "done"
                /\ UNCHANGED <<k, cap, t, tcap, req, old, bad>>

\* ------------------------------------------------------------- reallocating
NewSize == siz - (req.j - req.i) + L
Alloc == /\ pc = "alloc"
         /\ tcap' = IF req.op = "insert" THEN siz + Max2(siz, L) ELSE NewSize
         /\ t' = Fresh
         /\ pc' = IF Bug = "movefirst" THEN "move" ELSE "tcopy"
         /\ k' = 0 /\ UNCHANGED <<m, siz, cap, req, old, bad>>
AllocFails == /\ pc = "alloc" /\ pc' = "failed" /\ UNCHANGED <<m, k, bad>> /\ Same
TCopy == /\ pc = "tcopy"
         /\ IF k < L
            THEN /\ Flag(ArgumentBad(k + 1) \/ Occupied(t, req.i + k) \/ req.i + k >= tcap, "construct")
                 /\ t' = [t EXCEPT ![req.i + k] = Argument(k + 1)]
                 /\ k' = k + 1 /\ pc' = "tcopy"
            ELSE /\ k' = 0 /\ UNCHANGED <<t, bad>>
                 /\ pc' = IF Bug = "movefirst" THEN "adopt" ELSE "move"
         /\ UNCHANGED <<m, siz, cap, tcap, req, old>>
TThrow == /\ pc = "tcopy" /\ k < L
          /\ t' = Fresh /\ tcap' = 0 /\ pc' = "failed"
          /\ UNCHANGED <<m, siz, cap, k, req, old, bad>>
\* the elements before i and from j on are moved over
Kept == [x \in 1..(siz - (req.j - req.i)) |-> IF x <= req.i THEN <<x - 1, x - 1>> ELSE <<x - 1 + (req.j - req.i), x - 1 + L>>]
Move == /\ pc = "move"
        /\ IF k < Len(Kept)
           THEN /\ Flag(ReadBad(Kept[k + 1][1]) \/ Occupied(t, Kept[k + 1][2]) \/ Kept[k + 1][2] >= tcap, "move")
                /\ t' = [t EXCEPT ![Kept[k + 1][2]] = Read(Kept[k + 1][1])]
                /\ m' = IF Term THEN m ELSE [m EXCEPT ![Kept[k + 1][1]] = Junk]
                /\ k' = k + 1 /\ pc' = "move"
           ELSE k' = 0 /\ pc' = (IF Bug = "movefirst" THEN "tcopy" ELSE "adopt") /\ UNCHANGED <<m, t, bad>>
        /\ UNCHANGED <<siz, cap, tcap, req, old>>
Adopt == /\ pc = "adopt"
         /\ Flag(\E x \in 0..(siz - 1) : ~Live(m[x]), "destroy")
         /\ m' = Terminated(t, NewSize) /\ siz' = NewSize /\ cap' = tcap /\ t' = Fresh /\ tcap' = 0
         /\ pc' = "done" /\ UNCHANGED <<k, req, old>>

Stop == pc \in {"done", "failed"} /\ UNCHANGED <<m, siz, cap, t, tcap, pc, k, req, old, bad>>
Step == Start \/ Gap \/ Fill \/ Copy \/ Throw \/ Undo \/ Rotate \/ Down \/ Alloc \/ AllocFails \/ TCopy \/ TThrow \/ Move \/ Adopt \/ Stop
Next == Step /\ UNCHANGED had
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------- properties
NoUB == bad = ""
Refines == pc = "done" => Content(m, siz) = Want
Strong == pc = "failed" => Content(m, siz) = old
Within == pc \in {"done", "failed"} => siz <= cap
\* every cell up to the size is alive, none behind it
Neat == pc \in {"done", "failed"} => \A x \in Cells : (x < siz => Live(m[x]) /\ m[x] # Junk) /\ (~Term /\ x >= siz => ~Live(m[x]))
Ended == Term /\ pc \in {"done", "failed"} => m[siz] = Nul
\* nothing is reallocated that still fits
Stays == pc = "done" /\ req.op \in {"insert", "erase"} /\ siz <= had => cap = had
Terminates == <>(pc \in {"done", "failed"})
=============================================================================
