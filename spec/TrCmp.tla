-------------------------------- MODULE TrCmp --------------------------------
(* Validates recorded comparisons, hashes and output: every object created is   *)
(* compared with all earlier ones (and itself), in both directions; after a      *)
(* change every object with every other.  mem: the values stored; os: what each  *)
(* object denotes: <<memory, first, length>> for a part of a text, else all.     *)
EXTENDS TraceBase, PtlOrder
CONSTANT Aspects
VARIABLES sc, l, mem, os
vars == <<sc, l, mem, os>>
Ev == Trace[sc].ev
Rule(name, ok) == R(Trace[sc].id, l, name, ok)
Init == sc \in 1..Len(Trace) /\ l = 1 /\ mem = <<>> /\ os = <<>>
Denoted(m, o) == IF o[3] < 0 THEN m[o[1]] ELSE SubSeq(m[o[1]], o[2] + 1, o[2] + o[3])
Length(o) == IF o[3] < 0 THEN Len(mem[o[1]]) ELSE o[3]
Step(e) ==
    /\ Rule("crash", e.op # "crash")
    /\ CASE e.op = "new" -> mem' = Append(mem, e.key) /\ os' = Append(os, <<Len(mem) + 1, 0, -1>>)
         [] e.op = "sub" -> /\ e.from + e.len <= Length(os[e.a])
                            /\ UNCHANGED mem
                            /\ os' = Append(os, <<os[e.a][1], os[e.a][2] + e.from, e.len>>)
         [] e.op = "write" -> e.i < Length(os[e.a]) /\ UNCHANGED os /\ mem' = [mem EXCEPT ![os[e.a][1]][os[e.a][2] + e.i + 1] = e.v]
         [] e.op = "set" -> UNCHANGED os /\ mem' = [mem EXCEPT ![os[e.a][1]] = e.key]
         [] OTHER -> UNCHANGED <<mem, os>>
    /\ IF "order" \notin Aspects \/ e.op \notin {"new", "sub", "write", "set"} THEN TRUE ELSE
        LET ks == [k \in DOMAIN os' |-> Denoted(mem', os'[k])] IN
        /\ Rule("comparison", \A k \in DOMAIN e.cmp : LET q == e.cmp[k] IN Compared(q, ks[q[1]], ks[q[2]]))
        /\ Rule("hash", \A k \in DOMAIN e.cmp : LET q == e.cmp[k] IN Hashed(q, ks[q[1]], ks[q[2]]))
    /\ IF "output" \notin Aspects \/ e.op # "out" THEN TRUE ELSE Rule("output", e.text = Denoted(mem, os[e.a]) /\ e.same = 1)
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Done \/ (l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED sc /\ Step(Ev[l]))
Spec == Init /\ [][Next]_vars
=============================================================================
