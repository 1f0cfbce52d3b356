------------------------------- MODULE PtlHeap -------------------------------
(* Ownership of heap buffers across modules.  heap is the set of live blocks   *)
(* <<id, module, family>>: the module and the function family (malloc/new/...)  *)
(* they came from.  A memory event is <<code, id, module, family>>: 0           *)
(* allocation, 1 release, 2 release of something that is not a live block,      *)
(* 3 failed allocation.                                                         *)
EXTENDS PtlBase, SequencesExt

Bad == {<<-1, -1, -1>>}
MemStep(h, m) ==
    LET b == <<m[2], m[3], m[4]>>
    IN IF h = Bad THEN Bad
       ELSE CASE m[1] = 0 -> IF \A x \in h : x[1] # m[2] THEN h \cup {b} ELSE Bad
              [] m[1] = 1 -> IF b \in h THEN h \ {b} ELSE Bad
              [] m[1] = 3 -> h
              [] OTHER -> Bad
MemSteps(h, ms) == FoldLeft(MemStep, h, ms)

\* every live block belongs to exactly one object
Owned(h, objs) ==
    LET os == {o \in DOMAIN objs : objs[o].b # 0}
    IN /\ {x[1] : x \in h} = {objs[o].b : o \in os}
       /\ \A o, q \in os : objs[o].b = objs[q].b => o = q
=============================================================================
