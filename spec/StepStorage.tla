----------------------------- MODULE StepStorage -----------------------------
(* The storage of ptl::string: a union of an inline representation (size and    *)
(* characters) and a heap representation (pointer, capacity and size), told     *)
(* apart by the deallocator, which also belongs to the module that allocated    *)
(* the block.  The inline size overlaps the heap pointer, so the order in which *)
(* the members are read and written matters.                                    *)
(*                                                                              *)
(* Moving, swapping, shrinking and growing are programs of single loads and     *)
(* stores; modules 1 and 2 run them on objects either of them created.          *)
(* Checked: a member is only read while it is the valid one, every block is     *)
(* owned by exactly one object, is given back exactly once and to the module    *)
(* it came from, and the texts end up where they belong.                        *)
EXTENDS PtlBase
CONSTANTS Bug
VARIABLES del, u, heap, reg, want, prog, pc, bad, who
vars == <<del, u, heap, reg, want, prog, pc, bad, who>>
Obj == 1..2
Short == 0..1                \* texts: 0 empty, 1 short, others need the heap
Long == 2..3
\* u[o]: active member: "sso" (text) or "heap" (block); "?" while neither is valid
SSO(x) == [k |-> "sso", t |-> x, b |-> 0]
Heap(b) == [k |-> "heap", t |-> 0, b |-> b]
Blocks == 1..4
Free == [by |-> 0, t |-> 0]
Text(o) == IF del[o] = 0 THEN u[o].t ELSE heap[u[o].b].t

Init == /\ \E k \in [Obj -> {"empty", "short", "long", "spare"}] :
             /\ \E m \in [Obj -> 1..2] :
                  /\ del = [o \in Obj |-> IF k[o] \in {"long", "spare"} THEN m[o] ELSE 0]
                  /\ u = [o \in Obj |-> IF k[o] = "empty" THEN SSO(0) ELSE IF k[o] = "short" THEN SSO(10 + o) ELSE Heap(o)]
                  /\ heap = [b \in Blocks |-> IF b \in Obj /\ k[b] \in {"long", "spare"} THEN [by |-> m[b], t |-> (IF k[b] = "long" THEN 20 ELSE 10) + b] ELSE Free]
        /\ reg = [u |-> SSO(0), del |-> 0, b |-> 0, t |-> 0]
        /\ want = <<0, 0>> /\ prog = <<>> /\ pc = "start" /\ bad = "" /\ who \in 1..2

\* instructions
MoveAssign(o, p) ==
    IF o = p THEN <<>>
    ELSE (IF del[o] # 0 THEN <<<<"give back", o, o>>>> ELSE <<>>)
         \o (IF Bug = "ownmodule" /\ del[p] # 0 THEN <<<<"del me", o, p>>>> ELSE <<<<"del of", o, p>>>>)
         \o (IF del[p] # 0 THEN (IF Bug = "notaken" THEN <<<<"heap of", o, p>>>> ELSE <<<<"heap of", o, p>>, <<"clear", p, p>>>>) ELSE <<<<"sso of", o, p>>>>)
Swap(o, p) ==
    IF o = p THEN <<>>
    ELSE IF del[o] # 0 /\ del[p] # 0
    THEN <<<<"save heap", o, o>>, <<"heap of", o, p>>, <<"restore heap", p, p>>>> \o (IF Bug = "keepdel" THEN <<>> ELSE <<<<"swap del", o, p>>>>)
    ELSE IF del[o] = 0 /\ del[p] = 0
    THEN <<<<"save sso", o, o>>, <<"sso of", o, p>>, <<"restore sso", p, p>>>>
    ELSE LET h == IF del[o] # 0 THEN o ELSE p
             s == IF del[o] # 0 THEN p ELSE o
         IN (IF Bug = "order" THEN <<<<"sso of", h, s>>, <<"save heap", h, h>>>> ELSE <<<<"save heap", h, h>>, <<"sso of", h, s>>>>)
            \o <<<<"restore heap", s, s>>>> \o <<<<"swap del", o, p>>>>
\* from the heap back into the object if the text is short
Shrink(o) == IF del[o] = 0 \/ heap[u[o].b].t >= 20 THEN <<>>
             ELSE IF Bug = "freefirst" THEN <<<<"save ptr", o, o>>, <<"give back saved", o, o>>, <<"copy in", o, o>>, <<"del 0", o, o>>>>
             ELSE IF Bug = "nodel" THEN <<<<"save ptr", o, o>>, <<"copy in", o, o>>, <<"give back saved", o, o>>>>
             ELSE <<<<"save ptr", o, o>>, <<"copy in", o, o>>, <<"give back saved", o, o>>, <<"del 0", o, o>>>>
\* a new block for a longer text: allocated by the running module
Grow(o) == <<<<"alloc", o, o>>, <<"fill", o, o>>>>
           \o (IF del[o] # 0 THEN <<<<"give back", o, o>>>> ELSE <<>>)
           \o <<<<"adopt", o, o>>>>
Texts == [o \in Obj |-> Text(o)]
Start == /\ pc = "start"
         /\ \E o \in Obj, p \in Obj :
              \/ prog' = MoveAssign(o, p) /\ want' = IF o = p THEN Texts ELSE [Texts EXCEPT ![o] = Text(p), ![p] = IF del[p] # 0 THEN 0 ELSE Text(p)]
              \/ prog' = Swap(o, p) /\ want' = [Texts EXCEPT ![o] = Text(p), ![p] = Text(o)]
              \/ prog' = Shrink(o) /\ want' = Texts
              \/ prog' = Grow(o) /\ want' = [Texts EXCEPT ![o] = 30]
         /\ pc' = "run" /\ UNCHANGED <<del, u, heap, reg, bad, who>>

I == Head(prog)
O == I[2]
P == I[3]
Flag(c, what) == bad' = IF bad # "" THEN bad ELSE IF c THEN what ELSE ""
GiveBack(b, by) == heap' = [heap EXCEPT ![b] = Free]
\* reading the heap member
HeapBad(x) == x.k # "heap"
SsoBad(x) == x.k # "sso"
FreeBlock == CHOOSE b \in Blocks : heap[b] = Free
Run == /\ pc = "run" /\ prog # <<>> /\ prog' = Tail(prog)
       /\ (CASE I[1] = "give back" -> IF HeapBad(u[O]) THEN Flag(TRUE, "heap") /\ UNCHANGED <<del, u, heap, reg>>
                                      ELSE GiveBack(u[O].b, del[O]) /\ Flag(heap[u[O].b] = Free \/ heap[u[O].b].by # del[O], "give back") /\ UNCHANGED <<del, u, reg>>
             [] I[1] = "del of" -> del' = [del EXCEPT ![O] = del[P]] /\ UNCHANGED <<u, heap, reg, bad>>
             [] I[1] = "del me" -> del' = [del EXCEPT ![O] = who] /\ UNCHANGED <<u, heap, reg, bad>>
             [] I[1] = "del 0" -> del' = [del EXCEPT ![O] = 0] /\ UNCHANGED <<u, heap, reg, bad>>
             [] I[1] = "swap del" -> del' = [del EXCEPT ![O] = del[P], ![P] = del[O]] /\ UNCHANGED <<u, heap, reg, bad>>
             [] I[1] = "heap of" -> u' = [u EXCEPT ![O] = u[P]] /\ Flag(HeapBad(u[P]), "heap") /\ UNCHANGED <<del, heap, reg>>
             [] I[1] = "sso of" -> u' = [u EXCEPT ![O] = u[P]] /\ Flag(SsoBad(u[P]), "sso") /\ UNCHANGED <<del, heap, reg>>
             [] I[1] = "clear" -> u' = [u EXCEPT ![O] = SSO(0)] /\ del' = [del EXCEPT ![O] = 0] /\ UNCHANGED <<heap, reg, bad>>
             [] I[1] = "save heap" -> reg' = [reg EXCEPT !.u = u[O]] /\ Flag(HeapBad(u[O]), "heap") /\ UNCHANGED <<del, u, heap>>
             [] I[1] = "save sso" -> reg' = [reg EXCEPT !.u = u[O]] /\ Flag(SsoBad(u[O]), "sso") /\ UNCHANGED <<del, u, heap>>
             [] I[1] \in {"restore heap", "restore sso"} -> u' = [u EXCEPT ![O] = reg.u] /\ UNCHANGED <<del, heap, reg, bad>>
             [] I[1] = "save ptr" -> reg' = [reg EXCEPT !.b = u[O].b] /\ Flag(HeapBad(u[O]), "heap") /\ UNCHANGED <<del, u, heap>>
             [] I[1] = "copy in" -> u' = [u EXCEPT ![O] = SSO(heap[reg.b].t)] /\ Flag(heap[reg.b] = Free, "freed") /\ UNCHANGED <<del, heap, reg>>
             [] I[1] = "give back saved" -> GiveBack(reg.b, del[O]) /\ Flag(heap[reg.b] = Free \/ heap[reg.b].by # del[O], "give back") /\ UNCHANGED <<del, u, reg>>
             [] I[1] = "alloc" -> reg' = [reg EXCEPT !.b = FreeBlock] /\ heap' = [heap EXCEPT ![FreeBlock] = [by |-> who, t |-> 0]] /\ UNCHANGED <<del, u, bad>>
             [] I[1] = "fill" -> heap' = [heap EXCEPT ![reg.b].t = 30] /\ Flag(IF del[O] = 0 THEN SsoBad(u[O]) ELSE HeapBad(u[O]), "source") /\ UNCHANGED <<del, u, reg>>
             [] I[1] = "adopt" -> u' = [u EXCEPT ![O] = Heap(reg.b)] /\ del' = [del EXCEPT ![O] = who] /\ UNCHANGED <<heap, reg, bad>>)
       /\ UNCHANGED <<want, pc, who>>
End == pc = "run" /\ prog = <<>> /\ pc' = "done" /\ UNCHANGED <<del, u, heap, reg, want, prog, bad, who>>
\* and on with another operation, possibly of the other module
Again == /\ pc = "done" /\ Cardinality({b \in Blocks : heap[b] # Free}) <= 2
         /\ pc' = "start" /\ who' \in 1..2 /\ reg' = [u |-> SSO(0), del |-> 0, b |-> 0, t |-> 0]
         /\ UNCHANGED <<del, u, heap, want, prog, bad>>
Next == Start \/ Run \/ End \/ Again
Spec == Init /\ [][Next]_vars

NoUB == bad = ""
Rest == pc = "done" /\ bad = ""
Told == Rest => \A o \in Obj : del[o] = 0 <=> u[o].k = "sso"
Owned == Rest => /\ \A o \in Obj : del[o] # 0 => heap[u[o].b].by = del[o]
                 /\ \A b \in Blocks : heap[b] # Free => Cardinality({o \in Obj : del[o] # 0 /\ u[o].b = b}) = 1
Refines == Rest => \A o \in Obj : Text(o) = want[o]
=============================================================================
