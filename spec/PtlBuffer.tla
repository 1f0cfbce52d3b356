------------------------------ MODULE PtlBuffer ------------------------------
(* How the buffer of a ptl::string / ptl::vector may evolve.  The state of an   *)
(* object is a record [c, n, e, cap, b, inl, nul, cs, al]: content, reported    *)
(* size, empty(), capacity(), heap block behind data() (0: none), data() inside *)
(* the object, the character at data()[size()], c_str() = data(), and data()    *)
(* modulo the alignment of the elements.                                        *)
EXTENDS PtlSeq

SSO == 22

StringOk(s) == /\ s.nul = 0 /\ s.cs = 1
               /\ s.n <= s.cap
               /\ (s.inl = 1) <=> (s.b = 0)
               /\ s.inl = 1 => s.cap = SSO
VectorOk(s) == /\ s.n <= s.cap
               /\ s.al = 0
               /\ s.inl = 0
               /\ s.cap > 0 => s.b > 0

Same(s, t) == s.cap = t.cap /\ s.b = t.b /\ s.inl = t.inl

Removing == {"erase", "pop", "clear"}
\* s: object before, t: object after, both of e.o
Keeps(e, s, t) ==
    /\ e.op \in Removing \cup {"write", "read", "huge"} => Same(s, t)
    /\ e.op = "resize" /\ t.n <= s.cap => Same(s, t)
    /\ e.op \in {"append", "insert"} /\ t.n <= s.cap => Same(s, t)
    /\ e.op = "grow" /\ t.n <= s.cap => Same(s, t)
    /\ e.op = "reserve" => /\ t.cap >= e.n
                           /\ e.n <= s.cap => Same(s, t)
    /\ e.op \in {"mvassign", "swap"} /\ e.o = e.p => Same(s, t)

\* a string that never needed more than SSO characters owns no heap memory
StringInline(e, s, t) ==
    /\ e.op \in {"create", "concat", "substr"} /\ t.n <= SSO => t.inl = 1
    /\ e.op \in {"assign", "append", "insert", "replace", "resize", "erase", "pop", "clear", "write", "grow"}
         /\ s.inl = 1 /\ t.n <= SSO => t.inl = 1
    /\ e.op = "reserve" /\ e.n <= SSO /\ s.inl = 1 => t.inl = 1
    /\ e.op = "shrink" => /\ t.n <= SSO => t.inl = 1
                          /\ t.cap <= s.cap

MinAlloc == 10
VectorShrinks(e, s, t) == e.op = "shrink" => t.cap <= Max2(s.cap, MinAlloc)

\* transferred buffers: moving and swapping must not turn an inline string into a heap string or vice versa
StringMoved(e, pre, post) ==
    /\ e.op \in {"mvcreate", "mvassign"} /\ e.o # e.p /\ pre[e.p].inl = 1 /\ (e.op = "mvcreate" \/ pre[e.o].inl = 1)
         => post[e.o].inl = 1
    /\ e.op = "mvsubstr" /\ pre[e.p].inl = 1 => post[e.o].inl = 1
    /\ e.op = "swap" /\ pre[e.o].inl = 1 /\ pre[e.p].inl = 1 => post[e.o].inl = 1 /\ post[e.p].inl = 1

\* one at a time appending reallocates at most logarithmically often
GrowthBound(n) == 12 + 3 * Log2(n + 1)
=============================================================================
