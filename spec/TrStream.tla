------------------------------- MODULE TrStream -------------------------------
(* Validates recorded uses of one stream.                                       *)
EXTENDS TraceBase, PtlStream
VARIABLES sc, l, n, c
vars == <<sc, l, n, c>>
Ev == Trace[sc].ev
Rule(name, ok) == R(Trace[sc].id, l, name, ok)
Init == sc \in 1..Len(Trace) /\ l = 1 /\ n = 0 /\ c = [st |-> {}]
Logged(e) == [ch |-> e.c.ch, st |-> Range(e.c.st), mask |-> Range(e.c.mask), w |-> e.c.w, fill |-> e.c.fill, adj |-> e.c.adj, skip |-> e.c.skip, fl |-> e.c.fl, room |-> e.c.room,
              bits |-> [o \in DOMAIN e.c.bits |-> Range(e.c.bits[o])], text |-> e.c.text]
Step(e) ==
    /\ e.op # "init"
    /\ Rule("crash", e.op # "crash")
    /\ LET d == Effect2(e, c, n)
           g == Logged(e)
           blocked == Blocked(e, c)
           fails == blocked \/ d.st # {}
       IN /\ Rule("characters on the stream", g.ch = d.ch /\ g.room = d.room)
          /\ Rule("value read", g.bits = d.bits)
          /\ Rule("texts", g.text = d.text)
          \* how the flags of a stream that already failed grow is the stream's own affair; with N = 0 there is nothing to read
          /\ Rule("state of the stream", IF blocked THEN c.st \subseteq g.st /\ g.st \subseteq c.st \cup {"fail"} ELSE g.st = d.st)
          /\ Rule("exception of the stream", e.x = "ios" \/ (e.x = "" /\ (blocked \/ ~Raises(e, c, n))))
          /\ Rule("exception without cause", e.x = "ios" => e.op \in MayRaise /\ g.st \cap g.mask # {})
          /\ Rule("field width", e.op = "get" \/ fails \/ g.w = d.w)
          /\ Rule("formatting of the stream", g.fill = d.fill /\ g.adj = d.adj /\ g.skip = d.skip /\ g.mask = d.mask /\ g.fl = d.fl)
          /\ Rule("the stream is returned", e.op \in {"put", "get"} /\ e.x = "" => e.same = 1)
          /\ c' = g
    /\ UNCHANGED n
Start(e) == e.op = "init" /\ n' = e.n /\ c' = Logged(e)
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Done \/ (l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED sc /\ LET e == Ev[l] IN Start(e) \/ Step(e))
Spec == Init /\ [][Next]_vars
=============================================================================
