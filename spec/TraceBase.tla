------------------------------ MODULE TraceBase ------------------------------
(* Skeleton of all trace specifications.  The file named by $TRACE holds one    *)
(* recorded script per line, [id, ty, par, ev]; every script is an independent  *)
(* initial state.  A script is accepted if all its events are consumed; a       *)
(* script that cannot be continued is a deadlock, and the rule that refused the *)
(* event is printed.                                                            *)
EXTENDS PtlBase, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
R(id, l, rule, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", id, l, rule>>) /\ FALSE
=============================================================================
