-------------------------------- MODULE PtlSum --------------------------------
(* Abstract semantics of ptl::optional and ptl::variant.  The abstract state of *)
(* an object is <<a, v>>: the active alternative (1-based; an optional has the  *)
(* alternatives 0 = empty and 1 = engaged) and its value (0 if empty).          *)
(* A request e: object o, second object p, alternative a, value v.              *)
EXTENDS PtlBase

None == <<0, 0>>
Default(opt) == IF opt THEN None ELSE <<1, 0>>       \* value-initialised first alternative

Stored(e, s, opt) ==      \* what a storing request puts into e.o
    CASE e.ov = "copy" /\ e.op \in {"create", "assign"} -> s[e.p]
      [] e.ov \in {"inner", "inner&&"} -> s[e.p]
      [] e.ov = "default" -> Default(opt)
      [] e.ov = "nullopt" -> None
      [] e.ov = "none"    -> <<e.a, 0>>
      [] OTHER            -> <<e.a, e.v>>

Effect(e, s, opt) ==
    LET o == e.o
        p == e.p
    IN CASE e.op \in {"create", "assign", "emplace", "foreign"} -> [s EXCEPT ![o] = Stored(e, s, opt)]
         [] e.op \in {"mvcreate", "mvassign"}        -> [s EXCEPT ![o] = s[p]]
         [] e.op = "reset"                           -> [s EXCEPT ![o] = None]
         [] e.op = "swap"                            -> [s EXCEPT ![o] = s[p], ![p] = s[o]]
         [] e.op = "write"                           -> [s EXCEPT ![o] = <<s[o][1], e.v>>]
         [] e.op = "visit" /\ e.thr = 2 /\ e.cat \in {1, 3} -> [s EXCEPT ![o] = <<s[o][1], e.v>>]
         [] OTHER -> s

\* objects whose value (not their alternative) is unspecified afterwards
Loose(e, s) == CASE e.op \in {"mvcreate", "mvassign"} /\ e.o # e.p -> {e.p}
                 [] e.ov = "inner&&" -> {e.p}
                 [] e.op = "read" /\ e.ov = "mvalue_or" -> {e.o}
                 [] OTHER -> {}
Agrees(x, y, loose) == x[1] = y[1] /\ (x[1] = 0 \/ loose \/ x[2] = y[2])

Failed(e, s, opt) == IF e.op = "create" THEN [s EXCEPT ![e.o] = Default(opt)] ELSE s

NoThrow(e) == e.op \in {"mvcreate", "mvassign", "swap", "reset", "end", "init"} \/ e.ov = "nullopt"

\* returned references: 1 = "refers to the object (element)", -1 = nothing to check
Returned(e) == IF e.op \in {"assign", "mvassign", "emplace"} THEN 1 ELSE -1

Const(cat) == Bool(cat \in {0, 2})
Moved(cat) == Bool(cat \in {2, 3})
=============================================================================
