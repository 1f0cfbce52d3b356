------------------------------ MODULE PtlStream ------------------------------
(* One stream, used for output and input: what is written to it is what will be *)
(* read from it.  Bitsets of N bits, strings and string_refs are written with   *)
(* every kind of formatting, and bitsets are read.                              *)
(*   ch     characters written but not yet read                                 *)
(*   st     the error flags that are set, mask: those that raise an exception   *)
(*   w, fill, adj   field width, fill character, adjustment; skip: skipws       *)
(*   room   characters the sink still accepts, -1: any number                   *)
(*   bits, text     the values of the objects                                   *)
EXTENDS PtlBits

Pad(c, T) == LET n == Max2(c.w - Len(T), 0)
                 P == [k \in 1..n |-> c.fill]
             IN IF c.adj = "left" THEN T \o P ELSE P \o T
Good(c) == c.st = {}
\* a formatted output of the characters T
Insert(c, T) == LET all == Pad(c, T)
                 n == IF c.room < 0 THEN Len(all) ELSE Min2(Len(all), c.room)
             IN [c EXCEPT !.ch = @ \o Take(all, n), !.room = IF @ < 0 THEN @ ELSE @ - n, !.w = 0, !.st = IF n < Len(all) THEN {"bad"} ELSE {}]
\* input of a bitset of N > 0 bits into object o
Get(c, o, N) == LET k == Skipped(c.ch, IF c.skip = 1 THEN "" ELSE "noskipws")
                    n == DigitsAt(c.ch, k, N)
                    end == k + n = Len(c.ch) /\ n < N
                IN [c EXCEPT !.ch = SubSeq(@, k + n + 1, Len(@)), !.bits[o] = IF n = 0 THEN @ ELSE ReadValue(c.ch, k, n),
                             !.st = (IF n = 0 THEN {"fail"} ELSE {}) \cup (IF end THEN {"eof"} ELSE {})]
\* requests on a stream that is not good change nothing but the flags
Blocked(e, c) == e.op \in {"put", "get"} /\ ~Good(c)
Written(e, c, N) == CASE e.ov = "bits" -> Printed(c.bits[e.o], N) [] OTHER -> c.text[e.o]
Effect2(e, c, N) ==
    IF Blocked(e, c) THEN c ELSE
    CASE e.op = "put"   -> Insert(c, Written(e, c, N))
      [] e.op = "get"   -> Get(c, e.o, N)
      [] e.op = "width" -> [c EXCEPT !.w = e.v]
      [] e.op = "fill"  -> [c EXCEPT !.fill = e.v]
      [] e.op = "adj"   -> [c EXCEPT !.adj = e.ov]
      [] e.op = "skip"  -> [c EXCEPT !.skip = e.v]
      [] e.op = "flags" -> [c EXCEPT !.fl = e.v]
      [] e.op = "feed"  -> [c EXCEPT !.ch = @ \o e.text]
      [] e.op = "room"  -> [c EXCEPT !.room = e.v]
      [] e.op = "clear" -> [c EXCEPT !.st = {}]
      [] e.op = "state" -> [c EXCEPT !.st = @ \cup {e.ov}]
      [] e.op = "mask"  -> [c EXCEPT !.mask = Range(e.ms)]
      [] e.op = "bits"  -> [c EXCEPT !.bits[e.o] = Range(e.text)]
      [] e.op = "text"  -> [c EXCEPT !.text[e.o] = e.text]
      [] OTHER -> c
\* requests that end with a flag set that is in the mask raise an exception
MayRaise == {"put", "get", "state", "mask"}
Raises(e, c, N) == e.op \in MayRaise /\ LET d == Effect2(e, c, N) IN d.st \cap d.mask # {}
=============================================================================
