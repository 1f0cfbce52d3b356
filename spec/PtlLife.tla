------------------------------- MODULE PtlLife -------------------------------
(* Lifetime of element objects.  alive is the set of addresses <<block, slot>>  *)
(* holding a live element; life events <<code, b, s, b2, s2>> report what the   *)
(* library did to the element at <<b, s>> (source <<b2, s2>>).                  *)
EXTENDS PtlBase, SequencesExt

LBad == {<<-1, -1>>}
LifeStep(alive, u) ==
    LET a == <<u[2], u[3]>>
        b == <<u[4], u[5]>>
    IN IF alive = LBad THEN LBad
       ELSE CASE u[1] = 0 -> IF a \notin alive THEN alive \cup {a} ELSE LBad                   \* construction
              [] u[1] \in {1, 2} -> IF a \notin alive /\ b \in alive THEN alive \cup {a} ELSE LBad \* from b
              [] u[1] = 3 -> IF a \in alive THEN alive \ {a} ELSE LBad                         \* destruction
              [] u[1] \in {4, 5, 8} -> IF a \in alive /\ b \in alive THEN alive ELSE LBad      \* assignment
              [] u[1] \in {6, 7} -> IF a \in alive THEN alive ELSE LBad                        \* write, read
              [] u[1] = 20 -> IF \A x \in alive : x[1] # u[2] THEN alive ELSE LBad             \* fresh block
              [] u[1] = 21 -> IF \A x \in alive : x[1] # u[2] THEN alive ELSE LBad             \* block released
              [] OTHER -> LBad
LifeSteps(alive, us) == FoldLeft(LifeStep, alive, us)

\* els: runs <<block, first slot, count, stride>> of the elements the containers report
Elements(els) == UNION {{<<els[k][1], els[k][2] + x * els[k][4]>> : x \in 0..(els[k][3] - 1)} : k \in DOMAIN els}
=============================================================================
