---- MODULE StepTree_TTrace_1795071390 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, StepTree

_expression ==
    LET StepTree_TEExpression == INSTANCE StepTree_TEExpression
    IN StepTree_TEExpression!expression
----

_trace ==
    LET StepTree_TETrace == INSTANCE StepTree_TETrace
    IN StepTree_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        move = (FALSE)
        /\
        pc = ("put")
        /\
        bad = ("slot of an ended node")
        /\
        dst = (2)
        /\
        src = (3)
        /\
        tmp = (0)
        /\
        work = (0)
        /\
        want = (0)
        /\
        cnt = ((3 :> 0 @@ 4 :> 0 @@ 5 :> 0))
        /\
        slot = (<<0, 0, 0, 0, 0>>)
        /\
        live = ({1, 2})
    )
----

_init ==
    /\ bad = _TETrace[1].bad
    /\ src = _TETrace[1].src
    /\ tmp = _TETrace[1].tmp
    /\ work = _TETrace[1].work
    /\ pc = _TETrace[1].pc
    /\ slot = _TETrace[1].slot
    /\ dst = _TETrace[1].dst
    /\ cnt = _TETrace[1].cnt
    /\ move = _TETrace[1].move
    /\ want = _TETrace[1].want
    /\ live = _TETrace[1].live
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ bad  = _TETrace[i].bad
        /\ bad' = _TETrace[j].bad
        /\ src  = _TETrace[i].src
        /\ src' = _TETrace[j].src
        /\ tmp  = _TETrace[i].tmp
        /\ tmp' = _TETrace[j].tmp
        /\ work  = _TETrace[i].work
        /\ work' = _TETrace[j].work
        /\ pc  = _TETrace[i].pc
        /\ pc' = _TETrace[j].pc
        /\ slot  = _TETrace[i].slot
        /\ slot' = _TETrace[j].slot
        /\ dst  = _TETrace[i].dst
        /\ dst' = _TETrace[j].dst
        /\ cnt  = _TETrace[i].cnt
        /\ cnt' = _TETrace[j].cnt
        /\ move  = _TETrace[i].move
        /\ move' = _TETrace[j].move
        /\ want  = _TETrace[i].want
        /\ want' = _TETrace[j].want
        /\ live  = _TETrace[i].live
        /\ live' = _TETrace[j].live

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("StepTree_TTrace_1795071390.json", _TETrace)

=============================================================================

 Note that you can extract this module `StepTree_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `StepTree_TEExpression.tla` file takes precedence 
  over the module `StepTree_TEExpression` below).

---- MODULE StepTree_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, StepTree

expression == 
    [
        \* To hide variables of the `StepTree` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        bad |-> bad
        ,src |-> src
        ,tmp |-> tmp
        ,work |-> work
        ,pc |-> pc
        ,slot |-> slot
        ,dst |-> dst
        ,cnt |-> cnt
        ,move |-> move
        ,want |-> want
        ,live |-> live
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_badUnchanged |-> bad = bad'
        
        \* Format the `bad` variable as Json value.
        \* ,_badJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(bad)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_badModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].bad # _TETrace[s-1].bad
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE StepTree_TETrace ----
\*EXTENDS IOUtils, TLC, StepTree
\*
\*trace == IODeserialize("StepTree_TTrace_1795071390.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE StepTree_TETrace ----
EXTENDS TLC, StepTree

trace == 
    <<
    ([move |-> FALSE,pc |-> "start",bad |-> "",dst |-> 2,src |-> 3,tmp |-> 0,work |-> 0,want |-> 0,cnt |-> (3 :> 1 @@ 4 :> 0 @@ 5 :> 0),slot |-> <<0, 3, 0, 0, 0>>,live |-> {1, 2, 3}]),
    ([move |-> FALSE,pc |-> "release",bad |-> "",dst |-> 2,src |-> 3,tmp |-> 0,work |-> 3,want |-> 0,cnt |-> (3 :> 1 @@ 4 :> 0 @@ 5 :> 0),slot |-> <<0, 0, 0, 0, 0>>,live |-> {1, 2, 3}]),
    ([move |-> FALSE,pc |-> "release",bad |-> "",dst |-> 2,src |-> 3,tmp |-> 0,work |-> 0,want |-> 0,cnt |-> (3 :> 0 @@ 4 :> 0 @@ 5 :> 0),slot |-> <<0, 0, 0, 0, 0>>,live |-> {1, 2}]),
    ([move |-> FALSE,pc |-> "late",bad |-> "",dst |-> 2,src |-> 3,tmp |-> 0,work |-> 0,want |-> 0,cnt |-> (3 :> 0 @@ 4 :> 0 @@ 5 :> 0),slot |-> <<0, 0, 0, 0, 0>>,live |-> {1, 2}]),
    ([move |-> FALSE,pc |-> "put",bad |-> "slot of an ended node",dst |-> 2,src |-> 3,tmp |-> 0,work |-> 0,want |-> 0,cnt |-> (3 :> 0 @@ 4 :> 0 @@ 5 :> 0),slot |-> <<0, 0, 0, 0, 0>>,live |-> {1, 2}])
    >>
----


=============================================================================

---- CONFIG StepTree_TTrace_1795071390 ----
CONSTANTS
    NR = 2
    NN = 3
    Bug = "releasefirst"

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 06:56:36 UTC 2026