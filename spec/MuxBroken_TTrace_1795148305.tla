---- MODULE MuxBroken_TTrace_1795148305 ----
EXTENDS MuxBroken, Sequences, TLCExt, Toolbox, Naturals, TLC

_expression ==
    LET MuxBroken_TEExpression == INSTANCE MuxBroken_TEExpression
    IN MuxBroken_TEExpression!expression
----

_trace ==
    LET MuxBroken_TETrace == INSTANCE MuxBroken_TETrace
    IN MuxBroken_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        next = ((0 :> 2 @@ 1 :> 1))
        /\
        cur = (<<>>)
        /\
        rc = ([s |-> 0, k |-> "slice", n |-> 0])
        /\
        wire = (<<<<"e", 1, 0>>>>)
        /\
        closing = (TRUE)
        /\
        last = ((0 :> 0 @@ 1 :> 0))
        /\
        marker = (1)
        /\
        eof = (FALSE)
        /\
        flushed = (0)
        /\
        out = ((0 :> <<>> @@ 1 :> <<>>))
        /\
        pend = ((0 :> <<<<"d", 0, 1>>>> @@ 1 :> <<>>))
    )
----

_init ==
    /\ wire = _TETrace[1].wire
    /\ cur = _TETrace[1].cur
    /\ out = _TETrace[1].out
    /\ pend = _TETrace[1].pend
    /\ closing = _TETrace[1].closing
    /\ rc = _TETrace[1].rc
    /\ marker = _TETrace[1].marker
    /\ last = _TETrace[1].last
    /\ next = _TETrace[1].next
    /\ eof = _TETrace[1].eof
    /\ flushed = _TETrace[1].flushed
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ wire  = _TETrace[i].wire
        /\ wire' = _TETrace[j].wire
        /\ cur  = _TETrace[i].cur
        /\ cur' = _TETrace[j].cur
        /\ out  = _TETrace[i].out
        /\ out' = _TETrace[j].out
        /\ pend  = _TETrace[i].pend
        /\ pend' = _TETrace[j].pend
        /\ closing  = _TETrace[i].closing
        /\ closing' = _TETrace[j].closing
        /\ rc  = _TETrace[i].rc
        /\ rc' = _TETrace[j].rc
        /\ marker  = _TETrace[i].marker
        /\ marker' = _TETrace[j].marker
        /\ last  = _TETrace[i].last
        /\ last' = _TETrace[j].last
        /\ next  = _TETrace[i].next
        /\ next' = _TETrace[j].next
        /\ eof  = _TETrace[i].eof
        /\ eof' = _TETrace[j].eof
        /\ flushed  = _TETrace[i].flushed
        /\ flushed' = _TETrace[j].flushed

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("MuxBroken_TTrace_1795148305.json", _TETrace)

=============================================================================

 Note that you can extract this module `MuxBroken_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `MuxBroken_TEExpression.tla` file takes precedence 
  over the module `MuxBroken_TEExpression` below).

---- MODULE MuxBroken_TEExpression ----
EXTENDS MuxBroken, Sequences, TLCExt, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `MuxBroken` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        wire |-> wire
        ,cur |-> cur
        ,out |-> out
        ,pend |-> pend
        ,closing |-> closing
        ,rc |-> rc
        ,marker |-> marker
        ,last |-> last
        ,next |-> next
        ,eof |-> eof
        ,flushed |-> flushed
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_wireUnchanged |-> wire = wire'
        
        \* Format the `wire` variable as Json value.
        \* ,_wireJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(wire)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_wireModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].wire # _TETrace[s-1].wire
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE MuxBroken_TETrace ----
\*EXTENDS MuxBroken, IOUtils, TLC
\*
\*trace == IODeserialize("MuxBroken_TTrace_1795148305.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE MuxBroken_TETrace ----
EXTENDS MuxBroken, TLC

trace == 
    <<
    ([next |-> (0 :> 1 @@ 1 :> 1),cur |-> <<>>,rc |-> [s |-> 0, k |-> "slice", n |-> 0],wire |-> <<>>,closing |-> FALSE,last |-> (0 :> 0 @@ 1 :> 0),marker |-> 0,eof |-> FALSE,flushed |-> 0,out |-> (0 :> <<>> @@ 1 :> <<>>),pend |-> (0 :> <<>> @@ 1 :> <<>>)]),
    ([next |-> (0 :> 2 @@ 1 :> 1),cur |-> <<>>,rc |-> [s |-> 0, k |-> "slice", n |-> 0],wire |-> <<>>,closing |-> FALSE,last |-> (0 :> 0 @@ 1 :> 0),marker |-> 0,eof |-> FALSE,flushed |-> 0,out |-> (0 :> <<>> @@ 1 :> <<>>),pend |-> (0 :> <<<<"d", 0, 1>>>> @@ 1 :> <<>>)]),
    ([next |-> (0 :> 2 @@ 1 :> 1),cur |-> <<>>,rc |-> [s |-> 0, k |-> "slice", n |-> 0],wire |-> <<>>,closing |-> TRUE,last |-> (0 :> 0 @@ 1 :> 0),marker |-> 0,eof |-> FALSE,flushed |-> 0,out |-> (0 :> <<>> @@ 1 :> <<>>),pend |-> (0 :> <<<<"d", 0, 1>>>> @@ 1 :> <<>>)]),
    ([next |-> (0 :> 2 @@ 1 :> 1),cur |-> <<>>,rc |-> [s |-> 0, k |-> "slice", n |-> 0],wire |-> <<<<"e", 1, 0>>>>,closing |-> TRUE,last |-> (0 :> 0 @@ 1 :> 0),marker |-> 1,eof |-> FALSE,flushed |-> 0,out |-> (0 :> <<>> @@ 1 :> <<>>),pend |-> (0 :> <<<<"d", 0, 1>>>> @@ 1 :> <<>>)])
    >>
----


=============================================================================

---- CONFIG MuxBroken_TTrace_1795148305 ----
CONSTANTS
    Amount = 5
    Chunk = 2
    LagChunk = 1
    Variance = 2
    MaxRoom = 4
    MaxPiece = 2
    May <- FullMay

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 04:18:25 UTC 2026