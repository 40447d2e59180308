---- MODULE RecodeBroken_TTrace_1795148731 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, RecodeBroken

_expression ==
    LET RecodeBroken_TEExpression == INSTANCE RecodeBroken_TEExpression
    IN RecodeBroken_TEExpression!expression
----

_trace ==
    LET RecodeBroken_TETrace == INSTANCE RecodeBroken_TETrace
    IN RecodeBroken_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        sub = (0)
        /\
        hist = (<<0, 0, 0, 0, 1>>)
        /\
        buf = ((0 :> 0 @@ 1 :> 0 @@ 2 :> 0 @@ 3 :> 0))
        /\
        last = ([room |-> 0, bytes |-> <<>>, ret |-> "OK", good |-> TRUE, before |-> 1, done |-> FALSE])
        /\
        di = (0)
        /\
        oi = (1)
        /\
        cmd = ([k |-> "none"])
        /\
        sent = (1)
    )
----

_init ==
    /\ oi = _TETrace[1].oi
    /\ sub = _TETrace[1].sub
    /\ di = _TETrace[1].di
    /\ cmd = _TETrace[1].cmd
    /\ hist = _TETrace[1].hist
    /\ last = _TETrace[1].last
    /\ buf = _TETrace[1].buf
    /\ sent = _TETrace[1].sent
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ oi  = _TETrace[i].oi
        /\ oi' = _TETrace[j].oi
        /\ sub  = _TETrace[i].sub
        /\ sub' = _TETrace[j].sub
        /\ di  = _TETrace[i].di
        /\ di' = _TETrace[j].di
        /\ cmd  = _TETrace[i].cmd
        /\ cmd' = _TETrace[j].cmd
        /\ hist  = _TETrace[i].hist
        /\ hist' = _TETrace[j].hist
        /\ last  = _TETrace[i].last
        /\ last' = _TETrace[j].last
        /\ buf  = _TETrace[i].buf
        /\ buf' = _TETrace[j].buf
        /\ sent  = _TETrace[i].sent
        /\ sent' = _TETrace[j].sent

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("RecodeBroken_TTrace_1795148731.json", _TETrace)

=============================================================================

 Note that you can extract this module `RecodeBroken_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `RecodeBroken_TEExpression.tla` file takes precedence 
  over the module `RecodeBroken_TEExpression` below).

---- MODULE RecodeBroken_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, RecodeBroken

expression == 
    [
        \* To hide variables of the `RecodeBroken` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        oi |-> oi
        ,sub |-> sub
        ,di |-> di
        ,cmd |-> cmd
        ,hist |-> hist
        ,last |-> last
        ,buf |-> buf
        ,sent |-> sent
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_oiUnchanged |-> oi = oi'
        
        \* Format the `oi` variable as Json value.
        \* ,_oiJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(oi)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_oiModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].oi # _TETrace[s-1].oi
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE RecodeBroken_TETrace ----
\*EXTENDS IOUtils, TLC, RecodeBroken
\*
\*trace == IODeserialize("RecodeBroken_TTrace_1795148731.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE RecodeBroken_TETrace ----
EXTENDS TLC, RecodeBroken

trace == 
    <<
    ([sub |-> 0,hist |-> <<>>,buf |-> (0 :> 0 @@ 1 :> 0 @@ 2 :> 0 @@ 3 :> 0),last |-> [room |-> 0, bytes |-> <<>>, ret |-> "OK", good |-> TRUE, before |-> 0, done |-> TRUE],di |-> 0,oi |-> 0,cmd |-> [k |-> "none"],sent |-> 0]),
    ([sub |-> 0,hist |-> <<0, 0, 0, 0>>,buf |-> (0 :> 0 @@ 1 :> 0 @@ 2 :> 0 @@ 3 :> 0),last |-> [room |-> 0, bytes |-> <<>>, ret |-> "OK", good |-> TRUE, before |-> 0, done |-> TRUE],di |-> 0,oi |-> 0,cmd |-> [n |-> 4, d |-> 1, k |-> "copy"],sent |-> 0]),
    ([sub |-> 3,hist |-> <<0, 0, 0, 0>>,buf |-> (0 :> 0 @@ 1 :> 0 @@ 2 :> 0 @@ 3 :> 0),last |-> [room |-> 1, bytes |-> <<0>>, ret |-> "NMO", good |-> TRUE, before |-> 0, done |-> FALSE],di |-> 3,oi |-> 1,cmd |-> [n |-> 4, d |-> 1, k |-> "copy"],sent |-> 1]),
    ([sub |-> 0,hist |-> <<0, 0, 0, 0>>,buf |-> (0 :> 0 @@ 1 :> 0 @@ 2 :> 0 @@ 3 :> 0),last |-> [room |-> 0, bytes |-> <<>>, ret |-> "OK", good |-> TRUE, before |-> 1, done |-> FALSE],di |-> 0,oi |-> 1,cmd |-> [k |-> "none"],sent |-> 1]),
    ([sub |-> 0,hist |-> <<0, 0, 0, 0, 1>>,buf |-> (0 :> 0 @@ 1 :> 0 @@ 2 :> 0 @@ 3 :> 0),last |-> [room |-> 0, bytes |-> <<>>, ret |-> "OK", good |-> TRUE, before |-> 1, done |-> FALSE],di |-> 0,oi |-> 1,cmd |-> [k |-> "lit", bytes |-> <<1>>],sent |-> 1]),
    ([sub |-> 0,hist |-> <<0, 0, 0, 0, 1>>,buf |-> (0 :> 0 @@ 1 :> 0 @@ 2 :> 0 @@ 3 :> 0),last |-> [room |-> 0, bytes |-> <<>>, ret |-> "OK", good |-> TRUE, before |-> 1, done |-> FALSE],di |-> 0,oi |-> 1,cmd |-> [k |-> "none"],sent |-> 1])
    >>
----


=============================================================================

---- CONFIG RecodeBroken_TTrace_1795148731 ----
CONSTANTS
    Ring = 4
    RepeatMax = 2
    Lazy = 2
    MaxHist = 6
    MaxRoom = 2
    MaxLit = 2
    Fill <- FullFill

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 04:25:33 UTC 2026