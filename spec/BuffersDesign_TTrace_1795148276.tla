---- MODULE BuffersDesign_TTrace_1795148276 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, BuffersDesign

_expression ==
    LET BuffersDesign_TEExpression == INSTANCE BuffersDesign_TEExpression
    IN BuffersDesign_TEExpression!expression
----

_trace ==
    LET BuffersDesign_TETrace == INSTANCE BuffersDesign_TETrace
    IN BuffersDesign_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        mine = ([id |-> 0, cap |-> 0])
        /\
        big = (0)
        /\
        total = (0)
        /\
        last = (1)
        /\
        held = ([id |-> 1, cap |-> 0])
        /\
        grown = (<<>>)
        /\
        lent = ({})
        /\
        room = (0)
        /\
        gone = ({1})
    )
----

_init ==
    /\ room = _TETrace[1].room
    /\ gone = _TETrace[1].gone
    /\ last = _TETrace[1].last
    /\ held = _TETrace[1].held
    /\ big = _TETrace[1].big
    /\ lent = _TETrace[1].lent
    /\ grown = _TETrace[1].grown
    /\ mine = _TETrace[1].mine
    /\ total = _TETrace[1].total
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ room  = _TETrace[i].room
        /\ room' = _TETrace[j].room
        /\ gone  = _TETrace[i].gone
        /\ gone' = _TETrace[j].gone
        /\ last  = _TETrace[i].last
        /\ last' = _TETrace[j].last
        /\ held  = _TETrace[i].held
        /\ held' = _TETrace[j].held
        /\ big  = _TETrace[i].big
        /\ big' = _TETrace[j].big
        /\ lent  = _TETrace[i].lent
        /\ lent' = _TETrace[j].lent
        /\ grown  = _TETrace[i].grown
        /\ grown' = _TETrace[j].grown
        /\ mine  = _TETrace[i].mine
        /\ mine' = _TETrace[j].mine
        /\ total  = _TETrace[i].total
        /\ total' = _TETrace[j].total

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("BuffersDesign_TTrace_1795148276.json", _TETrace)

=============================================================================

 Note that you can extract this module `BuffersDesign_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `BuffersDesign_TEExpression.tla` file takes precedence 
  over the module `BuffersDesign_TEExpression` below).

---- MODULE BuffersDesign_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, BuffersDesign

expression == 
    [
        \* To hide variables of the `BuffersDesign` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        room |-> room
        ,gone |-> gone
        ,last |-> last
        ,held |-> held
        ,big |-> big
        ,lent |-> lent
        ,grown |-> grown
        ,mine |-> mine
        ,total |-> total
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_roomUnchanged |-> room = room'
        
        \* Format the `room` variable as Json value.
        \* ,_roomJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(room)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_roomModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].room # _TETrace[s-1].room
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE BuffersDesign_TETrace ----
\*EXTENDS IOUtils, TLC, BuffersDesign
\*
\*trace == IODeserialize("BuffersDesign_TTrace_1795148276.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE BuffersDesign_TETrace ----
EXTENDS TLC, BuffersDesign

trace == 
    <<
    ([mine |-> [id |-> 0, cap |-> 0],big |-> 0,total |-> 0,last |-> 0,held |-> [id |-> 0, cap |-> 0],grown |-> <<>>,lent |-> {},room |-> 0,gone |-> {}]),
    ([mine |-> [id |-> 0, cap |-> 0],big |-> 0,total |-> 0,last |-> 1,held |-> [id |-> 0, cap |-> 0],grown |-> <<>>,lent |-> {[id |-> 1, cap |-> 0]},room |-> 0,gone |-> {}]),
    ([mine |-> [id |-> 0, cap |-> 0],big |-> 0,total |-> 0,last |-> 1,held |-> [id |-> 1, cap |-> 0],grown |-> <<>>,lent |-> {},room |-> 0,gone |-> {1}])
    >>
----


=============================================================================

---- CONFIG BuffersDesign_TTrace_1795148276 ----
CONSTANTS
    Sizes = { 0 , 1 , 2 }
    Most = 4
    Flaw = "keepboth"

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 04:17:57 UTC 2026