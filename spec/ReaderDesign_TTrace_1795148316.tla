---- MODULE ReaderDesign_TTrace_1795148316 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, ReaderDesign

_expression ==
    LET ReaderDesign_TEExpression == INSTANCE ReaderDesign_TEExpression
    IN ReaderDesign_TEExpression!expression
----

_trace ==
    LET ReaderDesign_TETrace == INSTANCE ReaderDesign_TETrace
    IN ReaderDesign_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        needs = (TRUE)
        /\
        broken = (FALSE)
        /\
        res = ("end")
        /\
        fed = (2)
        /\
        err = (FALSE)
        /\
        src = (2)
        /\
        fin = (FALSE)
        /\
        got = (0)
        /\
        room = (1)
        /\
        flushed = (FALSE)
        /\
        off = (0)
        /\
        out = (0)
        /\
        at = ("idle")
        /\
        len = (0)
        /\
        sh = ([n |-> 2, l |-> 1, comp |-> TRUE])
        /\
        closed = (FALSE)
        /\
        eof = (TRUE)
        /\
        pend = (0)
    )
----

_init ==
    /\ out = _TETrace[1].out
    /\ room = _TETrace[1].room
    /\ needs = _TETrace[1].needs
    /\ fed = _TETrace[1].fed
    /\ sh = _TETrace[1].sh
    /\ err = _TETrace[1].err
    /\ at = _TETrace[1].at
    /\ len = _TETrace[1].len
    /\ closed = _TETrace[1].closed
    /\ flushed = _TETrace[1].flushed
    /\ off = _TETrace[1].off
    /\ res = _TETrace[1].res
    /\ pend = _TETrace[1].pend
    /\ src = _TETrace[1].src
    /\ broken = _TETrace[1].broken
    /\ eof = _TETrace[1].eof
    /\ fin = _TETrace[1].fin
    /\ got = _TETrace[1].got
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ out  = _TETrace[i].out
        /\ out' = _TETrace[j].out
        /\ room  = _TETrace[i].room
        /\ room' = _TETrace[j].room
        /\ needs  = _TETrace[i].needs
        /\ needs' = _TETrace[j].needs
        /\ fed  = _TETrace[i].fed
        /\ fed' = _TETrace[j].fed
        /\ sh  = _TETrace[i].sh
        /\ sh' = _TETrace[j].sh
        /\ err  = _TETrace[i].err
        /\ err' = _TETrace[j].err
        /\ at  = _TETrace[i].at
        /\ at' = _TETrace[j].at
        /\ len  = _TETrace[i].len
        /\ len' = _TETrace[j].len
        /\ closed  = _TETrace[i].closed
        /\ closed' = _TETrace[j].closed
        /\ flushed  = _TETrace[i].flushed
        /\ flushed' = _TETrace[j].flushed
        /\ off  = _TETrace[i].off
        /\ off' = _TETrace[j].off
        /\ res  = _TETrace[i].res
        /\ res' = _TETrace[j].res
        /\ pend  = _TETrace[i].pend
        /\ pend' = _TETrace[j].pend
        /\ src  = _TETrace[i].src
        /\ src' = _TETrace[j].src
        /\ broken  = _TETrace[i].broken
        /\ broken' = _TETrace[j].broken
        /\ eof  = _TETrace[i].eof
        /\ eof' = _TETrace[j].eof
        /\ fin  = _TETrace[i].fin
        /\ fin' = _TETrace[j].fin
        /\ got  = _TETrace[i].got
        /\ got' = _TETrace[j].got

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("ReaderDesign_TTrace_1795148316.json", _TETrace)

=============================================================================

 Note that you can extract this module `ReaderDesign_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `ReaderDesign_TEExpression.tla` file takes precedence 
  over the module `ReaderDesign_TEExpression` below).

---- MODULE ReaderDesign_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, ReaderDesign

expression == 
    [
        \* To hide variables of the `ReaderDesign` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        out |-> out
        ,room |-> room
        ,needs |-> needs
        ,fed |-> fed
        ,sh |-> sh
        ,err |-> err
        ,at |-> at
        ,len |-> len
        ,closed |-> closed
        ,flushed |-> flushed
        ,off |-> off
        ,res |-> res
        ,pend |-> pend
        ,src |-> src
        ,broken |-> broken
        ,eof |-> eof
        ,fin |-> fin
        ,got |-> got
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_outUnchanged |-> out = out'
        
        \* Format the `out` variable as Json value.
        \* ,_outJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(out)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_outModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].out # _TETrace[s-1].out
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE ReaderDesign_TETrace ----
\*EXTENDS IOUtils, TLC, ReaderDesign
\*
\*trace == IODeserialize("ReaderDesign_TTrace_1795148316.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE ReaderDesign_TETrace ----
EXTENDS TLC, ReaderDesign

trace == 
    <<
    ([needs |-> FALSE,broken |-> FALSE,res |-> "none",fed |-> 0,err |-> FALSE,src |-> 0,fin |-> FALSE,got |-> 0,room |-> 0,flushed |-> FALSE,off |-> 0,out |-> 0,at |-> "idle",len |-> 0,sh |-> [n |-> 2, l |-> 1, comp |-> TRUE],closed |-> FALSE,eof |-> FALSE,pend |-> 0]),
    ([needs |-> FALSE,broken |-> FALSE,res |-> "none",fed |-> 0,err |-> FALSE,src |-> 0,fin |-> FALSE,got |-> 0,room |-> 1,flushed |-> FALSE,off |-> 0,out |-> 0,at |-> "loop",len |-> 0,sh |-> [n |-> 2, l |-> 1, comp |-> TRUE],closed |-> FALSE,eof |-> FALSE,pend |-> 0]),
    ([needs |-> FALSE,broken |-> FALSE,res |-> "none",fed |-> 0,err |-> FALSE,src |-> 0,fin |-> FALSE,got |-> 0,room |-> 1,flushed |-> FALSE,off |-> 0,out |-> 0,at |-> "fill",len |-> 0,sh |-> [n |-> 2, l |-> 1, comp |-> TRUE],closed |-> FALSE,eof |-> FALSE,pend |-> 0]),
    ([needs |-> FALSE,broken |-> FALSE,res |-> "none",fed |-> 0,err |-> FALSE,src |-> 2,fin |-> FALSE,got |-> 0,room |-> 1,flushed |-> FALSE,off |-> 0,out |-> 0,at |-> "work",len |-> 2,sh |-> [n |-> 2, l |-> 1, comp |-> TRUE],closed |-> FALSE,eof |-> FALSE,pend |-> 0]),
    ([needs |-> FALSE,broken |-> FALSE,res |-> "none",fed |-> 1,err |-> FALSE,src |-> 2,fin |-> FALSE,got |-> 0,room |-> 1,flushed |-> FALSE,off |-> 1,out |-> 0,at |-> "loop",len |-> 2,sh |-> [n |-> 2, l |-> 1, comp |-> TRUE],closed |-> FALSE,eof |-> FALSE,pend |-> 0]),
    ([needs |-> FALSE,broken |-> FALSE,res |-> "none",fed |-> 1,err |-> FALSE,src |-> 2,fin |-> FALSE,got |-> 0,room |-> 1,flushed |-> FALSE,off |-> 1,out |-> 0,at |-> "fill",len |-> 2,sh |-> [n |-> 2, l |-> 1, comp |-> TRUE],closed |-> FALSE,eof |-> FALSE,pend |-> 0]),
    ([needs |-> FALSE,broken |-> FALSE,res |-> "none",fed |-> 1,err |-> FALSE,src |-> 2,fin |-> FALSE,got |-> 0,room |-> 1,flushed |-> FALSE,off |-> 1,out |-> 0,at |-> "work",len |-> 2,sh |-> [n |-> 2, l |-> 1, comp |-> TRUE],closed |-> FALSE,eof |-> TRUE,pend |-> 0]),
    ([needs |-> TRUE,broken |-> FALSE,res |-> "none",fed |-> 2,err |-> FALSE,src |-> 2,fin |-> FALSE,got |-> 0,room |-> 1,flushed |-> FALSE,off |-> 0,out |-> 0,at |-> "loop",len |-> 0,sh |-> [n |-> 2, l |-> 1, comp |-> TRUE],closed |-> FALSE,eof |-> TRUE,pend |-> 0]),
    ([needs |-> TRUE,broken |-> FALSE,res |-> "end",fed |-> 2,err |-> FALSE,src |-> 2,fin |-> FALSE,got |-> 0,room |-> 1,flushed |-> FALSE,off |-> 0,out |-> 0,at |-> "idle",len |-> 0,sh |-> [n |-> 2, l |-> 1, comp |-> TRUE],closed |-> FALSE,eof |-> TRUE,pend |-> 0])
    >>
----


=============================================================================

---- CONFIG ReaderDesign_TTrace_1795148316 ----
CONSTANTS
    B = 3
    Rooms = { 1 , 2 , 4 }
    Most = 5
    Tail = 2
    Fails = TRUE
    Keeps = FALSE

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 04:18:39 UTC 2026