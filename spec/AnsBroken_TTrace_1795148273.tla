---- MODULE AnsBroken_TTrace_1795148273 ----
EXTENDS Sequences, TLCExt, AnsBroken, Toolbox, Naturals, TLC

_expression ==
    LET AnsBroken_TEExpression == INSTANCE AnsBroken_TEExpression
    IN AnsBroken_TEExpression!expression
----

_trace ==
    LET AnsBroken_TETrace == INSTANCE AnsBroken_TETrace
    IN AnsBroken_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        phase = ("get")
        /\
        a = (128)
        /\
        needB = (TRUE)
        /\
        b = (6)
        /\
        pos = (8)
        /\
        needA = (0)
        /\
        taken = (<<<<"wrong", 1>>>>)
        /\
        count = (1)
        /\
        syms = (<<<<0, 1>>, <<0, 3>>>>)
        /\
        loading = (FALSE)
        /\
        out = (<<1, 2, 2, 0, 0, 0, 0, 2>>)
    )
----

_init ==
    /\ phase = _TETrace[1].phase
    /\ loading = _TETrace[1].loading
    /\ a = _TETrace[1].a
    /\ b = _TETrace[1].b
    /\ out = _TETrace[1].out
    /\ pos = _TETrace[1].pos
    /\ taken = _TETrace[1].taken
    /\ count = _TETrace[1].count
    /\ syms = _TETrace[1].syms
    /\ needA = _TETrace[1].needA
    /\ needB = _TETrace[1].needB
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ phase  = _TETrace[i].phase
        /\ phase' = _TETrace[j].phase
        /\ loading  = _TETrace[i].loading
        /\ loading' = _TETrace[j].loading
        /\ a  = _TETrace[i].a
        /\ a' = _TETrace[j].a
        /\ b  = _TETrace[i].b
        /\ b' = _TETrace[j].b
        /\ out  = _TETrace[i].out
        /\ out' = _TETrace[j].out
        /\ pos  = _TETrace[i].pos
        /\ pos' = _TETrace[j].pos
        /\ taken  = _TETrace[i].taken
        /\ taken' = _TETrace[j].taken
        /\ count  = _TETrace[i].count
        /\ count' = _TETrace[j].count
        /\ syms  = _TETrace[i].syms
        /\ syms' = _TETrace[j].syms
        /\ needA  = _TETrace[i].needA
        /\ needA' = _TETrace[j].needA
        /\ needB  = _TETrace[i].needB
        /\ needB' = _TETrace[j].needB

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("AnsBroken_TTrace_1795148273.json", _TETrace)

=============================================================================

 Note that you can extract this module `AnsBroken_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `AnsBroken_TEExpression.tla` file takes precedence 
  over the module `AnsBroken_TEExpression` below).

---- MODULE AnsBroken_TEExpression ----
EXTENDS Sequences, TLCExt, AnsBroken, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `AnsBroken` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        phase |-> phase
        ,loading |-> loading
        ,a |-> a
        ,b |-> b
        ,out |-> out
        ,pos |-> pos
        ,taken |-> taken
        ,count |-> count
        ,syms |-> syms
        ,needA |-> needA
        ,needB |-> needB
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_phaseUnchanged |-> phase = phase'
        
        \* Format the `phase` variable as Json value.
        \* ,_phaseJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(phase)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_phaseModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].phase # _TETrace[s-1].phase
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE AnsBroken_TETrace ----
\*EXTENDS IOUtils, AnsBroken, TLC
\*
\*trace == IODeserialize("AnsBroken_TTrace_1795148273.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE AnsBroken_TETrace ----
EXTENDS AnsBroken, TLC

trace == 
    <<
    ([phase |-> "put",a |-> 0,needB |-> FALSE,b |-> 0,pos |-> 0,needA |-> 8,taken |-> <<>>,count |-> 0,syms |-> <<>>,loading |-> TRUE,out |-> <<>>]),
    ([phase |-> "put",a |-> 0,needB |-> FALSE,b |-> 0,pos |-> 0,needA |-> 8,taken |-> <<>>,count |-> 0,syms |-> <<<<0, 1>>>>,loading |-> TRUE,out |-> <<>>]),
    ([phase |-> "put",a |-> 0,needB |-> FALSE,b |-> 0,pos |-> 0,needA |-> 8,taken |-> <<>>,count |-> 0,syms |-> <<<<0, 1>>, <<0, 3>>>>,loading |-> TRUE,out |-> <<>>]),
    ([phase |-> "get",a |-> 0,needB |-> FALSE,b |-> 0,pos |-> 0,needA |-> 8,taken |-> <<>>,count |-> 0,syms |-> <<<<0, 1>>, <<0, 3>>>>,loading |-> TRUE,out |-> <<1, 2, 2, 0, 0, 0, 0, 2>>]),
    ([phase |-> "get",a |-> 1,needB |-> FALSE,b |-> 0,pos |-> 1,needA |-> 7,taken |-> <<>>,count |-> 0,syms |-> <<<<0, 1>>, <<0, 3>>>>,loading |-> TRUE,out |-> <<1, 2, 2, 0, 0, 0, 0, 2>>]),
    ([phase |-> "get",a |-> 9,needB |-> FALSE,b |-> 0,pos |-> 2,needA |-> 6,taken |-> <<>>,count |-> 0,syms |-> <<<<0, 1>>, <<0, 3>>>>,loading |-> TRUE,out |-> <<1, 2, 2, 0, 0, 0, 0, 2>>]),
    ([phase |-> "get",a |-> 41,needB |-> FALSE,b |-> 0,pos |-> 3,needA |-> 5,taken |-> <<>>,count |-> 0,syms |-> <<<<0, 1>>, <<0, 3>>>>,loading |-> TRUE,out |-> <<1, 2, 2, 0, 0, 0, 0, 2>>]),
    ([phase |-> "get",a |-> 41,needB |-> FALSE,b |-> 0,pos |-> 4,needA |-> 4,taken |-> <<>>,count |-> 0,syms |-> <<<<0, 1>>, <<0, 3>>>>,loading |-> TRUE,out |-> <<1, 2, 2, 0, 0, 0, 0, 2>>]),
    ([phase |-> "get",a |-> 41,needB |-> FALSE,b |-> 0,pos |-> 5,needA |-> 3,taken |-> <<>>,count |-> 0,syms |-> <<<<0, 1>>, <<0, 3>>>>,loading |-> TRUE,out |-> <<1, 2, 2, 0, 0, 0, 0, 2>>]),
    ([phase |-> "get",a |-> 41,needB |-> FALSE,b |-> 0,pos |-> 6,needA |-> 2,taken |-> <<>>,count |-> 0,syms |-> <<<<0, 1>>, <<0, 3>>>>,loading |-> TRUE,out |-> <<1, 2, 2, 0, 0, 0, 0, 2>>]),
    ([phase |-> "get",a |-> 41,needB |-> FALSE,b |-> 0,pos |-> 7,needA |-> 1,taken |-> <<>>,count |-> 0,syms |-> <<<<0, 1>>, <<0, 3>>>>,loading |-> TRUE,out |-> <<1, 2, 2, 0, 0, 0, 0, 2>>]),
    ([phase |-> "get",a |-> 41,needB |-> FALSE,b |-> 128,pos |-> 8,needA |-> 0,taken |-> <<>>,count |-> 0,syms |-> <<<<0, 1>>, <<0, 3>>>>,loading |-> FALSE,out |-> <<1, 2, 2, 0, 0, 0, 0, 2>>]),
    ([phase |-> "get",a |-> 128,needB |-> TRUE,b |-> 6,pos |-> 8,needA |-> 0,taken |-> <<<<"wrong", 1>>>>,count |-> 1,syms |-> <<<<0, 1>>, <<0, 3>>>>,loading |-> FALSE,out |-> <<1, 2, 2, 0, 0, 0, 0, 2>>])
    >>
----


=============================================================================

---- CONFIG AnsBroken_TTrace_1795148273 ----
CONSTANTS
    S = 3
    L = 16
    W = 4
    PIECES = 2
    BLOCK = 2
    MAXLEN = 3
    RANGES = { 1 , 2 , 3 , 5 , 7 , 8 , 11 , 13 , 17 , 22 , 24 , 33 , 35 , 44 , 51 , 53 , 62 , 71 }
    Block <- Swapped

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 04:17:56 UTC 2026