---- MODULE ModelBroken_TTrace_1795148301 ----
EXTENDS ModelBroken, Sequences, TLCExt, Toolbox, Naturals, TLC

_expression ==
    LET ModelBroken_TEExpression == INSTANCE ModelBroken_TEExpression
    IN ModelBroken_TEExpression!expression
----

_trace ==
    LET ModelBroken_TETrace == INSTANCE ModelBroken_TETrace
    IN ModelBroken_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        c = (<<40, 44, 48>>)
        /\
        d = (<<4, 8, 12>>)
        /\
        w = (0)
    )
----

_init ==
    /\ c = _TETrace[1].c
    /\ d = _TETrace[1].d
    /\ w = _TETrace[1].w
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ c  = _TETrace[i].c
        /\ c' = _TETrace[j].c
        /\ d  = _TETrace[i].d
        /\ d' = _TETrace[j].d
        /\ w  = _TETrace[i].w
        /\ w' = _TETrace[j].w

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("ModelBroken_TTrace_1795148301.json", _TETrace)

=============================================================================

 Note that you can extract this module `ModelBroken_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `ModelBroken_TEExpression.tla` file takes precedence 
  over the module `ModelBroken_TEExpression` below).

---- MODULE ModelBroken_TEExpression ----
EXTENDS ModelBroken, Sequences, TLCExt, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `ModelBroken` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        c |-> c
        ,d |-> d
        ,w |-> w
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_cUnchanged |-> c = c'
        
        \* Format the `c` variable as Json value.
        \* ,_cJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(c)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_cModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].c # _TETrace[s-1].c
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE ModelBroken_TETrace ----
\*EXTENDS ModelBroken, IOUtils, TLC
\*
\*trace == IODeserialize("ModelBroken_TTrace_1795148301.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE ModelBroken_TETrace ----
EXTENDS ModelBroken, TLC

trace == 
    <<
    ([c |-> <<4, 8, 12>>,d |-> <<4, 8, 12>>,w |-> 0]),
    ([c |-> <<16, 20, 24>>,d |-> <<4, 8, 12>>,w |-> 0]),
    ([c |-> <<28, 32, 36>>,d |-> <<4, 8, 12>>,w |-> 0]),
    ([c |-> <<40, 44, 48>>,d |-> <<4, 8, 12>>,w |-> 0])
    >>
----


=============================================================================

---- CONFIG ModelBroken_TTrace_1795148301 ----
CONSTANTS
    SC = 6
    NSYM = 3
    INCMAX = 12
    INCS = { 0 , 1 , 5 , 12 }
    LIMS = { 0 , 16 , 32 }
    Blend <- NeverBlend

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 04:18:23 UTC 2026