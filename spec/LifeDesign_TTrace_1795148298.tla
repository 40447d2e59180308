---- MODULE LifeDesign_TTrace_1795148298 ----
EXTENDS LifeDesign, Sequences, TLCExt, Toolbox, LifeDesign_TEConstants, Naturals, TLC

_expression ==
    LET LifeDesign_TEExpression == INSTANCE LifeDesign_TEExpression
    IN LifeDesign_TEExpression!expression
----

_trace ==
    LET LifeDesign_TETrace == INSTANCE LifeDesign_TETrace
    IN LifeDesign_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        todo = (<<>>)
        /\
        at = ((d1 :> "rdata" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "caller" @@ m2 :> "caller"))
        /\
        err = (TRUE)
        /\
        main = ("gone")
        /\
        worker = ("done")
    )
----

_init ==
    /\ todo = _TETrace[1].todo
    /\ err = _TETrace[1].err
    /\ at = _TETrace[1].at
    /\ worker = _TETrace[1].worker
    /\ main = _TETrace[1].main
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ todo  = _TETrace[i].todo
        /\ todo' = _TETrace[j].todo
        /\ err  = _TETrace[i].err
        /\ err' = _TETrace[j].err
        /\ at  = _TETrace[i].at
        /\ at' = _TETrace[j].at
        /\ worker  = _TETrace[i].worker
        /\ worker' = _TETrace[j].worker
        /\ main  = _TETrace[i].main
        /\ main' = _TETrace[j].main

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("LifeDesign_TTrace_1795148298.json", _TETrace)

=============================================================================

 Note that you can extract this module `LifeDesign_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `LifeDesign_TEExpression.tla` file takes precedence 
  over the module `LifeDesign_TEExpression` below).

---- MODULE LifeDesign_TEExpression ----
EXTENDS LifeDesign, Sequences, TLCExt, Toolbox, LifeDesign_TEConstants, Naturals, TLC

expression == 
    [
        \* To hide variables of the `LifeDesign` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        todo |-> todo
        ,err |-> err
        ,at |-> at
        ,worker |-> worker
        ,main |-> main
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_todoUnchanged |-> todo = todo'
        
        \* Format the `todo` variable as Json value.
        \* ,_todoJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(todo)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_todoModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].todo # _TETrace[s-1].todo
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE LifeDesign_TETrace ----
\*EXTENDS LifeDesign, IOUtils, LifeDesign_TEConstants, TLC
\*
\*trace == IODeserialize("LifeDesign_TTrace_1795148298.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE LifeDesign_TETrace ----
EXTENDS LifeDesign, LifeDesign_TEConstants, TLC

trace == 
    <<
    ([todo |-> <<"pred", "mux", "hand", "data", "rdata", "cm", "rcm", "slice", "wmap">>,at |-> (d1 :> "caller" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "caller" @@ m2 :> "caller"),err |-> FALSE,main |-> "header",worker |-> "none"]),
    ([todo |-> <<"pred", "mux", "hand", "data", "rdata", "cm", "rcm", "slice", "wmap">>,at |-> (d1 :> "caller" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "cm" @@ m2 :> "cm"),err |-> FALSE,main |-> "run",worker |-> "asked"]),
    ([todo |-> <<"pred", "mux", "hand", "data", "rdata", "cm", "rcm", "slice", "wmap">>,at |-> (d1 :> "mux" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "cm" @@ m2 :> "cm"),err |-> FALSE,main |-> "run",worker |-> "asked"]),
    ([todo |-> <<"pred", "mux", "hand", "data", "rdata", "cm", "rcm", "slice", "wmap">>,at |-> (d1 :> "data" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "cm" @@ m2 :> "cm"),err |-> FALSE,main |-> "run",worker |-> "asked"]),
    ([todo |-> <<"pred", "mux", "hand", "data", "rdata", "cm", "rcm", "slice", "wmap">>,at |-> (d1 :> "data" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "cm" @@ m2 :> "cm"),err |-> FALSE,main |-> "run",worker |-> "run"]),
    ([todo |-> <<"pred", "mux", "hand", "data", "rdata", "cm", "rcm", "slice", "wmap">>,at |-> (d1 :> "slice" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "cm" @@ m2 :> "cm"),err |-> FALSE,main |-> "run",worker |-> "run"]),
    ([todo |-> <<"pred", "mux", "hand", "data", "rdata", "cm", "rcm", "slice", "wmap">>,at |-> (d1 :> "slice" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "cm" @@ m2 :> "cm"),err |-> TRUE,main |-> "leaving",worker |-> "run"]),
    ([todo |-> <<"pred", "mux", "hand", "data", "rdata", "cm", "rcm", "slice", "wmap">>,at |-> (d1 :> "slice" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "cm" @@ m2 :> "cm"),err |-> TRUE,main |-> "leaving",worker |-> "done"]),
    ([todo |-> <<"mux", "hand", "data", "rdata", "cm", "rcm", "slice", "wmap">>,at |-> (d1 :> "slice" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "cm" @@ m2 :> "cm"),err |-> TRUE,main |-> "leaving",worker |-> "done"]),
    ([todo |-> <<"hand", "data", "rdata", "cm", "rcm", "slice", "wmap">>,at |-> (d1 :> "slice" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "cm" @@ m2 :> "cm"),err |-> TRUE,main |-> "leaving",worker |-> "done"]),
    ([todo |-> <<"data", "rdata", "cm", "rcm", "slice", "wmap">>,at |-> (d1 :> "slice" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "cm" @@ m2 :> "cm"),err |-> TRUE,main |-> "leaving",worker |-> "done"]),
    ([todo |-> <<"rdata", "cm", "rcm", "slice", "wmap">>,at |-> (d1 :> "slice" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "cm" @@ m2 :> "cm"),err |-> TRUE,main |-> "leaving",worker |-> "done"]),
    ([todo |-> <<"cm", "rcm", "slice", "wmap">>,at |-> (d1 :> "slice" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "cm" @@ m2 :> "cm"),err |-> TRUE,main |-> "leaving",worker |-> "done"]),
    ([todo |-> <<"rcm", "slice", "wmap">>,at |-> (d1 :> "slice" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "caller" @@ m2 :> "caller"),err |-> TRUE,main |-> "leaving",worker |-> "done"]),
    ([todo |-> <<"slice", "wmap">>,at |-> (d1 :> "slice" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "caller" @@ m2 :> "caller"),err |-> TRUE,main |-> "leaving",worker |-> "done"]),
    ([todo |-> <<"wmap">>,at |-> (d1 :> "rdata" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "caller" @@ m2 :> "caller"),err |-> TRUE,main |-> "leaving",worker |-> "done"]),
    ([todo |-> <<>>,at |-> (d1 :> "rdata" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "caller" @@ m2 :> "caller"),err |-> TRUE,main |-> "leaving",worker |-> "done"]),
    ([todo |-> <<>>,at |-> (d1 :> "rdata" @@ d2 :> "caller" @@ d3 :> "caller" @@ m1 :> "caller" @@ m2 :> "caller"),err |-> TRUE,main |-> "gone",worker |-> "done"])
    >>
----


=============================================================================

---- MODULE LifeDesign_TEConstants ----
EXTENDS LifeDesign

CONSTANTS d1, d2, d3, m1, m2

=============================================================================

---- CONFIG LifeDesign_TTrace_1795148298 ----
CONSTANTS
    Datas = { d1 , d2 , d3 }
    Maps = { m1 , m2 }
    Flaw = "late"
    d1 = d1
    d2 = d2
    m2 = m2
    m1 = m1
    d3 = d3

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 04:18:20 UTC 2026