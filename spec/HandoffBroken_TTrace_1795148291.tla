---- MODULE HandoffBroken_TTrace_1795148291 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, HandoffBroken

_expression ==
    LET HandoffBroken_TEExpression == INSTANCE HandoffBroken_TEExpression
    IN HandoffBroken_TEExpression!expression
----

_trace ==
    LET HandoffBroken_TETrace == INSTANCE HandoffBroken_TETrace
    IN HandoffBroken_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        data = ()
        /\
        fed = ()
        /\
        lq = ()
        /\
        dq = ()
        /\
        got = (0)
        /\
        wtok = ()
        /\
        out = ()
        /\
        slice = ()
        /\
        stream = ()
        /\
        lit = ()
        /\
        ceof = ()
        /\
        waiters = (1)
        /\
        eofr = ()
        /\
        asleep = ({"m"})
        /\
        rcm = (0)
        /\
        cbuf = (<<>>)
        /\
        hand = ()
        /\
        wcm = ()
        /\
        res = (<<>>)
        /\
        st = ("ok")
        /\
        err = ()
        /\
        need = (FALSE)
        /\
        mycm = (0)
        /\
        rdata = (0)
        /\
        cm = ()
        /\
        wbuf = ()
        /\
        wpc = ()
        /\
        done = ()
        /\
        pc = ("pull")
        /\
        stage = ()
        /\
        closed = ()
        /\
        eod = ()
        /\
        woken = ({})
    )
----

_init ==
    /\ done = _TETrace[1].done
    /\ hand = _TETrace[1].hand
    /\ need = _TETrace[1].need
    /\ lq = _TETrace[1].lq
    /\ waiters = _TETrace[1].waiters
    /\ cbuf = _TETrace[1].cbuf
    /\ eofr = _TETrace[1].eofr
    /\ ceof = _TETrace[1].ceof
    /\ stage = _TETrace[1].stage
    /\ mycm = _TETrace[1].mycm
    /\ out = _TETrace[1].out
    /\ cm = _TETrace[1].cm
    /\ pc = _TETrace[1].pc
    /\ rcm = _TETrace[1].rcm
    /\ data = _TETrace[1].data
    /\ fed = _TETrace[1].fed
    /\ dq = _TETrace[1].dq
    /\ woken = _TETrace[1].woken
    /\ rdata = _TETrace[1].rdata
    /\ res = _TETrace[1].res
    /\ wtok = _TETrace[1].wtok
    /\ st = _TETrace[1].st
    /\ eod = _TETrace[1].eod
    /\ got = _TETrace[1].got
    /\ slice = _TETrace[1].slice
    /\ lit = _TETrace[1].lit
    /\ wbuf = _TETrace[1].wbuf
    /\ closed = _TETrace[1].closed
    /\ wcm = _TETrace[1].wcm
    /\ wpc = _TETrace[1].wpc
    /\ stream = _TETrace[1].stream
    /\ asleep = _TETrace[1].asleep
    /\ err = _TETrace[1].err
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ done  = _TETrace[i].done
        /\ done' = _TETrace[j].done
        /\ hand  = _TETrace[i].hand
        /\ hand' = _TETrace[j].hand
        /\ need  = _TETrace[i].need
        /\ need' = _TETrace[j].need
        /\ lq  = _TETrace[i].lq
        /\ lq' = _TETrace[j].lq
        /\ waiters  = _TETrace[i].waiters
        /\ waiters' = _TETrace[j].waiters
        /\ cbuf  = _TETrace[i].cbuf
        /\ cbuf' = _TETrace[j].cbuf
        /\ eofr  = _TETrace[i].eofr
        /\ eofr' = _TETrace[j].eofr
        /\ ceof  = _TETrace[i].ceof
        /\ ceof' = _TETrace[j].ceof
        /\ stage  = _TETrace[i].stage
        /\ stage' = _TETrace[j].stage
        /\ mycm  = _TETrace[i].mycm
        /\ mycm' = _TETrace[j].mycm
        /\ out  = _TETrace[i].out
        /\ out' = _TETrace[j].out
        /\ cm  = _TETrace[i].cm
        /\ cm' = _TETrace[j].cm
        /\ pc  = _TETrace[i].pc
        /\ pc' = _TETrace[j].pc
        /\ rcm  = _TETrace[i].rcm
        /\ rcm' = _TETrace[j].rcm
        /\ data  = _TETrace[i].data
        /\ data' = _TETrace[j].data
        /\ fed  = _TETrace[i].fed
        /\ fed' = _TETrace[j].fed
        /\ dq  = _TETrace[i].dq
        /\ dq' = _TETrace[j].dq
        /\ woken  = _TETrace[i].woken
        /\ woken' = _TETrace[j].woken
        /\ rdata  = _TETrace[i].rdata
        /\ rdata' = _TETrace[j].rdata
        /\ res  = _TETrace[i].res
        /\ res' = _TETrace[j].res
        /\ wtok  = _TETrace[i].wtok
        /\ wtok' = _TETrace[j].wtok
        /\ st  = _TETrace[i].st
        /\ st' = _TETrace[j].st
        /\ eod  = _TETrace[i].eod
        /\ eod' = _TETrace[j].eod
        /\ got  = _TETrace[i].got
        /\ got' = _TETrace[j].got
        /\ slice  = _TETrace[i].slice
        /\ slice' = _TETrace[j].slice
        /\ lit  = _TETrace[i].lit
        /\ lit' = _TETrace[j].lit
        /\ wbuf  = _TETrace[i].wbuf
        /\ wbuf' = _TETrace[j].wbuf
        /\ closed  = _TETrace[i].closed
        /\ closed' = _TETrace[j].closed
        /\ wcm  = _TETrace[i].wcm
        /\ wcm' = _TETrace[j].wcm
        /\ wpc  = _TETrace[i].wpc
        /\ wpc' = _TETrace[j].wpc
        /\ stream  = _TETrace[i].stream
        /\ stream' = _TETrace[j].stream
        /\ asleep  = _TETrace[i].asleep
        /\ asleep' = _TETrace[j].asleep
        /\ err  = _TETrace[i].err
        /\ err' = _TETrace[j].err

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("HandoffBroken_TTrace_1795148291.json", _TETrace)

=============================================================================

 Note that you can extract this module `HandoffBroken_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `HandoffBroken_TEExpression.tla` file takes precedence 
  over the module `HandoffBroken_TEExpression` below).

---- MODULE HandoffBroken_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, HandoffBroken

expression == 
    [
        \* To hide variables of the `HandoffBroken` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        done |-> done
        ,hand |-> hand
        ,need |-> need
        ,lq |-> lq
        ,waiters |-> waiters
        ,cbuf |-> cbuf
        ,eofr |-> eofr
        ,ceof |-> ceof
        ,stage |-> stage
        ,mycm |-> mycm
        ,out |-> out
        ,cm |-> cm
        ,pc |-> pc
        ,rcm |-> rcm
        ,data |-> data
        ,fed |-> fed
        ,dq |-> dq
        ,woken |-> woken
        ,rdata |-> rdata
        ,res |-> res
        ,wtok |-> wtok
        ,st |-> st
        ,eod |-> eod
        ,got |-> got
        ,slice |-> slice
        ,lit |-> lit
        ,wbuf |-> wbuf
        ,closed |-> closed
        ,wcm |-> wcm
        ,wpc |-> wpc
        ,stream |-> stream
        ,asleep |-> asleep
        ,err |-> err
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_doneUnchanged |-> done = done'
        
        \* Format the `done` variable as Json value.
        \* ,_doneJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(done)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_doneModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].done # _TETrace[s-1].done
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE HandoffBroken_TETrace ----
\*EXTENDS IOUtils, TLC, HandoffBroken
\*
\*trace == IODeserialize("HandoffBroken_TTrace_1795148291.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE HandoffBroken_TETrace ----
EXTENDS TLC, HandoffBroken

trace == 
    <<
    ([data |-> <<>>,fed |-> 0,lq |-> 0,dq |-> <<>>,got |-> 0,wtok |-> "none",out |-> 0,slice |-> [has |-> FALSE, b |-> <<>>],stream |-> <<"-">>,lit |-> FALSE,ceof |-> FALSE,waiters |-> 0,eofr |-> "ok",asleep |-> {},rcm |-> 0,cbuf |-> <<>>,hand |-> 0,wcm |-> 0,res |-> <<>>,st |-> "ok",err |-> FALSE,need |-> FALSE,mycm |-> 0,rdata |-> 0,cm |-> 2,wbuf |-> <<>>,wpc |-> "run",done |-> <<>>,pc |-> "out",stage |-> 0,closed |-> FALSE,eod |-> FALSE,woken |-> {}]),
    ([data |-> <<>>,fed |-> 1,lq |-> 0,dq |-> <<"-">>,got |-> 0,wtok |-> "none",out |-> 0,slice |-> [has |-> FALSE, b |-> <<>>],stream |-> <<"-">>,lit |-> FALSE,ceof |-> FALSE,waiters |-> 0,eofr |-> "ok",asleep |-> {},rcm |-> 0,cbuf |-> <<>>,hand |-> 0,wcm |-> 0,res |-> <<>>,st |-> "ok",err |-> FALSE,need |-> FALSE,mycm |-> 0,rdata |-> 0,cm |-> 2,wbuf |-> <<>>,wpc |-> "run",done |-> <<>>,pc |-> "input",stage |-> 0,closed |-> FALSE,eod |-> FALSE,woken |-> {}]),
    ([data |-> <<<<"-">>>>,fed |-> 1,lq |-> 0,dq |-> <<>>,got |-> 0,wtok |-> "none",out |-> 1,slice |-> [has |-> FALSE, b |-> <<>>],stream |-> <<"-">>,lit |-> FALSE,ceof |-> FALSE,waiters |-> 0,eofr |-> "ok",asleep |-> {},rcm |-> 0,cbuf |-> <<>>,hand |-> 0,wcm |-> 0,res |-> <<>>,st |-> "ok",err |-> FALSE,need |-> FALSE,mycm |-> 0,rdata |-> 0,cm |-> 2,wbuf |-> <<>>,wpc |-> "run",done |-> <<>>,pc |-> "top",stage |-> 0,closed |-> FALSE,eod |-> FALSE,woken |-> {}]),
    ([data |-> <<<<"-">>>>,fed |-> 1,lq |-> 0,dq |-> <<>>,got |-> 0,wtok |-> "none",out |-> 1,slice |-> [has |-> FALSE, b |-> <<>>],stream |-> <<"-">>,lit |-> FALSE,ceof |-> FALSE,waiters |-> 0,eofr |-> "ok",asleep |-> {},rcm |-> 0,cbuf |-> <<>>,hand |-> 0,wcm |-> 0,res |-> <<>>,st |-> "ok",err |-> FALSE,need |-> FALSE,mycm |-> 0,rdata |-> 0,cm |-> 2,wbuf |-> <<>>,wpc |-> "run",done |-> <<>>,pc |-> "pull",stage |-> 0,closed |-> FALSE,eod |-> FALSE,woken |-> {}]),
    ([data |-> ,fed |-> ,lq |-> ,dq |-> ,got |-> 0,wtok |-> ,out |-> ,slice |-> ,stream |-> ,lit |-> ,ceof |-> ,waiters |-> 1,eofr |-> ,asleep |-> {"m"},rcm |-> 0,cbuf |-> <<>>,hand |-> ,wcm |-> ,res |-> <<>>,st |-> "ok",err |-> ,need |-> FALSE,mycm |-> 0,rdata |-> 0,cm |-> ,wbuf |-> ,wpc |-> ,done |-> ,pc |-> "pull",stage |-> ,closed |-> ,eod |-> ,woken |-> {}])
    >>
----


=============================================================================

---- CONFIG HandoffBroken_TTrace_1795148291 ----
CONSTANTS
    N = 3
    CAP = 2
    Bytes = { "-" , "p" , "e" , "l" , "L" }
    Pull <- TwicePull

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 04:18:15 UTC 2026