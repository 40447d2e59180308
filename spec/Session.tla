------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The contract of one streaming session of divans as its caller sees it:  *)
(* a compressor (encode, commands, flush) or a decompressor (decode).     *)
(*                                                                         *)
(* One action per call.  A call is described by what the caller offered    *)
(* (ia bytes of input, oa bytes of room) and what it got back (bytes used, *)
(* bytes written, a verdict).  The facts of the session that the contract  *)
(* refers to are in c; they are fixed when the session starts.             *)
(*                                                                         *)
(*   c.kind   "dec" or "enc"                                               *)
(*   c.n      bytes of input the environment will offer in total           *)
(*   c.len    bytes of the compressed stream contained in these n bytes    *)
(*            (dec; c.len < c.n when something follows the stream)         *)
(*   c.m      bytes of the data the stream stands for (dec, when known)    *)
(*   c.mode   "valid"   the input is a stream of a compressor              *)
(*            "prefix"  the input is a proper prefix of such a stream      *)
(*            "altered" such a stream with bytes changed, checksum on      *)
(*            "csum"    only checksum bytes changed, checksum off          *)
(*            "any"     any bytes at all                                   *)
(*   c.ref    the outcome of the same input in another session; ref.how:   *)
(*            "none"    there is none                                      *)
(*            "same"    the verdict must be the same                       *)
(*            "accept"  acceptance must be the same                        *)
(*            on success everything must be the same in either case        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES c, st, fed, got
vars == <<c, st, fed, got>>

NoRef == [how |-> "none", v |-> "none", used |-> 0, out |-> 0, dig |-> 0]
Idle  == [kind |-> "none", n |-> 0, len |-> 0, m |-> 0, mode |-> "any", ref |-> NoRef]

Init == c = Idle /\ st = "idle" /\ fed = 0 /\ got = 0

(* a session may be started at any time: the previous one is simply dropped *)
Start(facts) == c' = facts /\ st' = "live" /\ fed' = 0 /\ got' = 0

-----------------------------------------------------------------------------
(* What holds of every call whatever the data: offsets only move forward    *)
(* and stay in the buffers; input is asked for only when all of it was      *)
(* used; room is asked for only when all of it was filled.                  *)
Offsets(ia, oa, used, wrote) == used \in 0..ia /\ wrote \in 0..oa
Asks(ia, oa, used, wrote, ret) ==
    /\ ret = "NMI" => used = ia
    /\ ret = "NMO" => wrote = oa
    /\ ret \in {"NMI", "NMO", "OK", "ERR"}

(* the outcome agrees with the reference session *)
Agrees(v, f, g, dig) ==
    /\ c.ref.how = "same" => v = c.ref.v
    /\ c.ref.how = "accept" => (v = "OK" <=> c.ref.v = "OK")
    /\ (c.ref.how # "none" /\ v = "OK") => f = c.ref.used /\ g = c.ref.out /\ dig = c.ref.dig

(* a decode call.  same: all output of the session so far is the beginning  *)
(* of the data, or, where the data is not known, agrees with the output of  *)
(* the reference session as far as both go; dig: digest of all output so far*)
Decode(ia, oa, used, wrote, ret, same, dig) ==
    /\ st = "live" /\ c.kind = "dec"
    /\ ia <= c.n - fed
    /\ Offsets(ia, oa, used, wrote)
    /\ Asks(ia, oa, used, wrote, ret)
    /\ fed' = fed + used /\ got' = got + wrote
    /\ st' = CASE ret = "OK" -> "done" [] ret = "ERR" -> "failed" [] OTHER -> "live"
    /\ c' = c
    /\ c.mode \in {"valid", "csum"} =>
          /\ ret # "ERR" /\ same
          /\ fed' <= c.len /\ got' <= c.m
          /\ ret = "OK" => fed' = c.len /\ got' = c.m
          /\ ret = "NMI" => fed' < c.len          \* a whole stream is enough
    /\ c.mode = "prefix" => ret # "OK" /\ same /\ got' <= c.m
    /\ c.mode = "altered" => ret # "OK"
    /\ c.ref.how # "none" => same
    /\ ret \in {"OK", "ERR"} => Agrees(ret, fed', got', dig)

(* after completion nothing moves and the verdict stays *)
DecodeDone(ia, oa, used, wrote, ret) ==
    /\ st = "done" /\ c.kind = "dec"
    /\ ret = "OK" /\ used = 0 /\ wrote = 0
    /\ UNCHANGED vars

(* after an error the verdict is not specified, but the call returns *)
DecodeFailed(ia, oa, used, wrote, ret) ==
    /\ st = "failed" /\ c.kind = "dec"
    /\ Offsets(ia, oa, used, wrote)
    /\ ret \in {"NMI", "NMO", "OK", "ERR"}
    /\ UNCHANGED vars

(* the environment has no more input: the session is incomplete *)
RunDry(dig) ==
    /\ st = "live" /\ c.kind = "dec" /\ fed = c.n
    /\ c.mode \notin {"valid", "csum"}
    /\ Agrees("NMI", fed, got, dig)
    /\ st' = "dry" /\ UNCHANGED <<c, fed, got>>

-----------------------------------------------------------------------------
(* Compressors *)
Encode(ia, oa, used, wrote, ret) ==
    /\ st = "live" /\ c.kind = "enc"
    /\ ia <= c.n - fed
    /\ Offsets(ia, oa, used, wrote)
    /\ ret \in {"NMI", "NMO"}
    /\ Asks(ia, oa, used, wrote, ret)
    /\ fed' = fed + used /\ got' = got + wrote
    /\ UNCHANGED <<c, st>>

(* commands instead of bytes: na commands offered, nu of them taken *)
Commands(na, oa, nu, wrote, ret) ==
    /\ st = "live" /\ c.kind = "enc"
    /\ nu \in 0..na /\ wrote \in 0..oa
    /\ ret \in {"OK", "NMO"}
    /\ ret = "OK" => nu = na
    /\ ret = "NMO" => wrote = oa
    /\ got' = got + wrote
    /\ UNCHANGED <<c, st, fed>>

(* finishing: in as many calls as the room requires *)
Flush(oa, wrote, ret, dig) ==
    /\ st \in {"live", "flushing"} /\ c.kind = "enc"
    /\ fed = c.n
    /\ wrote \in 0..oa
    /\ ret \in {"OK", "NMO"}
    /\ ret = "NMO" => wrote = oa
    /\ (st = "flushing" /\ ret = "OK") => wrote > 0     \* when it asked for room there really was more to deliver
    /\ got' = got + wrote
    /\ st' = IF ret = "OK" THEN "done" ELSE "flushing"
    /\ ret = "OK" => Agrees("OK", fed, got', dig)
    /\ UNCHANGED <<c, fed>>

(* finishing again delivers nothing more and succeeds *)
FlushDone(oa, wrote, ret) ==
    /\ st = "done" /\ c.kind = "enc"
    /\ wrote = 0 /\ ret = "OK"
    /\ UNCHANGED vars

(* what the finished stream stands for: verdict, size and digest of what    *)
(* decompressing all delivered bytes gives, against the data put in         *)
Means(total, v, used, out, dig, wantout, wantdig) ==
    /\ st = "done" /\ c.kind = "enc"
    /\ total = got
    /\ v = "OK" /\ used = total /\ out = wantout /\ dig = wantdig
    /\ UNCHANGED vars

-----------------------------------------------------------------------------
(* The contract on its own, for an environment with small sizes: used to    *)
(* check that it has the consequences the properties need.                  *)
CONSTANTS MaxN, MaxM, MaxChunk
Modes == {"valid", "prefix", "altered", "csum", "any"}
Chunk == 0..MaxChunk
Rets == {"NMI", "NMO", "OK", "ERR"}
AnyFacts == { f \in [kind : {"dec", "enc"}, n : 0..MaxN, len : 0..MaxN, m : 0..MaxM, mode : Modes, ref : {NoRef}] :
                /\ f.kind = "enc" => f.mode = "valid" /\ f.len = 0
                /\ f.mode \in {"valid", "csum"} => f.len <= f.n
                /\ f.mode \in {"prefix", "altered"} => f.len >= f.n }

DecStep == \E ia \in Chunk, oa \in Chunk, used \in Chunk, wrote \in Chunk, ret \in Rets, same \in BOOLEAN :
              \/ Decode(ia, oa, used, wrote, ret, same, 0)
              \/ DecodeDone(ia, oa, used, wrote, ret)
              \/ DecodeFailed(ia, oa, used, wrote, ret)
EncStep == \E ia \in Chunk, oa \in Chunk, used \in Chunk, wrote \in Chunk, ret \in Rets :
              \/ Encode(ia, oa, used, wrote, ret)
              \/ Commands(ia, oa, used, wrote, ret)
              \/ Flush(oa, wrote, ret, 0)
              \/ FlushDone(oa, wrote, ret)
Next == \/ st = "idle" /\ \E f \in AnyFacts : Start(f)
        \/ DecStep \/ EncStep \/ RunDry(0)
Spec == Init /\ [][Next]_vars

(* bound for model checking: sizes are finite because output is *)
Small == got <= MaxM + MaxChunk

(* consequences *)
CompleteMeansWhole == (c.kind = "dec" /\ st = "done" /\ c.mode \in {"valid", "csum"}) => fed = c.len /\ got = c.m
NeverCompleteIfDamaged == (c.kind = "dec" /\ c.mode \in {"prefix", "altered"}) => st # "done"
ValidNeverFails == (c.mode \in {"valid", "csum"}) => st \notin {"failed", "dry"}
NothingPastTheEnd == (c.kind = "dec" /\ c.mode \in {"valid", "csum"}) => fed <= c.len
Monotone == [][c' = c => fed' >= fed /\ got' >= got]_vars
CompletionSticks == [][(st = "done" /\ c' = c) => st' = "done" /\ fed' = fed /\ got' = got]_vars
(* a call offering both input and room and ending in neither verdict moved something *)
Progress == [][\A ia \in 1..MaxChunk, oa \in 1..MaxChunk, ret \in {"NMI", "NMO"}, same \in BOOLEAN :
                  Decode(ia, oa, fed' - fed, got' - got, ret, same, 0) => fed' + got' > fed + got]_vars
=============================================================================
