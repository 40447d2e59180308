------------------------------- MODULE Adapter -------------------------------
(***************************************************************************)
(* The contract of the read and write adapters: what the caller sees is    *)
(* the same whatever the other side does, as long as that does not fail.   *)
(*                                                                         *)
(*   a.side   "reader" or "writer";  a.comp  compressing                   *)
(*   a.known  the bytes to come out are known, a.want of them (for a       *)
(*            compressor: what the streaming interface gives)              *)
(*   a.n      bytes going in; a.len  of these, those of the stream         *)
(*   a.bad    the bytes going in are no stream: the adapter may fail;      *)
(*   a.must   it has to (a decompressing writer where the streaming        *)
(*            interface fails when fed the same pieces)                    *)
(*   src      what the other side delivered or took so far                 *)
(*   got      what the caller got (reader) or gave (writer) so far         *)
(*   broke    the error the other side came up with, if it did             *)
(*   st       "live", "done" (end of data reported), "failed", "idle"      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES a, src, got, broke, st
avars == <<a, src, got, broke, st>>
Nothing == [side |-> "none", comp |-> FALSE, known |-> FALSE, want |-> 0, n |-> 0, len |-> 0, bad |-> FALSE, must |-> FALSE]
AInit == a = Nothing /\ src = 0 /\ got = 0 /\ broke = "no" /\ st = "idle"
Adapt(f) == a' = f /\ src' = 0 /\ got' = 0 /\ broke' = "no" /\ st' = "live"
Over == a' = Nothing /\ src' = 0 /\ got' = 0 /\ broke' = "no" /\ st' = "idle"

(* the other side, which may do as it likes: deliver or take some bytes,    *)
(* be interrupted (that is nothing), end, or fail                           *)
Source(r, k) ==
    /\ a.side = "reader"
    /\ src' = src + k /\ src' <= a.n
    /\ broke' = IF r \in {"data", "eof", "Interrupted", "none"} THEN broke ELSE r
    /\ UNCHANGED <<a, got, st>>
Sink(r, k, same) ==
    /\ a.side = "writer"
    /\ src' = src + k
    /\ same \/ a.bad
    /\ (a.known /\ ~a.bad) => src' <= a.want
    /\ broke' = IF r \in {"data", "flush", "Interrupted"} THEN broke ELSE r
    /\ UNCHANGED <<a, got, st>>

(* a read with room for n bytes *)
Whole == a.known => got = a.want
ReadSome(n, k, same) ==
    /\ a.side = "reader" /\ st = "live" /\ k \in 1..n
    /\ same
    /\ got' = got + k
    /\ (a.known /\ ~a.bad) => got' <= a.want
    /\ UNCHANGED <<a, src, broke, st>>
(* the end of the data is reported when all of it was, and not if the data  *)
(* is incomplete because it is no stream or because the source broke        *)
ReadEnd(n) ==
    /\ a.side = "reader" /\ st \in {"live", "done"} /\ n > 0
    /\ ~a.must /\ Whole
    /\ a.comp => src = a.n /\ broke = "no"
    /\ ~a.comp => src >= a.len
    /\ st' = "done" /\ UNCHANGED <<a, src, got, broke>>
ReadNothing(n) == a.side = "reader" /\ n = 0 /\ UNCHANGED avars
(* it fails with the error of the source, or because the data is no stream  *)
ReadFails(r) ==
    /\ a.side = "reader" /\ (st = "live" \/ (st = "done" /\ r = broke))   \* it may look at the source once more
    /\ r = broke \/ (a.bad /\ r = "InvalidData")
    /\ st' = "failed" /\ UNCHANGED <<a, src, got, broke>>

Write(n, k) ==
    /\ a.side = "writer" /\ st = "live" /\ k = n /\ broke = "no"
    /\ got' = got + k
    /\ (a.must => got' < a.n)                \* by the last byte it has to have failed
    /\ (~a.comp /\ got' = a.n /\ a.n >= a.len /\ ~a.bad) => src = a.want
    /\ UNCHANGED <<a, src, broke, st>>
Flushed ==
    /\ a.side = "writer" /\ st \in {"live", "done"} /\ broke = "no"
    /\ got = a.n /\ ~a.must
    /\ (a.known /\ ~a.bad /\ a.n >= a.len) => src = a.want
    /\ st' = "done" /\ UNCHANGED <<a, src, got, broke>>
WriteFails(r) ==
    /\ a.side = "writer" /\ st = "live"
    /\ r = broke \/ (a.bad /\ r \in {"InvalidInput", "InvalidData"})
    /\ st' = "failed" /\ UNCHANGED <<a, src, got, broke>>
(* a finished compression stands for its data *)
Stands(total, v, used, out, dig, wantout, wantdig) ==
    /\ a.comp /\ st = "done"
    /\ total = (IF a.side = "reader" THEN got ELSE src)
    /\ v = "OK" /\ used = total /\ out = wantout /\ dig = wantdig
    /\ UNCHANGED avars
Finished == st \in {"done", "failed"} /\ Over
=============================================================================
