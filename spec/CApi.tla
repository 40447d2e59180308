-------------------------------- MODULE CApi --------------------------------
(* The C interface to the compressor, as far as it differs from the native  *)
(* one: a handle is made, options are set one by one through selectors, and *)
(* the first call that compresses fixes them.  Each selector either has a   *)
(* set of values that mean something (all others are refused) or takes a    *)
(* number as it is.                                                         *)
EXTENDS Integers, Sequences, FiniteSets

Palette == << <<0, 1024>>, <<2, 1024>>, <<1, 128>>, <<1, 16384>>, <<2, 2048>>, <<4, 1024>>, <<8, 8192>>, <<16, 48>>,
              <<16, 8192>>, <<32, 4096>>, <<64, 16384>>, <<128, 256>>, <<128, 16384>>, <<512, 16384>>, <<1664, 16384>> >>
DefaultOpts == [quality |-> 11, window |-> 22, lgblock |-> 22, mixing |-> 1, brotli |-> 1, ctxmap |-> 1, adapt |-> << >>,
                stride |-> 9, sdq |-> -1, depth |-> -1, score |-> -1, spq |-> -1, mask |-> 1, half |-> 0, mode |-> -1, ir |-> 0]
Success == 0
Failure == 3
Numeric == {1, 2, 3, 10, 11, 15, 16, 17, 18, 20}   \* any number that fits
Values(sel) == CASE sel = 4  -> 0..7            \* context mixing
                 [] sel = 5  -> 0..2            \* command selection
                 [] sel = 6  -> {1}             \* the brotli bitstream
                 [] sel = 7  -> 0..1            \* context map
                 [] sel = 9  -> 0..8            \* stride
                 [] sel \in {8, 12, 13, 14} -> 0..Len(Palette) - 1
                 [] sel = 19 -> 0..3            \* literal context mode
                 [] OTHER -> {}
Selectors == 1..20
Acceptable(sel, v) == sel \in Numeric \/ v \in Values(sel)
(* the four speeds: stride low, stride high, context map low, context map   *)
(* high; setting one of them for the first time sets them all               *)
Slot(sel) == CASE sel = 14 -> 1 [] sel = 12 -> 2 [] sel = 13 -> 3 [] sel = 8 -> 4
With(o, sel, v) ==
    CASE sel = 1 -> [o EXCEPT !.quality = v]
      [] sel = 2 -> [o EXCEPT !.window = v]
      [] sel = 3 -> [o EXCEPT !.lgblock = v]
      [] sel = 4 -> [o EXCEPT !.mixing = v]
      [] sel = 5 -> [o EXCEPT !.brotli = v]
      [] sel = 6 -> [o EXCEPT !.brotli = 2]
      [] sel = 7 -> [o EXCEPT !.ctxmap = v]
      [] sel = 9 -> [o EXCEPT !.stride = v]
      [] sel = 10 -> [o EXCEPT !.sdq = v]
      [] sel = 11 -> [o EXCEPT !.depth = v]
      [] sel = 15 -> [o EXCEPT !.score = v]
      [] sel = 16 -> [o EXCEPT !.spq = v]
      [] sel = 17 -> [o EXCEPT !.mask = v]
      [] sel = 18 -> [o EXCEPT !.half = IF v = 0 THEN 0 ELSE 1]
      [] sel = 19 -> [o EXCEPT !.mode = v]
      [] sel = 20 -> [o EXCEPT !.ir = v]
      [] sel \in {8, 12, 13, 14} ->
            LET s == Palette[v + 1] IN [o EXCEPT !.adapt = IF @ = << >> THEN <<s, s, s, s>> ELSE [@ EXCEPT ![Slot(sel)] = s]]

VARIABLE h     \* the handle: on, started, opts
NoHandle == [on |-> FALSE, started |-> FALSE, opts |-> DefaultOpts]
NewHandle == h' = [on |-> TRUE, started |-> FALSE, opts |-> DefaultOpts]
SetOption(sel, v, ret) ==
    /\ h.on
    /\ IF ~h.started /\ sel \in Selectors /\ Acceptable(sel, v)
       THEN ret = Success /\ h' = [h EXCEPT !.opts = With(@, sel, v)]
       ELSE ret = Failure /\ h' = h
Compresses == h.on /\ h' = [h EXCEPT !.started = TRUE]
Released == h' = NoHandle
(* what is left when a handle was released: of the caller's blocks nothing, *)
(* none freed twice, none written to after it was freed or past its end;    *)
(* with the caller's allocator nothing was taken from anywhere else         *)
Settled(m) == /\ m.live = 0 /\ m.touched = 0 /\ m.over = 0 /\ m.unknown = 0 /\ m.wrong = 0 /\ m.threads = 0 /\ m.left = 0
              /\ (m.custom /\ ~m.mt) => m.heap = 0
-----------------------------------------------------------------------------
(* the settings on their own, for model checking, with the selectors MCSel  *)
CONSTANT MCSel
HInit == h = NoHandle
HNext == \/ ~h.on /\ NewHandle
         \/ h.on /\ Released
         \/ Compresses
         \/ \E sel \in MCSel, v \in {0, 1, 2, 3, 7, 8, 14, 15}, ret \in {Success, Failure} : SetOption(sel, v, ret)
HSpec == HInit /\ [][HNext]_h
(* what the setter can put there is always something the compressor knows *)
OptsAreSane == /\ h.opts.mixing \in 0..7 /\ h.opts.brotli \in 0..2 /\ h.opts.ctxmap \in 0..1 /\ h.opts.stride \in 0..9
               /\ h.opts.mode \in -1..3 /\ h.opts.half \in 0..1
               /\ h.opts.adapt = << >> \/ (Len(h.opts.adapt) = 4 /\ \A k \in 1..4 : \E j \in DOMAIN Palette : h.opts.adapt[k] = Palette[j])
FixedOnceStarted == [][(h.started /\ h'.on) => h'.opts = h.opts]_h
=============================================================================
