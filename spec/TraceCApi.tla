------------------------------ MODULE TraceCApi ------------------------------
(* Accepts a recorded use of the C interface: sessions as in Session, with   *)
(* what CApi adds.                                                           *)
EXTENDS TraceSession, CApi
cvars == <<tvars, h>>
CInit == TInit /\ HInit
SameH == h' = h
CNew  == Is("capi") /\ NewHandle /\ UNCHANGED vars
CSet  == Is("set") /\ SetOption(T[i].sel, T[i].val, T[i].ret) /\ UNCHANGED vars
(* the native options the reference was made with are those set here *)
CNat  == Is("native") /\ h.on /\ T[i].o = h.opts /\ SameH /\ UNCHANGED vars
CNull == Is("null") /\ T[i].ret = Failure /\ ~T[i].moved /\ SameH /\ UNCHANGED vars
CLent == Is("lent") /\ ~T[i].null /\ (T[i].custom => T[i].heap = 0) /\ SameH /\ UNCHANGED vars
CMem  == Is("mem") /\ Settled(T[i]) /\ Released /\ UNCHANGED vars
CNext == \/ CNew \/ CSet \/ CNat \/ CNull \/ CLent \/ CMem
         \/ TNext /\ (IF T[i].ev \in {"enc", "flush"} THEN Compresses ELSE SameH)
CSpec == CInit /\ [][CNext]_cvars
=============================================================================
