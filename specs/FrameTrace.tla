------------------------------- MODULE FrameTrace ----------------------------
(* Messages written one after the other to a stream of bytes, of which all but the last `cut` bytes are then read in       *)
(* pieces.  Events: write [k, ok, whole, same] (whole: the stream took all its bytes; same: the message given was not       *)
(* changed), read [k, intact], stop [left] (reading ends, with bytes left).                                             *)
EXTENDS TraceBase
VARIABLES w, r, stopped
vars == <<w, r, stopped>>
TraceInit == TInit /\ w = 0 /\ r = 0 /\ stopped = FALSE
Write == IsEv("write") /\ Ev.k = w + 1 /\ Ev.ok = Ev.whole /\ Ev.same /\ w' = (IF Ev.ok THEN w + 1 ELSE w) /\ UNCHANGED <<r, stopped>>
\* Nothing that was not written completely is read.
Read == IsEv("read") /\ Ev.k = r + 1 /\ Ev.intact /\ r < w /\ ~stopped /\ r' = r + 1 /\ UNCHANGED <<w, stopped>>
\* Everything that is complete is read.
Stop == /\ IsEv("stop") /\ stopped' = TRUE
        /\ (Cfg.cut = 0) => (r = w)
        /\ (Cfg.cut > 0 /\ Cfg.cut <= Cfg.last /\ ~Cfg.failed) => (r = w - 1)
        /\ UNCHANGED <<w, r>>
TraceNext == (Write \/ Read \/ Stop) /\ Consume
==============================================================================
