----------------------------- MODULE ShutdownTrace -----------------------------
(* Validates recorded terminations of the real components against Shutdown.tla: *)
(* what happens on its own between two observations is for TLC to find.         *)
EXTENDS Shutdown, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, acted
tvars == <<cancelled, asked, ret, inbox, dist, way, cap, chan, want, got, seen, state, l, acted>>
View == <<cancelled, asked, ret, inbox, dist, way, cap, want, got, seen, state, l, acted>>

Ev == Trace[l]
ToSet(s) == {s[i] : i \in DOMAIN s}

New == /\ Ev.op = "new" /\ Ev.res = "ok"
       /\ cancelled' = FALSE /\ asked' = {} /\ ret' = {} /\ inbox' = <<>> /\ dist' = "idle" /\ way' = <<>>
       /\ cap' \in {0, 1000}
       /\ chan' = "open" /\ want' = (IF Ev.loader THEN 1000000 ELSE 0) /\ got' = <<>> /\ seen' = FALSE
       /\ state' = [c \in ToSet(Ev.comps) |-> "idle"]

Act == /\ ~acted /\ l <= Len(Trace) /\ Ev.res = "ok"
       /\ CASE Ev.op = "new" -> New
            [] Ev.op = "msg" -> Arrive([k |-> Ev.k, n |-> Ev.n])
            [] Ev.op = "take" -> Ready(IF want > 1 THEN want ELSE 1)
            [] Ev.op = "stand" -> Ready(1000000)
            [] Ev.op = "cancel" -> Cancel
            [] Ev.op = "stop" -> Ask(Ev.comp)
            [] Ev.op \in {"sleep", "connect", "score", "end"} -> UNCHANGED svars
       /\ IF Ev.quiet THEN l' = l + 1 /\ acted' = FALSE ELSE l' = l /\ acted' = TRUE

Look == /\ acted /\ Quiet
        /\ (Ev.watch => got = Ev.got /\ seen = Ev.closed)
        /\ ret = ToSet(Ev.ret)
        /\ (Ev.op = "end" => cancelled /\ asked = ret)
        /\ got' = <<>> /\ want' = (IF want = 1 THEN 0 ELSE want)
        /\ l' = l + 1 /\ acted' = FALSE
        /\ UNCHANGED <<cancelled, asked, ret, inbox, dist, way, cap, chan, seen, state>>

Silent == Hidden /\ UNCHANGED <<l, acted>>

TraceInit == l = 1 /\ acted = FALSE /\ ShutdownInit(0, {}, 0)
TraceNext == Act \/ Look \/ Silent
TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* Furthest point reached, for the verdict. *)
Reached == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
InitReached == TLCSet(1, 0)
ASSUME InitReached
TraceAccepted ==
    \/ TLCGet(1) = Len(Trace) + 1
    \/ /\ PrintT(<<"MISMATCH", ToString(TLCGet(1)), "no behaviour of the design leads to what was observed">>)
       /\ PrintT(<<"REJECTED", ToString(TLCGet(1))>>) /\ FALSE
===============================================================================
