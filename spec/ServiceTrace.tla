----------------------------- MODULE ServiceTrace ------------------------------
(* Validates recorded lives of a service with a socket of its own (listener or  *)
(* API) against what Shutdown.tla says about components, and that the socket is *)
(* served from start to end only.                                               *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,
          taken,        \* somebody else is listening at the address
          state,        \* "new", "starting", "open", "failed", "done"
          cancelled, ret

tvars == <<l, taken, state, cancelled, ret>>
Ev == Trace[l]
Holds(what, cond, detail) == IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", ToString(l), what, detail>>) /\ FALSE

(* What goes on by itself: listening begins or fails, and ends on cancellation. *)
Begins(s) == IF s # "starting" THEN {s} ELSE IF taken THEN {"starting", "failed"} ELSE {"starting", "open"}
Ends(s) == IF cancelled /\ s # "new" THEN {s, "done"} ELSE {s}
Next1 == UNION {Ends(s) : s \in Begins(state)}

Step ==
    \/ Ev.op = "new" /\ taken' = Ev.taken /\ state' = "new" /\ cancelled' = FALSE /\ ret' = FALSE
    \/ Ev.op = "run" /\ state = "new" /\ state' = "starting" /\ UNCHANGED <<taken, cancelled, ret>>
    \/ /\ Ev.op \in {"sleep", "open"} /\ state' \in Next1 /\ UNCHANGED <<taken, cancelled, ret>>
       /\ (Ev.probe = "refused" => state' # "open" \/ cancelled)
    \/ /\ Ev.op = "served" /\ Holds("served", Ev.probe = "served", Ev)
       /\ state' = "open" /\ state' \in Next1 /\ UNCHANGED <<taken, cancelled, ret>>
    \/ /\ Ev.op = "cancel" /\ cancelled' = TRUE /\ UNCHANGED <<taken, ret>> /\ state' \in Begins(state)
    \/ /\ Ev.op = "stop" /\ Holds("shutdown returned", Ev.ret = "ok", Ev)
       /\ cancelled /\ state' = "done" /\ ret' = TRUE /\ UNCHANGED <<taken, cancelled>>
    \/ /\ Ev.op = "gone" /\ (ret => Holds("nobody serves after shutdown", taken \/ Ev.probe = "refused", Ev))
       /\ UNCHANGED <<taken, state, cancelled, ret>>

TraceInit == l = 1 /\ taken = FALSE /\ state = "new" /\ cancelled = FALSE /\ ret = FALSE
TraceNext == l <= Len(Trace) /\ Holds("step ended", Ev.res = "ok", Ev) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
    \/ TLCGet("stats").diameter - 1 = Len(Trace)
    \/ PrintT(<<"REJECTED", ToString(TLCGet("stats").diameter)>>) /\ FALSE
===============================================================================
