------------------------------- MODULE Shutdown --------------------------------
(* Termination of the detector (D03). The distributor handles what peers sent   *)
(* and hands part of it over to the loader; main waits for one component after  *)
(* another once termination was requested.                                      *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS GivesUp,      \* the distributor gives a hand-over up when termination is requested
          Components    \* those main waits for

VARIABLES cancelled,    \* termination was requested
          asked,        \* components somebody waits for
          ret,          \* components that somebody waited for to the end
          inbox,        \* messages of peers not handled yet: [k, n]
          dist,         \* distributor: "idle", "offer", "done"
          way,          \* what the distributor offers, or what is on its way
          cap,          \* how many can be on their way
          chan,         \* channels between distributor and loader: "open", "closed"
          want,         \* how many the consumer is ready to take now
          got,          \* what the consumer took
          seen,         \* the consumer saw that nothing more will come
          state         \* component other than the distributor -> "idle", "busy", "done"

svars == <<cancelled, asked, ret, inbox, dist, way, cap, chan, want, got, seen, state>>

Forwarded == {"ids", "sigs", "block", "orphan"}

ShutdownInit(c, others, w) ==
    /\ cancelled = FALSE /\ asked = {} /\ ret = {} /\ inbox = <<>> /\ dist = "idle" /\ way = <<>> /\ cap = c
    /\ chan = "open" /\ want = w /\ got = <<>> /\ seen = FALSE /\ state = [x \in others |-> "idle"]

Arrive(m) == inbox' = Append(inbox, m) /\ UNCHANGED <<cancelled, asked, ret, dist, way, cap, chan, want, got, seen, state>>
Cancel == cancelled' = TRUE /\ UNCHANGED <<asked, ret, inbox, dist, way, cap, chan, want, got, seen, state>>
Ask(c) == asked' = asked \cup {c} /\ UNCHANGED <<cancelled, ret, inbox, dist, way, cap, chan, want, got, seen, state>>
Ready(w) == want' = w /\ UNCHANGED <<cancelled, asked, ret, inbox, dist, way, cap, chan, got, seen, state>>

---- (* distributor *)
Handle ==
    /\ dist = "idle" /\ inbox # <<>>
    /\ inbox' = Tail(inbox)
    /\ IF Head(inbox).k \in Forwarded
       THEN way' = Append(way, Head(inbox)) /\ dist' = IF Len(way') > cap THEN "offer" ELSE "idle"
       ELSE UNCHANGED <<way, dist>>
    /\ UNCHANGED <<cancelled, asked, ret, cap, chan, want, got, seen, state>>

GiveUp ==
    /\ GivesUp /\ cancelled /\ dist = "offer"
    /\ way' = SubSeq(way, 1, Len(way) - 1) /\ dist' = "idle"
    /\ UNCHANGED <<cancelled, asked, ret, inbox, cap, chan, want, got, seen, state>>

DistStop == cancelled /\ dist = "idle" /\ dist' = "done"
            /\ UNCHANGED <<cancelled, asked, ret, inbox, way, cap, chan, want, got, seen, state>>

---- (* consumer of what the distributor offers *)
HandOver ==
    /\ want > 0 /\ way # <<>>
    /\ got' = Append(got, Head(way).n) /\ way' = Tail(way) /\ want' = want - 1
    /\ dist' = IF dist = "offer" THEN "idle" ELSE dist
    /\ UNCHANGED <<cancelled, asked, ret, inbox, cap, chan, seen, state>>

SeeEnd == want > 0 /\ way = <<>> /\ chan = "closed" /\ ~seen /\ seen' = TRUE
          /\ UNCHANGED <<cancelled, asked, ret, inbox, dist, way, cap, chan, want, got, state>>

---- (* loader, dialling loop, listener, API: they are at work now and then *)
Begin(c) == c \in DOMAIN state /\ state[c] = "idle" /\ state' = [state EXCEPT ![c] = "busy"]
            /\ UNCHANGED <<cancelled, asked, ret, inbox, dist, way, cap, chan, want, got, seen>>
Finish(c) == c \in DOMAIN state /\ state[c] = "busy" /\ state' = [state EXCEPT ![c] = "idle"]
             /\ UNCHANGED <<cancelled, asked, ret, inbox, dist, way, cap, chan, want, got, seen>>
Stop(c) == cancelled /\ c \in DOMAIN state /\ state[c] = "idle" /\ state' = [state EXCEPT ![c] = "done"]
           /\ UNCHANGED <<cancelled, asked, ret, inbox, dist, way, cap, chan, want, got, seen>>

Ended(c) == IF c = "dist" THEN dist = "done" ELSE state[c] = "done"

(* The wait for a component ends; after that for the distributor nothing more can be handed over. *)
Return(c) ==
    /\ c \in asked \ ret /\ Ended(c)
    /\ ret' = ret \cup {c}
    /\ chan' = IF c = "dist" THEN "closed" ELSE chan
    /\ UNCHANGED <<cancelled, asked, inbox, dist, way, cap, want, got, seen, state>>

Hidden == Handle \/ GiveUp \/ DistStop \/ HandOver \/ SeeEnd \/ \E c \in Components : Stop(c) \/ Return(c)

(* Nothing goes on by itself anymore. *)
Quiet == /\ (dist = "idle" => inbox = <<>> /\ ~cancelled)
         /\ (dist = "offer" => ~(GivesUp /\ cancelled))
         /\ (want > 0 => way = <<>> /\ (chan = "closed" => seen))
         /\ (cancelled => \A c \in DOMAIN state : state[c] = "done")
         /\ \A c \in asked \ ret : ~Ended(c)

---- (* properties of the design *)
NeverOfferedToNobody == dist = "offer" => chan = "open"
IsSubsequence(s, t) ==      \* numbers are ascending
    \A i \in DOMAIN s : /\ \E j \in DOMAIN t : t[j] = s[i]
                        /\ (i > 1 => s[i - 1] < s[i])
===============================================================================
