----------------------------- MODULE Shutdown_Live -----------------------------
(* D03 on the whole design: main waits for the components in its order, peers   *)
(* go on sending, and the consumer is there as long as the loader is.           *)
EXTENDS Shutdown

CONSTANTS Order, MaxMsgs

VARIABLES pc, sent
lvars == <<cancelled, asked, ret, inbox, dist, way, cap, chan, want, got, seen, state, pc, sent>>

MCOrder == <<"api", "listener", "respawn", "loader", "dist">>
Others == Components \ {"dist"}

LInit == ShutdownInit(0, Others, 0) /\ pc = 0 /\ sent = 0

Peers == /\ sent < MaxMsgs /\ sent' = sent + 1
         /\ \E k \in {"ids", "score"} : Arrive([k |-> k, n |-> sent + 1])
         /\ UNCHANGED pc
User == ~cancelled /\ Cancel /\ UNCHANGED <<pc, sent>>

(* The loader takes when it is at rest, and is busy with what it took. *)
Take == /\ state["loader"] = "idle" /\ way # <<>>
        /\ got' = Append(got, Head(way).n) /\ way' = Tail(way)
        /\ dist' = IF dist = "offer" THEN "idle" ELSE dist
        /\ state' = [state EXCEPT !["loader"] = "busy"]
        /\ UNCHANGED <<cancelled, asked, ret, inbox, cap, chan, want, seen, pc, sent>>
Main == \/ pc = 0 /\ cancelled /\ pc' = 1 /\ Ask(Order[1]) /\ UNCHANGED sent
        \/ /\ pc \in DOMAIN Order /\ Order[pc] \in ret
           /\ pc' = pc + 1 /\ UNCHANGED sent
           /\ IF pc + 1 \in DOMAIN Order THEN Ask(Order[pc + 1]) ELSE UNCHANGED svars
Keep(A) == A /\ UNCHANGED <<pc, sent>>
LNext == \/ Peers \/ User \/ Take \/ Main
         \/ Keep(Handle) \/ Keep(GiveUp) \/ Keep(DistStop)
         \/ \E c \in Components : Keep(Begin(c)) \/ Keep(Finish(c)) \/ Keep(Stop(c)) \/ Keep(Return(c))
LSpec == /\ LInit /\ [][LNext]_lvars
         /\ WF_lvars(Take) /\ WF_lvars(Main) /\ WF_lvars(Keep(Handle)) /\ WF_lvars(Keep(GiveUp)) /\ SF_lvars(Keep(DistStop))
         /\ \A c \in Components : WF_lvars(Keep(Finish(c))) /\ SF_lvars(Keep(Stop(c))) /\ WF_lvars(Keep(Return(c)))

Terminates == cancelled ~> (pc = Len(Order) + 1)
AllEnded == pc = Len(Order) + 1 => \A c \in Components : Ended(c)
InOrder == IsSubsequence(got, [i \in 1..MaxMsgs |-> i])
NothingToNobody == [][chan = "closed" => got' = got]_lvars
===============================================================================
