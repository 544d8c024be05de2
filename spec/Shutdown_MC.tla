------------------------------ MODULE Shutdown_MC ------------------------------
(* Histories of messages, takings and termination around one distributor.       *)
EXTENDS Shutdown, TLC, Json

CONSTANTS MaxMsgs, MaxOps

VARIABLES hist, quick, n
mcvars == <<cancelled, asked, ret, inbox, dist, way, cap, chan, want, got, seen, state, hist, quick, n>>
View == <<cancelled, asked, ret, inbox, dist, way, chan, want, got, seen, quick, n, Len(hist)>>

MCInit == ShutdownInit(0, {}, 0) /\ hist = <<>> /\ quick = FALSE /\ n = 0
Go(op, q) == (quick \/ Quiet) /\ Len(hist) < MaxOps /\ hist' = Append(hist, op) /\ quick' = q
Do(op, q) == Go([op |-> op, quiet |-> q], q) /\ n' = n

MCMsg == /\ n < MaxMsgs /\ \E k \in {"ids", "block", "score"}, q \in BOOLEAN :
              Go([op |-> "msg", k |-> k, quiet |-> q], q) /\ Arrive([k |-> k, n |-> n + 1]) /\ n' = n + 1
MCTake == want = 0 /\ (way # <<>> \/ cancelled) /\ Do("take", FALSE) /\ Ready(1)
MCStand == want = 0 /\ \E q \in BOOLEAN : Do("stand", q) /\ Ready(100)
MCCancel == ~cancelled /\ \E q \in BOOLEAN : Do("cancel", q) /\ Cancel
MCStop == cancelled /\ asked = {} /\ Do("stop", FALSE) /\ Ask("dist")
MCHidden == Hidden /\ UNCHANGED <<hist, quick, n>>
MCForget == want = 1 /\ Quiet /\ Ready(0) /\ UNCHANGED <<hist, quick, n>>
MCNext == MCMsg \/ MCTake \/ MCStand \/ MCCancel \/ MCStop \/ MCHidden \/ MCForget
MCSpec == MCInit /\ [][MCNext]_mcvars

EmitTransition == hist' # hist => PrintT("OPS " \o ToJson(hist'))
InOrder == IsSubsequence(got, [i \in 1..MaxMsgs |-> i])
MCInv == NeverOfferedToNobody /\ InOrder
         /\ (Quiet /\ cancelled => dist = "done" /\ asked = ret)
===============================================================================
