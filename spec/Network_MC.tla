------------------------------ MODULE Network_MC -------------------------------
(* All networks of a few nodes. *)
EXTENDS Network, Json, SequencesExt

CONSTANTS N, MaxHeight, MaxTrouble, Emit

VARIABLES trouble
mcvars == <<nvars, trouble>>

Ns == 1..N
Kinds == {"good", "quiet", "foreign", "mute"}
Specs == {s \in [kind : Kinds, listen : BOOLEAN, call : BOOLEAN, tells : SUBSET Ns] :
             /\ (s.kind \in {"foreign", "mute"} => s.tells = {})
             /\ (s.listen \/ s.call) /\ (s.kind = "mute" => ~s.call)}
Seeds == {1}

MCInit == /\ \E M \in [Ns -> Specs] : NetworkInit(M, Seeds)
          /\ (\A n \in Ns : n \notin net[n].tells)
          /\ trouble = 0
MCNext == \/ \E n \in Ns : (Dial(n) \/ Call(n) \/ Tell(n) \/ Load(n, 1)) /\ UNCHANGED trouble
          \/ \E n \in Ns : Grow(n) /\ height[n] < MaxHeight /\ UNCHANGED trouble
          \/ /\ trouble < MaxTrouble /\ trouble' = trouble + 1
             /\ (Kill \/ \E n \in Ns : Lose(n))
MCSpec == MCInit /\ [][MCNext]_mcvars
LiveSpec == MCSpec /\ \A n \in Ns : /\ WF_mcvars(Dial(n) /\ UNCHANGED trouble) /\ WF_mcvars(Call(n) /\ UNCHANGED trouble)
                                    /\ WF_mcvars(Tell(n) /\ UNCHANGED trouble)
                                    /\ WF_mcvars(Load(n, 1) /\ UNCHANGED trouble)
MCInv == NothingInvented(Seeds) /\ OnlyNodes /\ PositionsReal
\* What is going to be reached only grows, whatever is lost on the way.
ReachStable == [][Reach \subseteq Reach']_mcvars
Live == <>[]Settled

(* Networks are handed out as scenarios. *)
NetRec == [n \in Ns |-> [kind |-> net[n].kind, listen |-> net[n].listen, call |-> net[n].call, tells |-> SetToSeq(net[n].tells)]]
EmitNet == (Emit = "nets" /\ up = {} /\ known = Seeds /\ trouble = 0 /\ \A n \in Ns : height[n] = 1)
             => PrintT("OPS " \o ToJson(<<[nodes |-> NetRec, reach |-> SetToSeq(Reach)]>>))
===============================================================================
