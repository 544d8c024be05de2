---------------------------- MODULE Chains_CrashMC ----------------------------
(* Chains_MC with crashes between the two writes of a delivery: the store      *)
(* stays consistent, and goes on as if only the recording had happened (C10).  *)
EXTENDS Chains_MC

Cut == \/ \E p \in Known, a \in Peers : New <= MaxBlocks /\ RecordOnlyBlock(New, p, Bt(New), New, Gen(New))
       \/ \E r \in Known : New <= MaxBlocks /\ RecordOnlyMicro(New, r)

CrashNext == MCNext \/ (Cut /\ UNCHANGED hist)
CrashSpec == MCInit /\ [][CrashNext]_mcvars
===============================================================================
