------------------------------ MODULE Chains_MC -------------------------------
(* Bounded instance of Chains for exhaustive checking, and generator of the    *)
(* operation sequences replayed on the real store. Blocks are numbered in the  *)
(* order of creation; `hist` is the operation history, hidden by VIEW.         *)
EXTENDS Chains, Json

CONSTANTS MaxBlocks,    \* number of blocks beside genesis
          Peers,
          Moves,        \* BOOLEAN: include explicit moves and repeated deliveries
          Emit          \* "transitions", "states" or "no"

VARIABLE hist

MCAdd(x, y) == x + y
MCLess(x, y) == x < y
\* Weights: ties, zero and non-monotonic steps occur among the first blocks.
MCAcceptable(bt, ts) == bt # 9
MCScore(bt) == <<4, 2, 2, 0, 3, 2, 1, 4>>[bt]
Bt(b) == (b % 8) + 1
Gen(b) == b % 3
MCNoBlock == -1
Ghost == -7             \* never recorded

New == Cardinality(Known)

mcvars == <<blocks, heads, leash, hist>>
View == cvars

MCInit == ChainsInit(1, 0, 0) /\ hist = <<>>

Do(op) == hist' = Append(hist, op)

DeliverNew == \E p \in Known, a \in Peers :
    /\ New <= MaxBlocks
    /\ PutBlock(New, p, Bt(New), New, Gen(New), a)
    /\ Do([op |-> "put", b |-> New, p |-> p, bt |-> Bt(New), gen |-> Gen(New), a |-> a])

DeliverKnown == \E b \in Known, a \in Peers :
    /\ Moves
    /\ PutBlock(b, IF b = Genesis THEN Ghost ELSE blocks[b].par, Bt(b), b, Gen(b), a)
    /\ Do([op |-> "put", b |-> b, p |-> IF b = Genesis THEN Ghost ELSE blocks[b].par,
           bt |-> Bt(b), gen |-> Gen(b), a |-> a])

DeliverOrphan == \E a \in Peers :
    /\ Moves
    /\ PutBlock(New, Ghost, Bt(New), New, Gen(New), a)
    /\ Do([op |-> "put", b |-> New, p |-> Ghost, bt |-> Bt(New), gen |-> Gen(New), a |-> a])

DeliverBad == \E a \in Peers, p \in Known :
    /\ Moves
    /\ PutBlock(New, p, 9, New, Gen(New), a)
    /\ Do([op |-> "put", b |-> New, p |-> p, bt |-> 9, gen |-> Gen(New), a |-> a])

AnnounceNew == \E r \in Known \ {Genesis}, a \in Peers :
    /\ New <= MaxBlocks
    /\ PutMicro(New, r, a)
    /\ Do([op |-> "micro", b |-> New, r |-> r, a |-> a])

AnnounceKnown == \E b \in Known \ {Genesis}, r \in Known \cup {Ghost}, a \in Peers :
    /\ Moves
    /\ PutMicro(b, r, a)
    /\ Do([op |-> "micro", b |-> b, r |-> r, a |-> a])

AnnounceGhost == \E a \in Peers :
    /\ Moves
    /\ PutMicro(New, Ghost, a)
    /\ Do([op |-> "micro", b |-> New, r |-> Ghost, a |-> a])

Move == \E b \in Known, a \in Peers :
    /\ Moves
    /\ MoveLeash(b, a)
    /\ Do([op |-> "move", b |-> b, a |-> a])

MCNext == DeliverNew \/ DeliverKnown \/ DeliverOrphan \/ DeliverBad \/ AnnounceNew \/ AnnounceKnown \/ AnnounceGhost \/ Move
MCSpec == MCInit /\ [][MCNext]_mcvars

(* One operation sequence per transition (an action constraint sees every      *)
(* transition, also those into states already known) or per state.             *)
EmitTransition == Emit = "transitions" => PrintT("OPS " \o ToJson(hist'))
EmitState == Emit = "states" /\ New = MaxBlocks + 1 => PrintT("OPS " \o ToJson(hist))

MCInv == TreeOK /\ HeadsOK /\ LeashOK /\ LCAOK /\ SkipLCAOK /\ ViewsOK
===============================================================================
