-------------------------------- MODULE Network --------------------------------
(* The detector within a network of nodes: how addresses spread, who comes to  *)
(* be connected, and where the positions of the connected nodes end up. Time,   *)
(* messages and the trees of blocks are left out: they are in Registry, Loader, *)
(* Detector and Chains.                                                         *)
EXTENDS Integers, FiniteSets, Sequences, TLC

VARIABLES
    net,        \* node -> [kind, listen, call, tells]; what the nodes are like
    known,      \* addresses the detector has heard of
    up,         \* nodes with a connection
    ever,       \* nodes that had one
    height,     \* node -> height of its chain
    at          \* node -> height of its position, for those that have one

nvars == <<net, known, up, ever, height, at>>

Nodes == DOMAIN net
(* Nodes that shake hands as nodes of this network, in a version that goes.     *)
Shakes(n) == net[n].kind \in {"good", "quiet"}
(* Nodes that have a chain, and give it away.                                   *)
Serves(n) == net[n].kind = "good"

NetworkInit(N, seeds) ==
    /\ net = N /\ known = seeds /\ up = {} /\ ever = {}
    /\ height = [n \in DOMAIN N |-> 1] /\ at = <<>>

Connect(n) == up' = up \cup {n} /\ ever' = ever \cup {n}

(* The detector dials an address it knows. *)
Dial(n) == /\ n \in (known \cap Nodes) \ up /\ net[n].listen /\ Shakes(n)
           /\ Connect(n) /\ UNCHANGED <<net, known, height, at>>
(* A node calls; with that its address is known. *)
Call(n) == /\ n \in Nodes \ up /\ net[n].call /\ Shakes(n)
           /\ Connect(n) /\ known' = known \cup {n} /\ UNCHANGED <<net, height, at>>
Tell(n) == /\ n \in up
           /\ known' = known \cup net[n].tells /\ UNCHANGED <<net, up, ever, height, at>>
At(n) == IF n \in DOMAIN at THEN at[n] ELSE 0
Load(n, k) == /\ n \in up /\ Serves(n) /\ At(n) < height[n]
              /\ at' = (n :> At(n) + k) @@ at /\ At(n) + k <= height[n]
              /\ UNCHANGED <<net, known, up, ever, height>>
Grow(n) == height' = [height EXCEPT ![n] = @ + 1] /\ UNCHANGED <<net, known, up, ever, at>>
(* A connection ends; or the detector does, to be started again with what it has on disk. *)
Lose(n) == n \in up /\ up' = up \ {n} /\ UNCHANGED <<net, known, ever, height, at>>
Kill == up' = {} /\ UNCHANGED <<net, known, ever, height, at>>

-------------------------------------------------------------------------------
(* Who is to be connected in the end: whoever calls or is known, listens and    *)
(* shakes hands, where connected nodes tell what they know.                     *)
RECURSIVE ReachFrom(_, _)
ReachFrom(K, U) ==
    LET U2 == {n \in Nodes : Shakes(n) /\ (net[n].call \/ (net[n].listen /\ n \in K))}
        K2 == K \cup U2 \cup UNION {net[n].tells : n \in U2}
    IN IF U2 = U /\ K2 = K THEN U ELSE ReachFrom(K2, U2)
Reach == ReachFrom(known, {})
(* What is known in the end, and what may be dialled on the way. *)
Heard(S) == UNION {net[n].tells : n \in S}

NothingInvented(seeds) == known \subseteq seeds \cup Heard(ever) \cup {n \in Nodes : net[n].call}
OnlyNodes == up \subseteq ever /\ \A n \in ever : Shakes(n) /\ n \in known \cup {m \in Nodes : net[m].call}
PositionsReal == \A n \in DOMAIN at : n \in ever /\ Serves(n) /\ at[n] <= height[n]
Settled == up = Reach /\ \A n \in Reach : Serves(n) => At(n) = height[n]
===============================================================================
