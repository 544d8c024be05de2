--------------------------------- MODULE Api ----------------------------------
(* What the HTTP API answers, as views of the chain store (Chains) and of the  *)
(* peer registry: the address book and the set of connected addresses.         *)
EXTENDS Chains

VARIABLES
    book,       \* address -> record with field `state`
    conn        \* connected addresses

avars == <<blocks, heads, leash, book, conn>>

OK == 200
BadRequest == 400
NotFound == 404

FriendlyPeers == {a \in DOMAIN book : book[a].state = "connected"}

(* Forks asked for: of all positions, or of the requested addresses.           *)
ForksOf(req) == IF req = {} THEN Leashed ELSE req
(* Active forks: always of connected peers only.                               *)
ActiveOf(req) == IF req = {} THEN conn ELSE conn \cap req

(* Positions grouped by block. *)
LeashGroup(b) == [id |-> b, h |-> blocks[b].h, score |-> blocks[b].score, ts |-> blocks[b].ts,
                  gen |-> blocks[b].gen, peers |-> PeersOn(b, Leashed)]
IsLeashesReport(rep) ==
    /\ Len(rep) = Cardinality(ForkHeads(Leashed))
    /\ {rep[i] : i \in DOMAIN rep} = {LeashGroup(b) : b \in ForkHeads(Leashed)}
    /\ \A i \in DOMAIN rep : i > 1 => ~Outranks(rep[i].id, rep[i - 1].id, Leashed)

HeadInfo(n) == [n |-> n, id |-> heads[n], h |-> blocks[heads[n]].h, score |-> blocks[heads[n]].score, ts |-> blocks[heads[n]].ts]
IsHeadsReport(rep) ==
    /\ Len(rep) = Cardinality(ActiveHeads)
    /\ {rep[i] : i \in DOMAIN rep} = {HeadInfo(n) : n \in ActiveHeads}

StatusViews == {[long |-> s.long, short |-> s.short, all |-> Cardinality(DOMAIN book),
                 friendly |-> Cardinality(FriendlyPeers), connected |-> Cardinality(conn)] : s \in StatsViews}

(* How many blocks generators are counted over when the request says 0. *)
DefaultCount(e) == IF e.longest THEN 1000 ELSE e.len
IsForkGenerators(rep, a, n) ==
    \E e \in ForkViews(a) : IsGeneratorsReport(rep, e.head, IF n = 0 THEN DefaultCount(e) ELSE n)

(* Statuses for a request about one peer. *)
PeerStatuses(a, badAddr, badCount) ==
    IF badAddr THEN {BadRequest}
    ELSE IF badCount THEN IF a \in Leashed THEN {BadRequest} ELSE {BadRequest, NotFound}
    ELSE IF a \in Leashed THEN {OK} ELSE {NotFound}
===============================================================================
