------------------------------ MODULE Detector_MC ------------------------------
(* Bounded instance of Detector, and generator of the histories replayed on    *)
(* the real one.                                                               *)
EXTENDS Detector, Json

CONSTANTS Addrs, MaxBlocks, MaxConns, Emit, Rich

VARIABLES hist, cid

mcvars == <<dvars, hist, cid>>
NoNext == [a \in DOMAIN book |-> [book[a] EXCEPT !.next = 0]]
View == <<[b \in Known |-> <<blocks[b].par, blocks[b].kind>>], leash, NoNext, DOMAIN conn, [a \in Addrs |-> Cardinality({c \in DOMAIN open : open[c] = a})],
          {offered[c].a : c \in DOMAIN offered}>>

MCIsV4(a) == a # "v6"
MCIsLoopback(a) == a = "loop"
MCZero == <<0, 0, 0>>
MCVersions == <<<<1, 5, 0>>, <<1, 4, 0>>>>
MCNoBlock == -1
MCAdd(x, y) == x + y
MCLess(x, y) == x < y
MCScore(bt) == 1
MCAcceptable(bt, ts) == bt # 9
MCScoreLimit(s) == s # "huge"
Ghost == 999

Hs(ver, net, d) == [ver |-> ver, net |-> net, rname |-> "n", hname |-> "h", nonce |-> "7", daddr |-> d, dport |-> 68]
Shake(a) == [good |-> Hs(<<1, 4, 3>>, TRUE, a), old |-> Hs(<<1, 2, 0>>, TRUE, a), loop |-> Hs(<<1, 4, 3>>, TRUE, "loop")]

MCInit == DetectorInit(1, 0, 0, "self", MCVersions) /\ hist = <<>> /\ cid = 1

Do(op) == hist' = Append(hist, op)
Same1 == cid' = cid
New == Cardinality(Known)

MCAccept == \E a \in Addrs \cup {"v6"} :
    /\ Cardinality({c \in DOMAIN open : open[c] = a}) < 2 /\ Cardinality(DOMAIN open) + Cardinality(DOMAIN offered) < MaxConns
    /\ offered = <<>>
    /\ Accept(a, cid, 1) /\ Do([op |-> "accept", a |-> a, c |-> cid]) /\ cid' = cid + 1
MCIntroduce == \E c \in DOMAIN offered, k \in (IF Rich THEN {"good", "old", "loop"} ELSE {"good", "old"}) :
    /\ Introduce(c, Shake(offered[c].a)[k], 1)
    /\ Do([op |-> "shake", c |-> c, k |-> k]) /\ Same1
MCWithdraw == \E c \in DOMAIN offered : Rich /\ Withdraw(c) /\ Do([op |-> "leave", c |-> c]) /\ Same1
MCEnd == \E c \in DOMAIN open : End(c, 1) /\ Do([op |-> "end", c |-> c]) /\ Same1

MCBlock == \E c \in DOMAIN open, p \in Known \cup {Ghost}, bad \in BOOLEAN :
    /\ (bad => p = Genesis) /\ (New <= MaxBlocks \/ p = Ghost)
    /\ Block(c, IF p = Ghost THEN 50 ELSE IF bad THEN 60 ELSE New, p, IF bad THEN 9 ELSE 1, 1, 0)
    /\ Do([op |-> "block", c |-> c, b |-> IF p = Ghost THEN 50 ELSE IF bad THEN 60 ELSE New, p |-> p, bad |-> bad]) /\ Same1
MCAgain == \E c \in DOMAIN open, b \in {b \in Known \ {Genesis} : blocks[b].kind = "key"} :
    /\ Block(c, b, blocks[b].par, 1, 1, 0)
    /\ Do([op |-> "block", c |-> c, b |-> b, p |-> blocks[b].par, bad |-> FALSE]) /\ Same1
MCMicro == \E c \in DOMAIN open, r \in Known \cup {Ghost} :
    /\ New <= MaxBlocks
    /\ Micro(c, New, r) /\ Do([op |-> "micro", c |-> c, b |-> New, r |-> r]) /\ Same1
MCScoreMsg == \E c \in DOMAIN open, s \in {"5", "huge"} : Score(c, s) /\ Do([op |-> "score", c |-> c, s |-> s]) /\ Same1
MCAddresses == \E c \in DOMAIN open, a \in {"new", "v6", "self"} \cup Addrs :
    Addresses(c, <<<<a, 77>>>>) /\ Do([op |-> "peers", c |-> c, l |-> <<<<a, 77>>>>]) /\ Same1
MCList == \E c \in DOMAIN open, k \in {"ids", "sigs"}, l \in {<<>>, <<Genesis>>, <<Ghost, Genesis>>} :
    List(c, k, l) /\ Do([op |-> "list", c |-> c, k |-> k, l |-> l]) /\ Same1
MCAsk == \E c \in DOMAIN open : Ask(c) /\ Do([op |-> "ask", c |-> c]) /\ Same1
MCIgnored == \E c \in DOMAIN open : Ignored /\ Do([op |-> "other", c |-> c]) /\ Same1
MCMinute == Ask4Peers(1) /\ Do([op |-> "sleep", n |-> 1]) /\ Same1
MCReborn == Reborn("self", MCVersions) /\ Do([op |-> "reopen"]) /\ Same1

Msg == MCBlock \/ MCAgain \/ MCMicro \/ MCScoreMsg \/ MCAddresses \/ MCList \/ MCAsk \/ MCIgnored

MCNext == \/ MCAccept \/ MCIntroduce \/ MCWithdraw \/ MCEnd \/ Msg \/ MCMinute \/ MCReborn
MCSpec == MCInit /\ [][MCNext]_mcvars

(* A step that hands on or sends something, and the same state with that       *)
(* looked at, are one for the exploration: see View.                           *)
MCInv == DetectorOK
OnlySenders == [][\A c \in DOMAIN open : hist' # hist /\ hist'[Len(hist')].op \in {"block", "micro", "score", "list", "ask", "other"} /\ hist'[Len(hist')].c = c
                   => OnlySender(c)]_mcvars
HostileStays == [][\A a \in Hostile : book'[a].state = "hostile" /\ a \notin DOMAIN conn']_mcvars
EmitTransition == Emit = "transitions" => PrintT("OPS " \o ToJson(hist'))
===============================================================================
