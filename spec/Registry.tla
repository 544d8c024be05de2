------------------------------- MODULE Registry --------------------------------
(* The peer registry as a sequential object: the address book with the record  *)
(* of every peer ever heard of, the current connections, and the addresses     *)
(* handed out for dialling whose attempt has not ended yet.                    *)
(*                                                                             *)
(* Time is an argument of the operations (seconds on any clock). Versions are  *)
(* triples. A handshake is a record                                            *)
(*   [ver, net (right network), rname (name under which it is recorded),       *)
(*    hname (name recorded for a hostile peer), nonce, daddr ("" if none),     *)
(*    dport].                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS IsV4(_), IsLoopback(_),
          Delay,        \* pause between attempts on one address: ten minutes
          NoScore, Zero \* score never announced; version of a peer never talked to

VARIABLES
    book,       \* address -> record
    conn,       \* address -> connection
    handed,     \* addresses handed out, attempt in progress
    self,       \* own declared address, "" if none
    versions    \* configured versions, newest first, without repetitions

rvars == <<book, conn, handed, self, versions>>

Listed == DOMAIN book
Connected == DOMAIN conn
Hostile == {a \in Listed : book[a].state = "hostile"}
Friendly == {a \in Listed : book[a].state = "connected"}

RegistryInit(s, vs) == /\ book = <<>> /\ conn = <<>> /\ handed = {}
                       /\ self = s /\ versions = vs

Without(f, a) == [x \in DOMAIN f \ {a} |-> f[x]]

-------------------------------------------------------------------------------
(* Dialling candidates (P01) *)

Eligible(t) ==
    {a \in Listed : /\ book[a].state # "hostile"
                    /\ book[a].port # 0
                    /\ a # self
                    /\ a \notin Connected
                    /\ a \notin handed
                    /\ book[a].next <= t}

Take(t) == /\ handed' = handed \cup Eligible(t)
           /\ UNCHANGED <<book, conn, self, versions>>

-------------------------------------------------------------------------------
(* Registration of an established connection (P02, P03) *)

(* Same major version, minor versions at most one apart. *)
Compatible(v, w) == v[1] = w[1] /\ (v[2] = w[2] \/ v[2] = w[2] + 1 \/ v[2] + 1 = w[2])

Outcome(a, h) ==
    IF ~IsV4(a) THEN "refused"
    ELSE IF a = self THEN "refused"
    ELSE IF a \in Hostile THEN "refused"
    ELSE IF a \notin Listed \/ ~Compatible(h.ver, book[a].ver) \/ ~h.net THEN "hostile"
    ELSE IF h.daddr # "" /\ (IsLoopback(h.daddr) \/ ~IsV4(h.daddr) \/ h.dport > 65535) THEN "refused"
    ELSE "connected"

Fresh(p) == [port |-> p, nonce |-> "0", name |-> "", ver |-> Zero, state |-> "unknown", next |-> 0, score |-> NoScore]

Old(a) == IF a \in Listed THEN book[a] ELSE Fresh(0)

AsHostile(a, h) == [Old(a) EXCEPT !.state = "hostile", !.ver = h.ver, !.name = h.hname]
AsConnected(a, h, t) ==
    [book[a] EXCEPT !.state = "connected", !.ver = h.ver, !.name = h.rname, !.nonce = h.nonce,
                    !.port = IF h.daddr = a THEN h.dport ELSE 0, !.next = t]

(* Connections that must be closed by the registration of connection c. *)
MustClose(a, c, h) ==
    CASE Outcome(a, h) = "refused" -> {c}
      [] Outcome(a, h) = "hostile" -> {c} \cup (IF a \in Connected THEN {conn[a]} ELSE {})
      [] OTHER -> {}

Register(a, c, h, t) ==
    /\ handed' = handed \ {a}
    /\ CASE Outcome(a, h) = "refused" -> UNCHANGED <<book, conn>>
         [] Outcome(a, h) = "hostile" -> /\ book' = (a :> AsHostile(a, h)) @@ book
                                         /\ conn' = Without(conn, a)
         [] OTHER -> /\ book' = (a :> AsConnected(a, h, t)) @@ book
                     /\ conn' = (a :> c) @@ conn
    /\ UNCHANGED <<self, versions>>

(* The attempt on address a failed, or connection c to it ended (c = 0: no     *)
(* connection was made). Another connection to the address is not affected.    *)
EndsNothing(a, c) == a \in Connected /\ conn[a] # c

Unregister(a, c, t) ==
    /\ handed' = IF a \in Listed THEN handed \ {a} ELSE handed
    /\ IF a \in Listed /\ ~EndsNothing(a, c)
       THEN /\ book' = [book EXCEPT ![a].next = t + Delay]
            /\ conn' = Without(conn, a)
       ELSE UNCHANGED <<book, conn>>
    /\ UNCHANGED <<self, versions>>

MarkHostile(a) ==
    /\ book' = (a :> [Old(a) EXCEPT !.state = "hostile", !.port = 0]) @@ book
    /\ conn' = Without(conn, a)
    /\ handed' = handed \ {a}
    /\ UNCHANGED <<self, versions>>

-------------------------------------------------------------------------------
(* The address book (P04, P06) *)

(* Of a list of <<address, port>>, those positions that add a peer. *)
Adds(list) ==
    {i \in DOMAIN list : /\ IsV4(list[i][1]) /\ ~IsLoopback(list[i][1])
                         /\ list[i][1] # self
                         /\ list[i][1] \notin Listed
                         /\ \A j \in 1..(i - 1) : list[j][1] # list[i][1]}

BookWith(list) ==
    LET adds == Adds(list)
    IN IF adds = {} THEN book
       ELSE book @@ [a \in {list[i][1] : i \in adds} |->
                        Fresh(list[CHOOSE i \in adds : list[i][1] = a][2])]

Discover(list) == /\ book' = BookWith(list)
                  /\ UNCHANGED <<conn, handed, self, versions>>

Announce(a, s) == /\ book' = IF a \in Listed THEN [book EXCEPT ![a].score = s] ELSE book
                  /\ UNCHANGED <<conn, handed, self, versions>>

-------------------------------------------------------------------------------
(* Version negotiation (P05) *)

SameMinor(v, w) == v[1] = w[1] /\ v[2] = w[2]

NextVersion(v) ==
    IF \E i \in 1..(Len(versions) - 1) : SameMinor(versions[i], v)
    THEN versions[1 + CHOOSE i \in 1..(Len(versions) - 1) : SameMinor(versions[i], v)]
    ELSE versions[1]

Refused == <<"refused">>

Suggestion(a) ==
    IF a \notin Listed THEN IF IsV4(a) THEN versions[1] ELSE Refused
    ELSE CASE book[a].state = "unknown" -> NextVersion(book[a].ver)
           [] book[a].state = "connected" -> book[a].ver
           [] OTHER -> Refused

Suggest(a, t) ==
    /\ book' = IF Suggestion(a) = Refused \/ a \in Friendly THEN book
               ELSE (a :> [Old(a) EXCEPT !.ver = Suggestion(a), !.next = t + Delay]) @@ book
    /\ UNCHANGED <<conn, handed, self, versions>>

-------------------------------------------------------------------------------
(* Restart: the book stays; the configuration may have changed. *)

Restart(s, vs) == /\ conn' = <<>> /\ handed' = {}
                  /\ self' = s /\ versions' = vs
                  /\ UNCHANGED book

-------------------------------------------------------------------------------
(* Properties of the design *)

HostileApart == Hostile \cap (Connected \cup handed) = {}
ConnectedFriendly == Connected \subseteq Friendly
OneEndEach == \A a, b \in Connected : conn[a] = conn[b] => a = b
HandedApart == handed \cap Connected = {} /\ handed \subseteq Listed
BookAddresses == \A a \in Listed : IsV4(a)

RegistryOK == HostileApart /\ ConnectedFriendly /\ OneEndEach /\ HandedApart /\ BookAddresses

HostileForever == [][\A a \in Hostile : a \in Listed' /\ book'[a].state = "hostile"]_rvars
NobodyForgotten == [][Listed \subseteq Listed']_rvars
(* An operation changes the record of at most one peer, or adds new ones. *)
OneRecordAtATime == [][\A a, b \in Listed : book'[a] # book[a] /\ book'[b] # book[b] => a = b]_rvars
(* A friendly peer never becomes unknown again. *)
NotForgotten == [][\A a \in Friendly : book'[a].state # "unknown"]_rvars
(* A score survives everything but a newer score. *)
ScoreKept == [][\A a \in Listed : book[a].score # NoScore => book'[a].score # NoScore]_rvars
===============================================================================
