------------------------------- MODULE Detector --------------------------------
(* The whole detector as its peers see it: connections are accepted and        *)
(* introduced, messages arrive on them and act on the chain store (Chains), on *)
(* the peer registry (Registry), on what is handed to the history loader and   *)
(* on what is sent back.                                                       *)
EXTENDS Chains, Registry

CONSTANTS ScoreLimit(_)     \* announced score within the size the protocol allows

VARIABLES
    offered,    \* accepted connection, not introduced yet -> [a: address, ver: version offered]
    open,       \* introduced connection -> address
    shut,       \* connections the detector must have closed
    fwd,        \* handed to the loader since last looked at, in order
    out         \* sent since last looked at: [c, k(ind), l(ist), v(ersion)] -> how many times

nvars == <<offered, open, shut, fwd, out>>
dvars == <<blocks, heads, leash, book, conn, handed, self, versions, offered, open, shut, fwd, out>>

DetectorInit(bt, ts, gen, s, vs) ==
    /\ ChainsInit(bt, ts, gen) /\ RegistryInit(s, vs)
    /\ offered = <<>> /\ open = <<>> /\ shut = {} /\ fwd = <<>> /\ out = <<>>

Sent(c, k, l, v) == [c |-> c, k |-> k, l |-> l, v |-> v]
Send(o, m, n) == IF n = 0 THEN o ELSE IF m \in DOMAIN o THEN [o EXCEPT ![m] = @ + n] ELSE o @@ (m :> n)

RECURSIVE SendAll(_, _, _)
SendAll(o, S, n) == IF S = {} THEN o ELSE LET m == CHOOSE m \in S : TRUE IN SendAll(Send(o, m, n), S \ {m}, n)

-------------------------------------------------------------------------------
(* Connections (D01, D04) *)

(* A connection from address a: a protocol version is chosen, or it is refused. *)
Accept(a, c, t) ==
    /\ Suggest(a, t)
    /\ IF Suggestion(a) = Refused
       THEN shut' = shut \cup {c} /\ UNCHANGED offered
       ELSE offered' = (c :> [a |-> a, ver |-> Suggestion(a)]) @@ offered /\ UNCHANGED shut
    /\ UNCHANGED <<cvars, open, fwd, out>>

(* The peer introduced itself; it learns who we are and is registered.         *)
Introduce(c, h, t) ==
    LET a == offered[c].a
    IN /\ Register(a, c, h, t)
       /\ offered' = Without(offered, c)
       /\ shut' = shut \cup MustClose(a, c, h)
       /\ open' = [x \in (DOMAIN open \cup {c}) \ MustClose(a, c, h) |-> IF x = c THEN a ELSE open[x]]
       /\ out' = Send(out, Sent(c, "handshake", {}, offered[c].ver), 1)
       /\ UNCHANGED <<cvars, fwd>>

(* It left before that. *)
Withdraw(c) == /\ offered' = Without(offered, c)
               /\ UNCHANGED <<cvars, rvars, open, shut, fwd, out>>

(* The connection ended, or its peer broke the protocol. *)
End(c, t) == /\ Unregister(open[c], c, t)
             /\ open' = Without(open, c)
             /\ shut' = shut \cup {c}
             /\ UNCHANGED <<cvars, offered, fwd, out>>

-------------------------------------------------------------------------------
(* Messages on connection c (D01) *)

From(c) == open[c]

Block(c, b, p, bt, ts, gen) ==
    /\ PutBlock(b, p, bt, ts, gen, From(c))
    /\ fwd' = IF PutBlockResult(b, p, bt, ts) = "error" THEN fwd
              ELSE Append(fwd, [k |-> "block", a |-> From(c), l |-> <<b>>])
    /\ UNCHANGED <<rvars, offered, open, shut, out>>

Micro(c, t, r) == PutMicro(t, r, From(c)) /\ UNCHANGED <<rvars, nvars>>

Score(c, s) == /\ IF ScoreLimit(s) THEN Announce(From(c), s) ELSE UNCHANGED rvars
               /\ UNCHANGED <<cvars, nvars>>

Addresses(c, list) == Discover(list) /\ UNCHANGED <<cvars, nvars>>

(* Lists of block signatures always reach the loader, lists of ids if not empty. *)
List(c, k, l) == /\ fwd' = IF k = "ids" /\ l = <<>> THEN fwd ELSE Append(fwd, [k |-> "ids", a |-> From(c), l |-> l])
                 /\ UNCHANGED <<cvars, rvars, offered, open, shut, out>>

PublicAddresses == {<<a, book[a].port>> : a \in Friendly}

Ask(c) == /\ out' = Send(out, Sent(c, "peers", PublicAddresses, Zero), 1)
          /\ UNCHANGED <<cvars, rvars, offered, open, shut, fwd>>

(* Messages of other kinds, or without meaning. *)
Ignored == UNCHANGED dvars

(* Every minute all connected peers are asked for addresses; n minutes passed.  *)
Ask4Peers(n) == /\ out' = SendAll(out, {Sent(conn[a], "getpeers", {}, Zero) : a \in Connected}, n)
                /\ UNCHANGED <<cvars, rvars, offered, open, shut, fwd>>

Reborn(s, vs) == /\ Restart(s, vs)
                 /\ offered' = <<>> /\ open' = <<>> /\ shut' = {} /\ fwd' = <<>> /\ out' = <<>>
                 /\ UNCHANGED cvars

-------------------------------------------------------------------------------
(* Properties of the design *)

ConnectedOpen == \A a \in Connected : conn[a] \in DOMAIN open /\ open[conn[a]] = a
NoneBoth == shut \cap (DOMAIN open \cup DOMAIN offered) = {} /\ DOMAIN open \cap DOMAIN offered = {}
HostileOut == \A c \in DOMAIN open : open[c] \notin Hostile \/ conn = <<>> \/ c \notin {conn[a] : a \in Connected}
LeashedSpoke == \A a \in Leashed : a \in Listed
DetectorOK == RegistryOK /\ TreeOK /\ HeadsOK /\ LeashOK /\ ConnectedOpen /\ NoneBoth /\ HostileOut /\ LeashedSpoke

(* A message changes the position or score of nobody but its sender's address. *)
OnlySender(c) == /\ \A a \in Listed \ {From(c)} : a \in Listed' /\ book'[a] = book[a]
                 /\ \A a \in Leashed \ {From(c)} : leash'[a] = leash[a]
===============================================================================
