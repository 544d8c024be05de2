----------------------------- MODULE Registry_MC -------------------------------
(* Bounded instance of Registry, and generator of the operation sequences      *)
(* replayed on the real registry. One unit of time is Delay; connections are   *)
(* numbered by address.                                                        *)
EXTENDS Registry, Json

CONSTANTS Addrs,        \* IPv4 addresses of peers
          MaxTime, Emit, Shakes

VARIABLES now, hist, cid

mcvars == <<book, conn, handed, self, versions, now, hist, cid>>
\* Connection numbers and times are hidden as far as behaviour does not depend on them.
View == <<[a \in DOMAIN book |-> [book[a] EXCEPT !.next = IF @ <= now THEN 0 ELSE @ - now]], DOMAIN conn, handed, self>>

MCIsV4(a) == a # "v6"
MCIsLoopback(a) == a = "loop"
MCZero == <<0, 0, 0>>
MCVersions == <<<<1, 5, 0>>, <<1, 4, 0>>, <<1, 2, 0>>>>

Hs(ver, net, d) == [ver |-> ver, net |-> net, rname |-> "n", hname |-> "h", nonce |-> "7", daddr |-> d, dport |-> 68]

(* Handshakes from an address: good with and without declared address, other  *)
(* declared addresses, wrong version, wrong network.                           *)
Shake(a) ==
    [good |-> Hs(<<1, 4, 3>>, TRUE, a), bare |-> Hs(<<1, 4, 3>>, TRUE, ""), else |-> Hs(<<1, 5, 3>>, TRUE, "other"),
     loop |-> Hs(<<1, 4, 3>>, TRUE, "loop"), six |-> Hs(<<1, 4, 3>>, TRUE, "v6"),
     old |-> Hs(<<1, 2, 0>>, TRUE, a), foreign |-> Hs(<<1, 4, 3>>, FALSE, a)]

MCInit == RegistryInit("self", MCVersions) /\ now = 1 /\ hist = <<>> /\ cid = 1

Do(op) == hist' = Append(hist, op) /\ now' = now
Same1 == cid' = cid

MCTake == Take(now) /\ Do([op |-> "take"]) /\ Same1
MCRegister == \E a \in Addrs \cup {"self", "v6"}, k \in Shakes :
    /\ (a \in Listed /\ book[a].ver # MCZero) \/ a \in {"self", "v6"}
    /\ a \in {"self", "v6"} => k = "good"
    /\ Register(a, cid, Shake(a)[k], now)
    /\ Do([op |-> "register", a |-> a, k |-> k, c |-> cid])
    /\ cid' = cid + 1
MCUnregister == \E a \in Addrs :
    /\ \E c \in {0} \cup {conn[b] : b \in Connected} :
       /\ Unregister(a, c, now)
       /\ Do([op |-> "unregister", a |-> a, c |-> c])
    /\ Same1
MCScore == \E a \in Addrs : Announce(a, "5") /\ Do([op |-> "score", a |-> a, s |-> "5"]) /\ Same1
MCHostile == \E a \in Addrs : MarkHostile(a) /\ Do([op |-> "hostile", a |-> a]) /\ Same1
MCDiscover == \E list \in {<<<<a, 68>>>> : a \in Addrs} \cup {<<<<"v6", 1>>, <<"self", 2>>, <<"loop", 3>>>>} :
    Discover(list) /\ Do([op |-> "append", l |-> list]) /\ Same1
MCSuggest == \E a \in Addrs \cup {"self", "v6"} : Suggest(a, now) /\ Do([op |-> "suggest", a |-> a]) /\ Same1
MCRestart == Restart("self", MCVersions) /\ Do([op |-> "reopen"]) /\ Same1
MCWait == /\ now < MaxTime /\ now' = now + 1
          /\ hist' = Append(hist, [op |-> "sleep"])
          /\ UNCHANGED rvars /\ Same1

MCNext == MCTake \/ MCRegister \/ MCUnregister \/ MCScore \/ MCHostile \/ MCDiscover \/ MCSuggest \/ MCRestart \/ MCWait
MCSpec == MCInit /\ [][MCNext]_mcvars

EmitTransition == Emit = "transitions" => PrintT("OPS " \o ToJson(hist'))

EmitState == Emit = "states" => PrintT("OPS " \o ToJson(hist))
MCInv == RegistryOK
===============================================================================
