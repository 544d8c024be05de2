------------------------------- MODULE Api_MC ---------------------------------
(* Bounded instance of Api over Chains_MC: positions and connections evolve    *)
(* independently. Checks that the views are consistent with each other and     *)
(* generates the histories after which the real API is asked everything.       *)
EXTENDS Chains_MC, Api

amcvars == <<blocks, heads, leash, book, conn, hist>>
AView == avars

Rec(s) == [state |-> s]

Learn == \E a \in Peers \ DOMAIN book :
    /\ book' = (a :> Rec("unknown")) @@ book /\ UNCHANGED <<blocks, heads, leash, conn>>
    /\ Do([op |-> "append", a |-> a])
Connect == \E a \in Peers \ conn :
    /\ a \in DOMAIN book => book[a].state # "hostile"
    /\ book' = (a :> Rec("connected")) @@ book /\ conn' = conn \cup {a} /\ UNCHANGED <<blocks, heads, leash>>
    /\ Do([op |-> "register", a |-> a])
Disconnect == \E a \in conn :
    /\ conn' = conn \ {a} /\ UNCHANGED <<blocks, heads, leash, book>>
    /\ Do([op |-> "unregister", a |-> a])
Expose == \E a \in Peers :
    /\ a \in DOMAIN book => book[a].state # "hostile"
    /\ book' = (a :> Rec("hostile")) @@ book /\ conn' = conn \ {a} /\ UNCHANGED <<blocks, heads, leash>>
    /\ Do([op |-> "hostile", a |-> a])

AMCInit == MCInit /\ book = <<>> /\ conn = {}
AMCNext == \/ MCNext /\ UNCHANGED <<book, conn>>
           \/ Learn \/ Connect \/ Disconnect \/ Expose
AMCSpec == AMCInit /\ [][AMCNext]_amcvars

(* The forks of the connected peers are those of all peers restricted to them, *)
(* positions partition the peers, counters agree with the lists.               *)
AMCInv ==
    /\ conn \subseteq FriendlyPeers
    /\ \A req \in SUBSET Peers : /\ ActiveOf(req) \subseteq conn
                                 /\ ForkHeads(ActiveOf(req)) \subseteq ForkHeads(Leashed)
    /\ conn = {} => ForkHeads(ActiveOf({})) = {}
    /\ UNION {LeashGroup(b).peers : b \in ForkHeads(Leashed)} = Leashed
    /\ \A s \in StatusViews : /\ s.long + s.short = Cardinality(ForkHeads(Leashed))
                              /\ s.connected <= s.friendly /\ s.friendly <= s.all
    /\ {heads[n] : n \in ActiveHeads} \subseteq ForkHeads(Leashed)
    /\ \A a \in Peers : PeerStatuses(a, FALSE, FALSE) \cap {BadRequest} = {}
===============================================================================
