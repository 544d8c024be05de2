------------------------------ MODULE Dial_Live --------------------------------
(* P07, unbounded: times are counted from now; nobody worth dialling is        *)
(* forgotten as long as attempts end and the store can be read again.          *)
EXTENDS Dial

CONSTANTS Addrs

MCIsV4(a) == a # "v6"
MCIsLoopback(a) == a = "loop"
MCZero == <<0, 0, 0>>
MCVersions == <<<<1, 5, 0>>, <<1, 4, 0>>>>

Hs(a, k) == [ver |-> <<1, 5, 0>>, net |-> k # "foreign", rname |-> "n", hname |-> "h", nonce |-> "7",
             daddr |-> IF k = "good" THEN a ELSE "", dport |-> 68]

LInit == DialInit("self", MCVersions)
Aged(n) == IF n = 0 THEN 0 ELSE n - 1
(* A tick of the loop, and the time until the next one. *)
Loop == /\ up
        /\ handed' = IF broken THEN handed ELSE handed \cup {a \in Eligible(0) : ~Refuses(a)}
        /\ LET b == IF broken THEN book ELSE Begun(book, Eligible(0), 0)
           IN book' = [a \in DOMAIN b |-> [b[a] EXCEPT !.next = Aged(@)]]
        /\ UNCHANGED <<conn, self, versions, broken, up>>
Ends == \E a \in Addrs : Fail(a, 0)
Finishes(a) == Fail(a, 0) \/ (\E k \in {"good", "bare", "foreign"} : Succeed(a, a, Hs(a, k), 0))
Goes(a) == End(a, 0)
Other == \/ \E a \in Addrs : a \notin Listed /\ Hear(<<<<a, 68>>>>)
         \/ \E a \in Addrs : a \notin Connected /\ Come(a, a, Hs(a, "good"), 0)
         \/ Break \/ Stop
LNext == Loop \/ Mend \/ Other \/ \E a \in Addrs : Finishes(a) \/ Goes(a)
LSpec == /\ LInit /\ [][LNext]_dvars /\ WF_dvars(Loop) /\ WF_dvars(Mend)
         /\ SF_dvars(~broken /\ Loop)      \* the store is not unreadable at every tick
         /\ \A a \in Addrs : WF_dvars(Finishes(a))

Worth(a) == a \in Listed /\ book[a].state # "hostile" /\ book[a].port # 0 /\ a # self
(* Every address worth dialling is dialled or connected again and again. *)
NobodyAbandoned == \A a \in Addrs : []((Worth(a) /\ up) => <>(~up \/ ~Worth(a) \/ a \in handed \/ a \in Connected))
(* Once eligible, it is dialled at the next tick the store can be read at. *)
EligibleDialled == \A a \in Addrs : (a \in Eligible(0)) ~> (a \notin Eligible(0) \/ ~up)
NothingAfterStop == [][~up => handed' \subseteq handed]_dvars
LiveOK == RegistryOK
===============================================================================
