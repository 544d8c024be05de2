--------------------------------- MODULE Dial ----------------------------------
(* The dialling loop over the peer registry: at every tick each eligible       *)
(* address is handed out and attempted; each attempt is negotiated with the    *)
(* registry and ends by failing, or by a connection that ends some time later. *)
(* `broken`: the store refuses to be read; `up`: shutdown was not requested.   *)
EXTENDS Registry

VARIABLES broken, up

dvars == <<book, conn, handed, self, versions, broken, up>>

DialInit(s, vs) == RegistryInit(s, vs) /\ broken = FALSE /\ up = TRUE

Refuses(a) == Suggestion(a) = Refused

(* The records after the attempts on the addresses S began. An attempt the     *)
(* registry refuses to negotiate fails at once.                                *)
Begun(b, S, t) == [a \in DOMAIN b |->
    IF a \notin S THEN b[a]
    ELSE IF Refuses(a) THEN [b[a] EXCEPT !.next = t + Delay]
    ELSE IF b[a].state = "connected" THEN b[a]
    ELSE [b[a] EXCEPT !.ver = Suggestion(a), !.next = t + Delay]]

Tick(t) ==
    /\ up
    /\ IF broken THEN UNCHANGED <<book, handed>>
       ELSE /\ book' = Begun(book, Eligible(t), t)
            /\ handed' = handed \cup {a \in Eligible(t) : ~Refuses(a)}
    /\ UNCHANGED <<conn, self, versions, broken, up>>

Fail(a, t) == a \in handed /\ Unregister(a, 0, t) /\ UNCHANGED <<broken, up>>
Succeed(a, c, h, t) == a \in handed /\ Register(a, c, h, t) /\ UNCHANGED <<broken, up>>
End(a, t) == a \in Connected /\ Unregister(a, conn[a], t) /\ UNCHANGED <<broken, up>>
(* A connection the peer made: negotiated, then registered. *)
Come(a, c, h, t) == Suggestion(a) # Refused /\ a \in Listed /\ Register(a, c, h, t) /\ UNCHANGED <<broken, up>>
Hear(list) == Discover(list) /\ UNCHANGED <<broken, up>>
Break == ~broken /\ broken' = TRUE /\ UNCHANGED <<rvars, up>>
Mend == broken /\ broken' = FALSE /\ UNCHANGED <<rvars, up>>
Stop == up /\ up' = FALSE /\ UNCHANGED <<rvars, broken>>
===============================================================================
