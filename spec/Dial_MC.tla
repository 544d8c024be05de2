------------------------------- MODULE Dial_MC ---------------------------------
(* Bounded instance of Dial, and generator of what happens around the loop:    *)
(* the loop's own steps are for the real code to make.                         *)
EXTENDS Dial, Json

CONSTANTS Addrs, MaxTime, Emit

VARIABLES now, hist, cid

mcvars == <<book, conn, handed, self, versions, broken, up, now, hist, cid>>
View == <<[a \in DOMAIN book |-> [book[a] EXCEPT !.next = IF @ <= now THEN 0 ELSE @ - now]], DOMAIN conn, handed, broken, up, now>>

MCIsV4(a) == a # "v6"
MCIsLoopback(a) == a = "loop"
MCZero == <<0, 0, 0>>
MCVersions == <<<<1, 5, 0>>, <<1, 4, 0>>>>
Hs(a, k) == [ver |-> <<1, 5, 0>>, net |-> k # "foreign", rname |-> "n", hname |-> "h", nonce |-> "7",
             daddr |-> IF k = "good" THEN a ELSE "", dport |-> 68]

MCInit == DialInit("self", MCVersions) /\ now = 1 /\ hist = <<>> /\ cid = 1
Do(op) == hist' = Append(hist, op) /\ now' = now
Kinds == {"good", "bare", "foreign"}

MCWait == /\ now < MaxTime
          /\ IF up THEN Tick(now) ELSE UNCHANGED dvars
          /\ now' = now + 1 /\ hist' = Append(hist, [op |-> "sleep"]) /\ cid' = cid
MCHear == \E a \in Addrs, p \in {0, 68} : a \notin Listed /\ Hear(<<<<a, p>>>>) /\ Do([op |-> "append", a |-> a, p |-> p]) /\ cid' = cid
MCFail == \E a \in Addrs : Fail(a, now) /\ Do([op |-> "fail", a |-> a]) /\ cid' = cid
MCOk == \E a \in Addrs, k \in Kinds : Succeed(a, cid, Hs(a, k), now) /\ Do([op |-> "ok", a |-> a, k |-> k, c |-> cid]) /\ cid' = cid + 1
MCEnd == \E a \in Addrs : End(a, now) /\ Do([op |-> "end", a |-> a, c |-> conn[a]]) /\ cid' = cid
MCCome == \E a \in Addrs : /\ a \notin Connected
                           /\ Come(a, cid, Hs(a, "good"), now) /\ Do([op |-> "come", a |-> a, k |-> "good", c |-> cid]) /\ cid' = cid + 1
MCBreak == Break /\ Do([op |-> "break"]) /\ cid' = cid
MCMend == Mend /\ Do([op |-> "mend"]) /\ cid' = cid
MCStop == Stop /\ Do([op |-> "stop"]) /\ cid' = cid

MCNext == up /\ (MCWait \/ MCHear \/ MCFail \/ MCOk \/ MCEnd \/ MCCome \/ MCBreak \/ MCMend \/ MCStop)
MCSpec == MCInit /\ [][MCNext]_mcvars

EmitTransition == Emit => PrintT("OPS " \o ToJson(hist'))
MCInv == RegistryOK
===============================================================================
