------------------------------- MODULE Startup_MC ------------------------------
(* Emit "launches": every launch that differs from an ordinary one in at most   *)
(* MaxOdd parameters. Emit "transitions": histories of two instances.           *)
EXTENDS Startup, Json

CONSTANTS MaxOdd, MaxLen, Emit

VARIABLES hist
View == <<run, data>>

Plain == [db |-> "f1", type |-> "testnet", peers |-> "one", api |-> "a1", net |-> "n1", declared |-> "own", name |-> "plain",
          versions |-> "two", log |-> "", more |-> "", apibusy |-> FALSE, netbusy |-> FALSE]
Classes(p) == Good[p] \cup Wrong[p] \cup (IF p = "declared" THEN Vague.declared ELSE {})
RECURSIVE Odd(_, _)
Odd(cs, n) == IF n = 0 THEN cs ELSE Odd(cs \cup {[c EXCEPT ![p] = v] : <<c, p, v>> \in UNION {{<<c, p, v>> : c \in cs, v \in Classes(p)} : p \in Params}}, n - 1)
Busy(cs) == cs \cup {[c EXCEPT !.apibusy = TRUE] : c \in {Plain}} \cup {[c EXCEPT !.netbusy = TRUE] : c \in {Plain}}
Launches == Busy(Odd({Plain}, MaxOdd))
Usual == {[Plain EXCEPT !.db = f, !.api = a, !.peers = p, !.net = IF a = "a1" THEN "n1" ELSE "n2"] : f \in Folders, a \in {"a1", "a2"}, p \in {"one", "two"}}
         \cup {[Plain EXCEPT !.name = ""], [Plain EXCEPT !.db = "f2", !.peers = "host"], [Plain EXCEPT !.api = "anywhere"]}

MCInit == StartupInit /\ hist = <<>>
Log(op) == hist' = Append(hist, op)
MCLaunch(i, c) == (Adopt(i, c) \/ (i \notin DOMAIN run /\ Refuse(c))) /\ Log([op |-> "launch", i |-> i, c |-> c])
MCStop(i, k) == Stop(i) /\ Log([op |-> "stop", i |-> i, k |-> k])
MCNext == /\ Len(hist) < MaxLen
          /\ IF Emit = "launches"
             THEN hist = <<>> /\ \E c \in Launches : MCLaunch("i1", c)
             ELSE \/ \E i \in {"i1", "i2"}, c \in Usual : (i = "i2" => "i1" \in DOMAIN run) /\ MCLaunch(i, c)
                  \/ \E i \in {"i1", "i2"}, k \in {"term", "kill"} : MCStop(i, k)
MCSpec == MCInit /\ [][MCNext]_<<stvars, hist>>
MCInv == Exclusive /\ OnlyGood
EmitTransition == PrintT("OPS " \o ToJson(hist'))
===============================================================================
