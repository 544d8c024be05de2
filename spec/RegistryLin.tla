----------------------------- MODULE RegistryLin -------------------------------
(* Linearizability of the peer registry: each history of overlapping calls     *)
(* recorded from the real registry must have an order of its calls, respecting *)
(* the real-time order, in which every result is the one Registry gives. The   *)
(* calls of one history happen within a second or so, at time Now.             *)
EXTENDS Registry, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Now == 1000

TraceIsLoopback(a) == a = "127.0.0.1"
TraceIsV4(a) == a # "::1"
TraceZero == <<0, 0, 0>>

VARIABLES k,        \* history under consideration
          done      \* its calls already ordered

lvars == <<book, conn, handed, self, versions, k, done>>

H == Trace[k]
Calls == DOMAIN H.ops
SetOf(s) == {s[i] : i \in DOMAIN s}

Init == k = 1 /\ done = {} /\ RegistryInit(Trace[1].declared, Trace[1].versions)

Shake(o) == [ver |-> o.hs.ver, net |-> o.hs.net, nonce |-> o.hs.nonce, dport |-> o.hs.dport, daddr |-> o.hs.daddr,
             rname |-> o.hs.name, hname |-> o.hs.name \o "(" \o o.hs.app \o ")"]

Brief(a) == <<a, book[a].port, book[a].nonce, book[a].name, book[a].ver, book[a].state, book[a].score, book[a].next > Now>>

Explains(o) ==
    CASE o.op = "take" -> o.res = "ok" /\ SetOf(o.got) = {<<a, book[a].port>> : a \in Eligible(Now)} /\ Cardinality(SetOf(o.got)) = Len(o.got)
      [] o.op = "suggest" -> IF Suggestion(o.a) = Refused THEN o.res = "error" ELSE o.res = "ok" /\ o.ver = Suggestion(o.a)
      [] o.op = "append" -> o.cnt = Cardinality(Adds(o.l))
      [] o.op = "register" -> (Outcome(o.a, Shake(o)) = "connected") => o.res = "ok"
      [] o.op = "peers" -> o.res = "ok" /\ SetOf(o.peers) = {Brief(a) : a \in Listed} /\ Len(o.peers) = Cardinality(Listed)
      [] o.op = "friendly" -> o.res = "ok" /\ SetOf(o.peers) = {Brief(a) : a \in Friendly} /\ Len(o.peers) = Cardinality(Friendly)
      [] o.op = "connections" -> o.res = "ok" /\ SetOf(o.peers) = {Brief(a) : a \in Connected} /\ Len(o.peers) = Cardinality(Connected)
      [] OTHER -> o.res \in {"ok", "error"}

Effect(o) ==
    CASE o.op = "take" -> Take(Now)
      [] o.op = "suggest" -> Suggest(o.a, Now)
      [] o.op = "append" -> Discover(o.l)
      [] o.op = "register" -> Register(o.a, o.c, Shake(o), Now)
      [] o.op = "unregister" -> Unregister(o.a, o.c, Now)
      [] o.op = "score" -> Announce(o.a, o.s)
      [] o.op = "hostile" -> MarkHostile(o.a)
      [] OTHER -> UNCHANGED rvars

Open(i) == i \notin done /\ \A j \in Calls \ done : H.ops[j].ret > H.ops[i].inv

(* All calls of a history return: those of one that hung are not there, and it *)
(* is recorded as hung.                                                        *)
Returned(j) == Trace[j].res = "ok"

Next == \/ \E i \in Calls :
              /\ Open(i)
              /\ Explains(H.ops[i])
              /\ Effect(H.ops[i])
              /\ done' = done \cup {i} /\ k' = k
        \/ /\ done = Calls
           /\ Returned(k)
           /\ k < Len(Trace)
           /\ k' = k + 1 /\ done' = {}
           /\ book' = <<>> /\ conn' = <<>> /\ handed' = {} /\ self' = Trace[k + 1].declared /\ versions' = Trace[k + 1].versions

Spec == Init /\ [][Next]_lvars

Progress == TLCSet(1, IF TLCGet(1) < k * 1000 + Cardinality(done) THEN k * 1000 + Cardinality(done) ELSE TLCGet(1))
InitProgress == TLCSet(1, 0)
ASSUME InitProgress

TraceAccepted == \/ /\ Returned(Len(Trace))
                    /\ TLCGet(1) = Len(Trace) * 1000 + Cardinality(DOMAIN Trace[Len(Trace)].ops)
                 \/ /\ ~Returned(TLCGet(1) \div 1000)
                    /\ PrintT(<<"MISMATCH", ToString(TLCGet(1) \div 1000), "calls return", "expected", "ok", "observed", Trace[TLCGet(1) \div 1000].res>>)
                    /\ PrintT(<<"REJECTED", ToString(TLCGet(1) \div 1000)>>) /\ FALSE
                 \/ PrintT(<<"REJECTED", ToString(TLCGet(1) \div 1000)>>) /\ FALSE
===============================================================================
