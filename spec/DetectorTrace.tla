----------------------------- MODULE DetectorTrace -----------------------------
(* Validates histories recorded from the real detector - its distributor and   *)
(* connection manager over the real stores - against Detector.tla. An event is *)
(* judged in two steps: the action, and, unless the next event followed at     *)
(* once, what could be seen afterwards. Nothing is taken from observations but *)
(* the choices the specification leaves open.                                  *)
EXTENDS Detector, Scores, Json, IOUtils

CONSTANTS Wire,     \* messages came as bytes over connections
          Focus     \* the property that is judged, or "all"

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, acted, alt     \* event; its action is done; choice taken in it

tvars == <<dvars, l, acted, alt>>

Same(what, expected, observed) ==
    IF expected = observed THEN TRUE
    ELSE PrintT(<<"MISMATCH", ToString(l), what, "expected", expected, "observed", observed>>) /\ FALSE
Holds(what, cond, detail) == IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", ToString(l), what, detail>>) /\ FALSE

Ev == Trace[l]
SetOf(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(SetOf(s)) = Len(s)

TraceNoBlock == -1
TraceAdd(x, y) == 0         \* scores of chains are not looked at here
TraceLess(x, y) == FALSE
TraceScore(bt) == 0
InRange(bt, tsl) == Storable(bt, tsl)
TraceIsLoopback(a) == a \in {"127.0.0.1", "127.0.0.2", "::1"}
TraceIsV4(a) == a \notin {"::1", "2001:db8::1", "fe80::7"}
TraceZero == <<0, 0, 0>>
WithinLimit(s) == Ev.size <= 64

Newer(v, w) == v[1] > w[1] \/ (v[1] = w[1] /\ v[2] > w[2])
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE v \in S : \A w \in S \ {v} : Newer(v, w) IN <<m>> \o Sorted(S \ {m})
Configured(vs) == Sorted({<<vs[i][1], vs[i][2], 0>> : i \in DOMAIN vs})

Shake == [ver |-> Ev.hs.ver, net |-> Ev.hs.net, nonce |-> "", dport |-> Ev.hs.dport, rname |-> "", hname |-> "",
          daddr |-> IF Ev.hs.daddr = "0.0.0.0" THEN "" ELSE Ev.hs.daddr]

-------------------------------------------------------------------------------
(* What can be seen *)

ModelBook == {[a |-> a, state |-> book[a].state, score |-> book[a].score,
               port |-> book[a].port, ver |-> book[a].ver,
               next |-> IF a \in Hostile THEN 0 ELSE book[a].next] : a \in Listed}
SeenBook == {LET r == Ev.book[i] IN
             [a |-> r.a, state |-> r.state, score |-> r.score, port |-> r.port, ver |-> r.ver,
              next |-> IF r.state = "hostile" THEN 0 ELSE r.next] : i \in DOMAIN Ev.book}
ModelBlocks == {[id |-> b, par |-> blocks[b].par, h |-> blocks[b].h, ts |-> blocks[b].ts, gen |-> blocks[b].gen] : b \in Known}
SeenBlocks == {LET r == Ev.blocks[i] IN [id |-> r.id, par |-> r.par, h |-> r.h, ts |-> r.ts, gen |-> r.gen] : i \in DOMAIN Ev.blocks}
ModelOut == {<<m, out[m]>> : m \in {m \in DOMAIN out : Wire \/ m.k # "handshake"}}
SeenOut == {<<Sent(Ev.out[i].c, Ev.out[i].k, SetOf(Ev.out[i].l), Ev.out[i].v), Ev.out[i].n>> : i \in DOMAIN Ev.out}

Differ(S, T) == [missing |-> S \ T, unexpected |-> T \ S]
SameSet(what, S, T) == Holds(what, S = T, Differ(S, T))

For(ps, cond) == IF Focus = "all" \/ Focus \in ps THEN cond ELSE TRUE
Greetings(S) == {x \in S : x[1].k = "handshake"}

Seen ==
    /\ For({}, Holds("every view answers", Ev.bad = <<>>, Ev.bad))
    /\ Holds("messages are taken in", Ev.alive, Ev.alive)
    /\ For({"L03"}, Same("handed to the loader", fwd, Ev.fwd))
    /\ For({}, SameSet("sent to peers", ModelOut, SeenOut))
    /\ For({"P02", "P05"}, SameSet("handshakes sent", Greetings(ModelOut), Greetings(SeenOut)))
    /\ For({"P02", "P04", "P06"}, SameSet("peers", ModelBook, SeenBook))
    /\ For({"P04", "P06"}, Holds("peers listed once", Len(Ev.book) = Cardinality(Listed), Ev.book))
    /\ For({"P02"}, SameSet("friendly peers", Friendly, SetOf(Ev.friendly)))
    /\ For({"P02", "P03"}, SameSet("connections", Connected, SetOf(Ev.conns)))
    /\ For({"P03"}, SameSet("broadcast", {<<a, conn[a], 1>> : a \in Connected}, SetOf(Ev.ends)))
    /\ For({"P02", "P03"}, Same("connections left open", {}, shut \ SetOf(Ev.closed)))
    /\ For({"P03"}, Same("live connections closed", {}, ({conn[a] : a \in Connected} \cup DOMAIN offered) \cap SetOf(Ev.closed)))
    /\ For({}, SameSet("blocks", ModelBlocks, SeenBlocks))
    /\ For({}, SameSet("heads", HeadBlocks, SetOf(Ev.heads)))
    /\ For({}, Holds("heads listed once", NoDup(Ev.heads), Ev.heads))
    /\ For({"C04"}, SameSet("positions", {<<a, leash[a]>> : a \in Leashed}, SetOf(Ev.leashes)))
    /\ For({"C04"}, Holds("positions listed once", NoDup(Ev.leashes), Ev.leashes))

-------------------------------------------------------------------------------
(* What happened *)

New == /\ Ev.op = "new"
       /\ blocks' = (Genesis :> [par |-> NoBlock, h |-> 1, score |-> 0, ts |-> Ev.ts, gen |-> Ev.gen, kind |-> "genesis"])
       /\ heads' = <<Genesis>> /\ leash' = <<>> /\ book' = <<>> /\ conn' = <<>> /\ handed' = {}
       /\ self' = Ev.declared /\ versions' = Configured(Ev.versions)
       /\ offered' = <<>> /\ open' = <<>> /\ shut' = {} /\ fwd' = <<>> /\ out' = <<>>
       /\ alt' = 0

(* A block with a damaged body may be taken by its header, or refused; one out *)
(* of range may be refused before it is seen that its parent is unknown.       *)
BlockEv == /\ Ev.op = "block"
           /\ \/ Block(Ev.c, Ev.b, Ev.p, Ev.bt, Ev.ts, Ev.gen) /\ alt' = 0
              \/ (Ev.odd \/ ~InRange(Ev.bt, Ev.ts)) /\ Ignored /\ alt' = 1

(* Bytes without meaning: nothing happens; or a block or list of unknown ids   *)
(* went to the loader; or the connection is closed.                            *)
FuzzEv == /\ Ev.op = "fuzz"
          /\ IF Ev.cut \/ Ev.c \in SetOf(Ev.closed)
             THEN End(Ev.c, Ev.now)
             ELSE /\ fwd' = IF Len(Ev.fwd) = 1 /\ Ev.fwd[1].a = From(Ev.c) /\ SetOf(Ev.fwd[1].l) \cap Known = {} THEN Ev.fwd ELSE <<>>
                  /\ UNCHANGED <<cvars, rvars, offered, open, shut, out>>
          /\ alt' = 0

Act ==
    /\ ~acted /\ acted' = TRUE /\ l' = l
    /\ Same("result", "ok", Ev.res)
    /\ \/ New \/ BlockEv \/ FuzzEv
       \/ /\ alt' = 0
          /\ \/ Ev.op = "accept" /\ Accept(Ev.a, Ev.c, Ev.now)
             \/ Ev.op = "shake" /\ Introduce(Ev.c, Shake, Ev.now)
             \/ Ev.op = "leave" /\ Withdraw(Ev.c)
             \/ Ev.op = "end" /\ End(Ev.c, Ev.now)
             \/ Ev.op = "micro" /\ Micro(Ev.c, Ev.b, Ev.r)
             \/ Ev.op = "score" /\ Score(Ev.c, Ev.s)
             \/ Ev.op = "peers" /\ Addresses(Ev.c, Ev.l)
             \/ Ev.op = "list" /\ List(Ev.c, Ev.k, Ev.l)
             \/ Ev.op = "ask" /\ Ask(Ev.c)
             \/ Ev.op = "other" /\ Ignored
             \/ Ev.op = "sleep" /\ Ask4Peers(Ev.pings)
             \/ Ev.op = "reopen" /\ Reborn(self, versions)

Look == /\ acted /\ acted' = FALSE /\ l' = l + 1 /\ alt' = 0
        /\ IF Ev.quiet THEN UNCHANGED dvars
           ELSE /\ Seen
                /\ fwd' = <<>> /\ out' = <<>>
                /\ UNCHANGED <<cvars, rvars, offered, open, shut>>

TraceInit == /\ l = 1 /\ acted = FALSE /\ alt = 0
             /\ blocks = <<>> /\ heads = <<>> /\ leash = <<>> /\ book = <<>> /\ conn = <<>> /\ handed = {}
             /\ self = "" /\ versions = <<>> /\ offered = <<>> /\ open = <<>> /\ shut = {} /\ fwd = <<>> /\ out = <<>>

TraceNext == l <= Len(Trace) /\ (Act \/ Look)
TraceSpec == TraceInit /\ [][TraceNext]_tvars

TraceAccepted ==
    \/ TLCGet("stats").diameter - 1 = 2 * Len(Trace)
    \/ PrintT(<<"REJECTED", ToString(((TLCGet("stats").diameter - 1) \div 2) + 1)>>) /\ FALSE

View == <<l, acted, alt, fwd>>
===============================================================================
