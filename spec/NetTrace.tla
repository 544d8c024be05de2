------------------------------- MODULE NetTrace --------------------------------
(* Validates recorded lives of the program in a network of simulated nodes     *)
(* against Network.tla, and the answers of its API in the end against Api.tla   *)
(* and Chains.tla: what it has to report follows from the network alone.        *)
EXTENDS ApiTrace, Network

VARIABLES
    head,       \* node -> its best block
    given,      \* node -> blocks it has listed or given away
    score,      \* node -> score it announced last
    gone,       \* nodes that are not coming back
    running     \* the program

netvars == <<apvars, nvars, head, given, score, gone, running>>
OldVars == <<blocks, heads, leash, book, conn, rank>>

Given(a) == IF a \in DOMAIN given THEN given[a] ELSE {}
Pairs(s) == {s[i] : i \in DOMAIN s}
Addrs(s) == {s[i][1] : i \in DOMAIN s}
NodeOf(a) == LET i == CHOOSE i \in DOMAIN Ev.nodes : Ev.nodes[i].a = a IN Ev.nodes[i]

NetInit == /\ ApiInit
           /\ net = <<>> /\ known = {} /\ up = {} /\ ever = {} /\ height = <<>> /\ at = <<>>
           /\ head = <<>> /\ given = <<>> /\ score = <<>> /\ gone = {} /\ running = FALSE

VARIABLE cfg    \* how the program was started
NetNew ==
    /\ Ev.op = "new"
    /\ blocks' = (Genesis :> [par |-> NoBlock, h |-> 1, score |-> BlockScore(Ev.bt), ts |-> Ev.ts, gen |-> Ev.gen, kind |-> "genesis"])
    /\ heads' = <<Genesis>> /\ leash' = <<>> /\ book' = <<>> /\ conn' = {}
    /\ rank' = [n \in {Ev.ranks[i][1] : i \in DOMAIN Ev.ranks} |-> Ev.ranks[CHOOSE i \in DOMAIN Ev.ranks : Ev.ranks[i][1] = n][2]]
    /\ net' = [a \in {Ev.nodes[i].a : i \in DOMAIN Ev.nodes} |->
                 LET n == NodeOf(a) IN [kind |-> n.kind, listen |-> n.listen, call |-> n.call, tells |-> Addrs(n.tells), port |-> n.port,
                                        name |-> n.name, nonce |-> n.nonce, ver |-> n.ver]]
    /\ known' = Addrs(Ev.seeds)
    /\ up' = {} /\ ever' = {} /\ at' = <<>> /\ height' = <<>>
    /\ head' = <<>> /\ given' = <<>> /\ score' = <<>> /\ gone' = {} /\ running' = FALSE
    /\ cfg' = [name |-> Ev.name, declared |-> Ev.declared, versions |-> Ev.versions, seeds |-> Addrs(Ev.seeds)]

(* ---- the network ---- *)

Mint == /\ Ev.op = "mint"
        /\ blocks' = blocks @@ (Ev.b :> KeyBlock(Ev.p, Ev.bt, Ev.ts, Ev.gen))
        /\ UNCHANGED <<heads, leash, book, conn, rank, nvars, head, given, score, gone, running, cfg>>
Version == /\ Ev.op = "version"
           /\ blocks' = blocks @@ (Ev.b :> MicroBlock(Ev.r))
           /\ head' = (Ev.a :> Ev.b) @@ head
           /\ given' = (Ev.a :> (Given(Ev.a) \cup {Ev.b})) @@ given
           /\ UNCHANGED <<heads, leash, book, conn, rank, nvars, score, gone, running, cfg>>
GrowBy == /\ Ev.op = "grow"
          /\ head' = (Ev.a :> Ev.b) @@ head
          /\ UNCHANGED <<OldVars, nvars, given, score, gone, running, cfg>>
Announce == /\ Ev.op = "score"
            /\ score' = (Ev.a :> Ev.s) @@ score
            /\ UNCHANGED <<OldVars, nvars, head, given, gone, running, cfg>>
Give == /\ Ev.op \in {"give", "list"}
        /\ given' = (Ev.a :> (Given(Ev.a) \cup IF Ev.op = "give" THEN {Ev.b} ELSE SeqSet(Ev.l))) @@ given
        /\ UNCHANGED <<OldVars, nvars, head, score, gone, running, cfg>>
Says == /\ Ev.op = "tell"
        /\ known' = known \cup Addrs(Ev.l)
        /\ UNCHANGED <<OldVars, net, up, ever, height, at, head, given, score, gone, running, cfg>>
Calls == /\ Ev.op = "calls"
         /\ known' = known \cup {Ev.a}
         /\ UNCHANGED <<OldVars, net, up, ever, height, at, head, given, score, gone, running, cfg>>
GoneNode == /\ Ev.op = "lose"
            /\ gone' = gone \cup {Ev.a}
            /\ UNCHANGED <<OldVars, nvars, head, given, score, running, cfg>>

(* ---- what the program does to it ---- *)

Same0 == UNCHANGED <<OldVars, nvars, head, given, score, gone, running, cfg>>

Dialled == /\ Ev.op = "dialled"
           /\ Holds("dialled only what it was told of", Ev.a \in known, <<Ev.a, known>>)
           /\ Same0
Versions == CASE cfg.versions = "1.5,1.4" -> {<<1, 5, 0>>, <<1, 4, 0>>}
              [] cfg.versions = "1.5" -> {<<1, 5, 0>>}
              [] cfg.versions = "1.1" -> {<<1, 1, 0>>}
Hello == /\ Ev.op = "hello"
         /\ Holds("presents itself as configured", Ev.app = "wavesT" /\ Ev.name = cfg.name /\ Ev.daddr = cfg.declared, <<Ev, cfg>>)
         /\ Holds("in a version that was configured", Ev.ver \in Versions \cup (IF Shakes(Ev.a) THEN {net[Ev.a].ver} ELSE {}), <<Ev, Versions>>)
         /\ Same0
Ups == /\ Ev.op = "up"
       /\ IF Shakes(Ev.a)
          THEN (IF Ev.a \in up THEN UNCHANGED <<up, ever>> ELSE Connect(Ev.a)) /\ known' = known \cup {Ev.a}
          ELSE UNCHANGED <<up, ever, known>>
       /\ UNCHANGED <<OldVars, net, height, at, head, given, score, gone, running, cfg>>
Down == /\ Ev.op = "down"
        /\ Holds("connections with good nodes last", Shakes(Ev.a) => (~running \/ Ev.a \in gone), Ev)
        /\ UNCHANGED <<OldVars, nvars, head, given, score, gone, running, cfg>>
AskPeers == Ev.op = "ask" /\ Same0
HeardOf == /\ Ev.op = "heard"
           /\ Holds("tells of friendly peers", Addrs(Ev.l) \subseteq ever, <<Ev.l, ever>>)
           /\ \A i \in DOMAIN Ev.l : Holds("with their ports", Ev.l[i][2] = IF net[Ev.l[i][1]].listen THEN net[Ev.l[i][1]].port ELSE 0, Ev.l[i])
           /\ Same0
(* Requests: from a block of the tree downwards; and for blocks that were listed. *)
From == /\ Ev.op = "from"
        /\ Holds("asks from known blocks on", Ev.l # <<>> /\ Ev.l[1] \in Known /\ Ev.l = LastIDs(Ev.l[1], Len(Ev.l))
                 /\ Len(Ev.l) = IF blocks[Ev.l[1]].h < 100 THEN blocks[Ev.l[1]].h ELSE 100, Ev.l)
        /\ Holds("in the way of the version", (Ev.k = "sigs") = (net[Ev.a].ver[2] < 2), Ev)
        /\ Same0
Wants == /\ Ev.op = "want"
         /\ Holds("asks for blocks that were listed", Ev.b \in Given(Ev.a), <<Ev, Given(Ev.a)>>)
         /\ Same0

Start == /\ Ev.op = "start" /\ running' = TRUE /\ UNCHANGED <<OldVars, nvars, head, given, score, gone, cfg>>
Stop == /\ Ev.op = "stop" /\ running' = FALSE /\ UNCHANGED <<OldVars, nvars, head, given, score, gone, cfg>>
Exit == /\ Ev.op = "exit"
        /\ Holds("ended as asked to", Ev.ret = (IF Ev.k = "killed" THEN "signal: killed" ELSE "ok"), Ev)
        /\ running' = FALSE
        /\ up' = {} /\ UNCHANGED <<net, known, ever, height, at>>
        /\ UNCHANGED <<OldVars, head, given, score, gone, cfg>>

(* Positions on the way are of blocks that the node itself has shown. *)
Look == /\ Ev.op = "look"
        /\ \A i \in DOMAIN Ev.l : Holds("positions are blocks the node has shown", Ev.l[i][2] \in Given(Ev.l[i][1]), <<Ev.l[i], Given(Ev.l[i][1])>>)
        /\ Same0

(* ---- in the end ---- *)

Final == Reach \ gone
Placed == {a \in DOMAIN head : (a \in Reach /\ Serves(a) /\ (a \in gone => a \in ever))}
Settle == /\ Ev.op = "settled"
          /\ conn' = Final
          /\ leash' = [a \in Placed |-> IF a \in gone /\ a \in Leashed THEN leash[a] ELSE head[a]]
          /\ book' = [a \in known \cup Reach |-> IF a \in ever \cup Final THEN [state |-> "connected"] ELSE [state |-> "other"]]
          /\ UNCHANGED <<blocks, heads, rank, nvars, head, given, score, gone, running, cfg>>

NodeRec(a) == [nonce |-> net[a].nonce, name |-> net[a].name, ver |-> net[a].ver, state |-> "connected",
               port |-> IF net[a].listen THEN net[a].port ELSE 0, score |-> IF a \in DOMAIN score THEN score[a] ELSE ""]
ListedRec(r) == [nonce |-> r.nonce, name |-> r.name, ver |-> r.ver, state |-> r.state, port |-> r.port, score |-> r.score]
Listed == {i \in DOMAIN Ev.body : Ev.body[i].a \in DOMAIN net \cup cfg.seeds}
NetPeers(S) ==
    /\ Same(<<Ev.what, "addresses">>, S, {Ev.body[i].a : i \in Listed})
    /\ Same(<<Ev.what, "count">>, Cardinality(S), Cardinality(Listed))
    /\ \A i \in Listed : Ev.body[i].a \in ever => Same(<<Ev.what, Ev.body[i].a>>, NodeRec(Ev.body[i].a), ListedRec(Ev.body[i]))
    /\ \A i \in Listed : (Ev.body[i].a \in DOMAIN net /\ ~Shakes(Ev.body[i].a)) =>
          Holds("not of this network", Ev.body[i].state \in {"hostile", "unknown"}, Ev.body[i])
    /\ \A i \in DOMAIN Ev.body : (i > 1 /\ {Ev.body[i].name, Ev.body[i - 1].name} \subseteq DOMAIN rank) =>
          Holds(<<Ev.what, "by name">>, rank[Ev.body[i - 1].name] <= rank[Ev.body[i].name], Ev.body)
(* Addresses the program knows from the beginning are not of this network. *)
Others == Cardinality(DOMAIN Ev.body) - Cardinality(Listed)

(* Heads with positions: of positions that nothing ever followed, at least. *)
HeadBody == LET parents == {blocks[b].par : b \in Known}
                replaced == {blocks[b].par : b \in {b \in Known : blocks[b].kind = "micro"}}
            IN /\ {Ev.body[i].id : i \in DOMAIN Ev.body} \subseteq ForkHeads(Leashed)
               /\ \A b \in ForkHeads(Leashed) : (b \notin parents /\ blocks[b].par \notin replaced) =>
                     \E i \in DOMAIN Ev.body : Ev.body[i].id = b
               /\ \A i \in DOMAIN Ev.body : LET r == Ev.body[i] IN
                     [h |-> r.h, score |-> r.score, ts |-> r.ts] = [h |-> blocks[r.id].h, score |-> blocks[r.id].score, ts |-> blocks[r.id].ts]
               /\ Cardinality({Ev.body[i].n : i \in DOMAIN Ev.body}) = Len(Ev.body)

NetBody ==
    CASE Ev.what = "all" -> NetPeers(DOMAIN book)
      [] Ev.what = "friendly" -> NetPeers(FriendlyPeers) /\ Same("friendly: others", 0, Others)
      [] Ev.what = "connections" -> NetPeers(conn) /\ Same("connections: others", 0, Others)
      [] Ev.what = "heads" -> Holds("heads", HeadBody, <<leash, Ev.body>>)
      [] Ev.what = "status" ->
            LET s == Ev.body[1]
            IN /\ Holds("status", [long |-> s.long, short |-> s.short] \in StatsViews /\ s.all >= Cardinality(DOMAIN book)
                                  /\ s.friendly = Cardinality(FriendlyPeers) /\ s.connected = Cardinality(conn),
                        <<"expected", StatsViews, Cardinality(DOMAIN book), Cardinality(FriendlyPeers), Cardinality(conn), "answered", s>>)
               /\ Holds("status: runtime", s.goroutines > 0 /\ s.version # "", s)
      [] OTHER -> Body
NetGet == /\ Ev.op = "get"
          /\ Holds(<<"status", Ev.path>>, Ev.status \in Statuses, <<Statuses, Ev.status, Fld(Ev, "err", "")>>)
          /\ (Ev.status = OK /\ Ev.what # "other") =>
                /\ Same(<<"answer", Ev.path>>, IF Ev.what \in {"status", "fork"} THEN "object" ELSE "list", Ev.json)
                /\ NetBody
          /\ Same0

NetNext == /\ l <= Len(Trace)
           /\ l' = l + 1
           /\ \/ NetNew \/ Mint \/ Version \/ GrowBy \/ Announce \/ Give \/ Says \/ Calls \/ GoneNode
              \/ Dialled \/ Hello \/ Ups \/ Down \/ AskPeers \/ HeardOf \/ From \/ Wants \/ Start \/ Stop \/ Exit \/ Look \/ Settle \/ NetGet
NetSpec == NetInit /\ cfg = [name |-> "", declared |-> "", versions |-> "", seeds |-> {}] /\ [][NetNext]_<<netvars, cfg>>
===============================================================================
