------------------------------ MODULE ApiTrace --------------------------------
(* Validates answers of the real HTTP API, recorded between operations on the  *)
(* real stores behind it, against Api.tla. The states of the stores are taken  *)
(* as observed: what they should be is on trial elsewhere.                     *)
EXTENDS ChainsTrace, Api

VARIABLE rank   \* name -> place in the alphabet

apvars == <<blocks, heads, leash, book, conn, rank, l>>

PeerRec(r) == [port |-> r.port, nonce |-> r.nonce, name |-> r.name, ver |-> r.ver, state |-> r.state, next |-> r.next, score |-> r.score]
ObsBook == [a \in {Ev.book[i].a : i \in DOMAIN Ev.book} |-> PeerRec(Ev.book[CHOOSE i \in DOMAIN Ev.book : Ev.book[i].a = a])]
ObsConn == {Ev.ends[i][1] : i \in DOMAIN Ev.ends}

ApiInit == TraceInit /\ book = <<>> /\ conn = {} /\ rank = <<>>

ApiNew == /\ New
          /\ book' = <<>> /\ conn' = {}
          /\ rank' = [n \in {Ev.ranks[i][1] : i \in DOMAIN Ev.ranks} |->
                        Ev.ranks[CHOOSE i \in DOMAIN Ev.ranks : Ev.ranks[i][1] = n][2]]
StoreOp == (Put \/ Micro \/ MoveTo \/ Obs) /\ UNCHANGED <<book, conn, rank>>
RegistryOp == /\ Ev.op \in {"suggest", "register", "unregister", "append", "score", "hostile", "reopen"}
              /\ Holds("registry readable", Ev.bres = "ok" /\ Ev.cres = "ok", Ev)
              /\ book' = ObsBook /\ conn' = ObsConn
              /\ UNCHANGED <<blocks, heads, leash, rank>>

(* A list of peers: exactly those of S, each once, as the book has them, by name. *)
PeersReport(S) ==
    /\ Same(<<Ev.what, "addresses">>, S, {Ev.body[i].a : i \in DOMAIN Ev.body})
    /\ Same(<<Ev.what, "count">>, Cardinality(S), Len(Ev.body))
    /\ \A i \in DOMAIN Ev.body : Same(<<Ev.what, Ev.body[i].a>>, book[Ev.body[i].a], PeerRec(Ev.body[i]))
    /\ \A i \in DOMAIN Ev.body :
          (i > 1 /\ Ev.body[i].name \in DOMAIN rank /\ Ev.body[i - 1].name \in DOMAIN rank) =>
             Holds(<<Ev.what, "by name">>, rank[Ev.body[i - 1].name] <= rank[Ev.body[i].name], Ev.body)

Req == SeqSet(Ev.req)

ForksBody(S) ==
    LET rep == [i \in DOMAIN Ev.body |-> EntryOf(Ev.body[i])]
    IN /\ Same(<<Ev.what, "heads">>, ForkHeads(S), {rep[i].head : i \in DOMAIN rep})
       /\ Holds(<<Ev.what, "report (expected, reported)">>, IsForksReport(rep, S), <<S, EntryDiff(rep, S), Ev.body>>)
       /\ \A i \in DOMAIN Ev.body :
            Holds("peers listed once and counted", NoDup(Ev.body[i].peers) /\ Ev.body[i].cnt = Len(Ev.body[i].peers), Ev.body[i])

LeashRec(r) == [id |-> r.id, h |-> r.h, score |-> r.score, ts |-> r.ts, gen |-> r.gen, peers |-> SeqSet(r.peers)]
HeadRec(r) == [n |-> r.n, id |-> r.id, h |-> r.h, score |-> r.score, ts |-> r.ts]

ForkBody == /\ Len(Ev.body) = 1
            /\ Holds("fork", EntryOf(Ev.body[1]) \in ForkViews(Ev.a), <<Ev.a, "expected one of", ForkViews(Ev.a), "answered", Ev.body>>)
            /\ Holds("fork: peers listed once and counted",
                     NoDup(Ev.body[1].peers) /\ Ev.body[1].cnt = Len(Ev.body[1].peers), Ev.body)
GensBody == Holds("fork generators", IsForkGenerators(Ev.gens, Ev.a, Ev.n), <<Ev.a, Ev.n, "of", ForkViews(Ev.a), "answered", Ev.gens>>)

Statuses == CASE Ev.what \in {"fork", "gens"} ->
                   PeerStatuses(Ev.a, Ev.bad, Ev.badn)
                   \* forms of an address or a count which may or may not be accepted
                   \cup (IF Ev.lax THEN {BadRequest, NotFound} ELSE {})
              [] Ev.what \in {"forks", "active"} -> IF Ev.bad THEN {BadRequest} ELSE {OK}
              [] Ev.what = "other" -> 200..499
              [] OTHER -> {OK}

Body ==
    CASE Ev.what = "all" -> PeersReport(DOMAIN book)
      [] Ev.what = "friendly" -> PeersReport(FriendlyPeers)
      [] Ev.what = "connections" -> PeersReport(conn)
      [] Ev.what = "heads" -> Holds("heads", IsHeadsReport([i \in DOMAIN Ev.body |-> HeadRec(Ev.body[i])]),
                                    <<{HeadInfo(n) : n \in ActiveHeads}, Ev.body>>)
      [] Ev.what = "leashes" ->
            /\ Holds("leashes", IsLeashesReport([i \in DOMAIN Ev.body |-> LeashRec(Ev.body[i])]),
                     <<{LeashGroup(b) : b \in ForkHeads(Leashed)}, Ev.body>>)
            /\ \A i \in DOMAIN Ev.body : Holds("peers listed once and counted",
                     NoDup(Ev.body[i].peers) /\ Ev.body[i].cnt = Len(Ev.body[i].peers), Ev.body[i])
      [] Ev.what = "status" ->
            LET s == Ev.body[1]
            IN /\ Holds("status", [long |-> s.long, short |-> s.short, all |-> s.all, friendly |-> s.friendly, connected |-> s.connected]
                                  \in StatusViews, <<"expected one of", StatusViews, "answered", s>>)
               /\ Holds("status: runtime", s.goroutines > 0 /\ s.version # "", s)
      [] Ev.what = "forks" -> ForksBody(ForksOf(Req))
      [] Ev.what = "active" -> ForksBody(ActiveOf(Req))
      [] Ev.what = "fork" -> ForkBody
      [] Ev.what = "gens" -> GensBody
      [] OTHER -> TRUE

Get == /\ Ev.op = "get"
       /\ (On("A01") =>
             /\ Holds(<<"status", Ev.path>>, Ev.status \in Statuses, <<Statuses, Ev.status, Fld(Ev, "err", "")>>)
             /\ (Ev.status = OK /\ Ev.what # "other") =>
                   /\ Same(<<"answer", Ev.path>>, IF Ev.what \in {"status", "fork"} THEN "object" ELSE "list", Ev.json)
                   /\ Body)
       /\ UNCHANGED <<blocks, heads, leash, book, conn, rank>>

(* While the stores change, requests still get answers. *)
Storm == /\ Ev.op = "storm"
         /\ (On("A01") => Holds("answered while the stores change", SeqSet(Ev.statuses) \subseteq {OK, NotFound}, <<Ev.statuses, Fld(Ev, "err", "")>>))
         /\ UNCHANGED <<blocks, heads, leash, book, conn, rank>>

ApiNext == /\ l <= Len(Trace)
           /\ l' = l + 1
           /\ (ApiNew \/ StoreOp \/ RegistryOp \/ Get \/ Storm)
ApiSpec == ApiInit /\ [][ApiNext]_apvars
===============================================================================
