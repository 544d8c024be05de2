---------------------------- MODULE RegistryTrace ------------------------------
(* Validates histories recorded from the real peer registry against            *)
(* Registry.tla. After every call the whole visible state was read back.       *)
(* `Focus` selects the properties on trial; what was observed becomes the      *)
(* state from which the next step is judged, so that a defect is reported by   *)
(* the property it breaks.                                                     *)
EXTENDS Registry, Json, IOUtils

CONSTANT Focus

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,
          shut,     \* connections observed closed
          past      \* books after each operation since the store was opened

tvars == <<book, conn, handed, self, versions, l, shut, past>>

On(p) == p \in Focus
Same(what, expected, observed) ==
    IF expected = observed THEN TRUE
    ELSE PrintT(<<"MISMATCH", ToString(l), what, "expected", expected, "observed", observed>>) /\ FALSE
Holds(what, cond, detail) == IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", ToString(l), what, detail>>) /\ FALSE

Ev == Trace[l]
SetOf(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(SetOf(s)) = Len(s)

(* Kinds of addresses, as far as traces use them. *)
TraceIsLoopback(a) == a \in {"127.0.0.1", "127.0.0.2", "127.255.255.254", "::1"}
TraceIsV4(a) == a \notin {"::1", "2001:db8::1", "fe80::7", "a01:203::"}
TraceZero == <<0, 0, 0>>

RecOf(r) == [port |-> r.port, nonce |-> r.nonce, name |-> r.name, ver |-> r.ver, state |-> r.state, next |-> r.next, score |-> r.score]
BookOf(s) == [a \in {s[i].a : i \in DOMAIN s} |-> RecOf(s[CHOOSE i \in DOMAIN s : s[i].a = a])]
ObsBook == BookOf(Ev.book)
ObsConn == [a \in {Ev.ends[i][1] : i \in DOMAIN Ev.ends} |-> Ev.ends[CHOOSE i \in DOMAIN Ev.ends : Ev.ends[i][1] = a][2]]

(* Configured versions: newest first, patch numbers do not matter. *)
Newer(v, w) == v[1] > w[1] \/ (v[1] = w[1] /\ v[2] > w[2])
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE v \in S : \A w \in S \ {v} : Newer(v, w) IN <<m>> \o Sorted(S \ {m})
Configured(vs) == Sorted({<<vs[i][1], vs[i][2], 0>> : i \in DOMAIN vs})

(* Names that are not text cannot be kept as they are: any text may stand for them. *)
ObsName(a) == IF a \in DOMAIN ObsBook THEN ObsBook[a].name ELSE ""
Shake(a) == [ver |-> Ev.hs.ver, net |-> Ev.hs.net, nonce |-> Ev.hs.nonce, dport |-> Ev.hs.dport,
             daddr |-> IF Ev.hs.daddr = "0.0.0.0" THEN "" ELSE Ev.hs.daddr,    \* unspecified: none
             rname |-> IF Ev.hs.text THEN Ev.hs.name ELSE ObsName(a),
             hname |-> IF Ev.hs.text THEN Ev.hs.name \o "(" \o Ev.hs.app \o ")" ELSE ObsName(a)]

-------------------------------------------------------------------------------
(* The visible state after the step, against the expected one. *)

HostileIn(b) == {a \in DOMAIN b : b[a].state = "hostile"}
FriendlyIn(b) == {a \in DOMAIN b : b[a].state = "connected"}

Visible(eb, ec, must) ==
    /\ (On("P06") => /\ Same("peers: result", "ok", Ev.bres)
                     /\ Holds("records", eb = ObsBook, {<<a, IF a \in DOMAIN eb THEN eb[a] ELSE "none", IF a \in DOMAIN ObsBook THEN ObsBook[a] ELSE "none">> :
                              a \in {a \in DOMAIN eb \cup DOMAIN ObsBook : ~(a \in DOMAIN eb /\ a \in DOMAIN ObsBook /\ eb[a] = ObsBook[a])}})
                     /\ Holds("peers listed once", NoDup(Ev.book), Ev.book))
    /\ (On("P04") => /\ Same("known peers", DOMAIN eb, DOMAIN ObsBook)
                     /\ Holds("peers listed once", Cardinality(DOMAIN ObsBook) = Len(Ev.book), Ev.book))
    /\ (On("P02") => /\ Same("hostile peers", HostileIn(eb), HostileIn(ObsBook))
                     /\ Same("friendly peers", FriendlyIn(eb), SetOf(Ev.friendly))
                     /\ Holds("friendly peers listed once", NoDup(Ev.friendly), Ev.friendly)
                     /\ Same("hostile peers connected", {}, HostileIn(ObsBook) \cap ({Ev.conns[i].a : i \in DOMAIN Ev.conns} \cup DOMAIN ObsConn)))
    /\ (On("P03") => /\ Same("connections: result", "ok", Ev.cres)
                     /\ Same("connections", DOMAIN ec, {Ev.conns[i].a : i \in DOMAIN Ev.conns})
                     /\ Holds("connections listed once", Cardinality({Ev.conns[i].a : i \in DOMAIN Ev.conns}) = Len(Ev.conns), Ev.conns)
                     /\ Same("broadcast", {<<a, ec[a], 1>> : a \in DOMAIN ec}, SetOf(Ev.ends))
                     /\ \A i \in DOMAIN Ev.conns :
                            LET a == Ev.conns[i].a
                            IN Same(<<"connection", a>>, [n |-> eb[a].name, v |-> eb[a].ver, c |-> eb[a].nonce, p |-> eb[a].port],
                                    [n |-> Ev.conns[i].name, v |-> Ev.conns[i].ver, c |-> Ev.conns[i].nonce, p |-> Ev.conns[i].port])
                     /\ Same("refused connections left open", {}, must \ SetOf(Ev.closed))
                     /\ Same("live connections closed", {}, {ec[a] : a \in DOMAIN ec} \cap SetOf(Ev.closed)))

Adopt == /\ book' = ObsBook /\ conn' = ObsConn /\ shut' = SetOf(Ev.closed)
         /\ past' = Append(past, ObsBook)

(* Expected state: of the operation `op`, evaluated in the state before. *)
Step(eb, ec, must) == Visible(eb, ec, must) /\ Adopt

New == /\ Ev.op = "new"
       /\ Holds("opened", Ev.res = "ok" /\ Ev.book = <<>> /\ Ev.conns = <<>>, Ev)
       /\ book' = <<>> /\ conn' = <<>> /\ handed' = {} /\ shut' = {} /\ past' = <<<<>>>>
       /\ self' = Ev.declared /\ versions' = Configured(Ev.versions)

TakeEv == /\ Ev.op = "take"
          /\ (On("P01") => /\ Same("take: result", "ok", Ev.res)
                           /\ Same("take", {<<a, book[a].port>> : a \in Eligible(Ev.now)}, SetOf(Ev.got))
                           /\ Holds("addresses handed out once", NoDup(Ev.got), Ev.got))
          /\ (On("P02") => Same("hostile peers handed out", {}, {Ev.got[i][1] : i \in DOMAIN Ev.got} \cap Hostile))
          /\ Step(book, conn, {})
          /\ handed' = handed \cup {Ev.got[i][1] : i \in DOMAIN Ev.got}
          /\ UNCHANGED <<self, versions>>

RegisterEv ==
    /\ Ev.op = "register"
    /\ LET a == Ev.a  h == Shake(a)
           eb == CASE Outcome(a, h) = "refused" -> book
                   [] Outcome(a, h) = "hostile" -> (a :> AsHostile(a, h)) @@ book
                   [] OTHER -> (a :> AsConnected(a, h, Ev.now)) @@ book
           ec == CASE Outcome(a, h) = "refused" -> conn
                   [] Outcome(a, h) = "hostile" -> Without(conn, a)
                   [] OTHER -> (a :> Ev.c) @@ conn
       IN /\ Holds("register: ended", Ev.res \in {"ok", "error"}, Ev)
          /\ (On("P02") /\ Outcome(a, h) = "hostile") => Same("hostile peer's connections left open", {}, MustClose(a, Ev.c, h) \ SetOf(Ev.closed))
          /\ (On("P02") /\ a \in Hostile) => Same("hostile peer's connection left open", {}, {Ev.c} \ SetOf(Ev.closed))
          /\ (On("P03") /\ Outcome(a, h) = "connected") => Same("register: result", "ok", Ev.res)
          /\ Step(eb, ec, MustClose(a, Ev.c, h))
    /\ handed' = handed \ {Ev.a}
    /\ UNCHANGED <<self, versions>>

UnregisterEv ==
    /\ Ev.op = "unregister"
    /\ Holds("unregister: ended", Ev.res \in {"ok", "error"}, Ev)
    /\ LET a == Ev.a
           ends == a \in Listed /\ ~EndsNothing(a, Ev.c)
       IN Step(IF ends THEN [book EXCEPT ![a].next = Ev.now + Delay] ELSE book,
               IF ends THEN Without(conn, a) ELSE conn, {})
    /\ handed' = IF Ev.a \in Listed THEN handed \ {Ev.a} ELSE handed
    /\ UNCHANGED <<self, versions>>

ScoreEv == /\ Ev.op = "score"
           /\ Holds("score: ended", Ev.res \in {"ok", "error"}, Ev)
           /\ Step(IF Ev.a \in Listed THEN [book EXCEPT ![Ev.a].score = Ev.s] ELSE book, conn, {})
           /\ UNCHANGED <<handed, self, versions>>

HostileEv ==
    /\ Ev.op = "hostile"
    /\ Holds("hostile: ended", Ev.res \in {"ok", "error"}, Ev)
    /\ LET a == Ev.a
           kept == IF a \in Listed /\ a \in DOMAIN ObsBook /\ ObsBook[a].port = book[a].port THEN book[a].port ELSE 0
           ends == IF a \in Connected THEN {conn[a]} ELSE {}
       IN /\ (On("P02") => Same("hostile peer's connection left open", {}, ends \ SetOf(Ev.closed)))
          /\ Step((a :> [Old(a) EXCEPT !.state = "hostile", !.port = kept]) @@ book, Without(conn, a), ends)
    /\ handed' = handed \ {Ev.a}
    /\ UNCHANGED <<self, versions>>

AppendEv == /\ Ev.op = "append"
            /\ (On("P04") => /\ Same("append: result", "ok", Ev.res)
                             /\ Same("append: added", Cardinality(Adds(Ev.l)), Ev.cnt)
                             /\ Holds("append: records", BookWith(Ev.l) = ObsBook, <<BookWith(Ev.l), ObsBook>>))
            /\ Step(BookWith(Ev.l), conn, {})
            /\ UNCHANGED <<handed, self, versions>>

SuggestEv ==
    /\ Ev.op = "suggest"
    /\ LET s == Suggestion(Ev.a)
           eb == IF s = Refused \/ Ev.a \in Friendly THEN book
                 ELSE (Ev.a :> [Old(Ev.a) EXCEPT !.ver = s, !.next = Ev.now + Delay]) @@ book
       IN /\ (On("P05") => /\ Same(<<"suggested version", Ev.a>>, IF s = Refused THEN "error" ELSE "ok", Ev.res)
                           /\ s # Refused => Same(<<"suggested version", Ev.a>>, s, Ev.ver)
                           /\ s # Refused => /\ Holds("negotiated peer known", Ev.a \in DOMAIN ObsBook, ObsBook)
                                             /\ Same("recorded version and next attempt", <<eb[Ev.a].ver, eb[Ev.a].next, eb[Ev.a].state>>,
                                                     <<ObsBook[Ev.a].ver, ObsBook[Ev.a].next, ObsBook[Ev.a].state>>))
          /\ ((On("D04") /\ "as" \in DOMAIN Ev) => Same("presented on connecting", <<"wavesT", "the name", "4242", "10.99.1.1:6868">>, Ev.as))
          /\ ((On("P02") /\ Ev.a \in Hostile) => Same("version for a hostile peer", "error", Ev.res))
          /\ Step(eb, conn, {})
    /\ UNCHANGED <<handed, self, versions>>

SleepEv == /\ Ev.op = "sleep"
           /\ Step(book, conn, {})
           /\ UNCHANGED <<handed, self, versions>>

ReopenEv == /\ Ev.op = "reopen"
            /\ Holds("reopened", Ev.res = "ok", Ev)
            /\ Visible(book, <<>>, {})
            /\ book' = ObsBook /\ conn' = ObsConn /\ shut' = {} /\ past' = <<ObsBook>>
            /\ handed' = {}
            /\ self' = Ev.declared /\ versions' = Configured(Ev.versions)

-------------------------------------------------------------------------------
(* Crashes: the book after the first `done` operations, or within the next one. *)

PartialBooks(b, o) ==
    IF o.op # "append" THEN {}
    ELSE {LET fresh == {i \in DOMAIN o.l : /\ TraceIsV4(o.l[i][1]) /\ ~TraceIsLoopback(o.l[i][1]) /\ o.l[i][1] # self
                                           /\ o.l[i][1] \notin DOMAIN b
                                           /\ \A j \in 1..(i - 1) : o.l[j][1] # o.l[i][1]}
              these == {i \in fresh : i <= k}
          IN b @@ [a \in {o.l[i][1] : i \in these} |-> Fresh(o.l[CHOOSE i \in these : o.l[i][1] = a][2])]
          : k \in 0..Len(o.l)}

Survivors == {past[Ev.done + 1]} \cup (IF Ev.how = "clean" THEN {} ELSE PartialBooks(past[Ev.done + 1], Ev.next))

Survived == /\ Holds("readable after restart", Ev.res = "ok" /\ Ev.bres = "ok" /\ Ev.cres = "ok" /\ Ev.conns = <<>> /\ Ev.ends = <<>>,
                     <<Ev.how, Ev.done, Ev.res>>)
            /\ Holds("peers listed once", Cardinality(DOMAIN ObsBook) = Len(Ev.book), Ev.book)
            /\ Holds("survived book", ObsBook \in Survivors, <<Ev.how, Ev.done, Ev.next, Survivors, ObsBook>>)

CrashEv == /\ Ev.op = "crash"
           /\ Survived
           /\ UNCHANGED <<book, conn, handed, self, versions, shut, past>>

RecoverEv == /\ Ev.op = "recover"
             /\ Survived
             /\ book' = ObsBook /\ conn' = <<>> /\ handed' = {} /\ shut' = {} /\ past' = <<ObsBook>>
             /\ UNCHANGED <<self, versions>>

TraceInit == l = 1 /\ RegistryInit("", <<>>) /\ shut = {} /\ past = <<>>

TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \/ New \/ TakeEv \/ RegisterEv \/ UnregisterEv \/ ScoreEv \/ HostileEv \/ AppendEv \/ SuggestEv \/ SleepEv
       \/ ReopenEv \/ CrashEv \/ RecoverEv

TraceSpec == TraceInit /\ [][TraceNext]_tvars

TraceAccepted ==
    \/ TLCGet("stats").diameter - 1 = Len(Trace)
    \/ PrintT(<<"REJECTED", ToString(TLCGet("stats").diameter)>>) /\ FALSE

View == l
===============================================================================
