------------------------------ MODULE DialTrace --------------------------------
(* Validates recorded attempts of the real dialling loop against Dial.tla. The *)
(* unit of time is the millisecond. After every step of the environment the    *)
(* registry was read back, and its records are taken as found (how they come   *)
(* about is decided elsewhere): on trial is which addresses are dialled when.  *)
EXTENDS Dial, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,
          due,      \* address -> since when it is eligible without a break
          last      \* time of the last attempt

tvars == <<book, conn, handed, self, versions, broken, up, l, due, last>>

Period == 10000     \* ticks
Slack == 1000

Holds(what, cond, detail) == IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", ToString(l), what, detail>>) /\ FALSE

Ev == Trace[l]
TraceIsLoopback(a) == a \in {"127.0.0.1", "::1"}
TraceIsV4(a) == a \notin {"::1", "2001:db8::1"}
TraceZero == <<0, 0, 0>>
RefusesNow(a) == a = "0.0.0.0"      \* nobody listens there

RecOf(r) == [port |-> r.port, nonce |-> r.nonce, name |-> r.name, ver |-> r.ver, state |-> r.state, next |-> r.ms, score |-> r.score]
ObsBook == [a \in {Ev.book[i].a : i \in DOMAIN Ev.book} |-> RecOf(Ev.book[CHOOSE i \in DOMAIN Ev.book : Ev.book[i].a = a])]
ObsConn == [a \in {Ev.ends[i][1] : i \in DOMAIN Ev.ends} |-> Ev.ends[CHOOSE i \in DOMAIN Ev.ends : Ev.ends[i][1] = a][2]]

Max(x, y) == IF x > y THEN x ELSE y

Candidate(b, c, h, a) == /\ b[a].state # "hostile" /\ b[a].port # 0 /\ a # self
                         /\ a \notin DOMAIN c /\ a \notin h

(* To be said last in each step. *)
Duties ==
    due' = IF broken' \/ ~up' THEN <<>>
           ELSE [a \in {x \in DOMAIN book' : Candidate(book', conn', handed', x)} |->
                    IF a \in DOMAIN due /\ a \in Listed /\ book[a].next = book'[a].next THEN due[a]
                    ELSE Max(Ev.now, book'[a].next)]

NobodyForgotten2 ==
    Holds("eligible address not dialled", \A a \in DOMAIN due : Ev.now - due[a] <= Period + Slack,
          <<Ev.now, {<<a, due[a]>> : a \in {x \in DOMAIN due : Ev.now - due[x] > Period + Slack}}>>)

Adopted == IF Ev.bres = "ok" THEN book' = ObsBook /\ conn' = ObsConn ELSE UNCHANGED <<book, conn>>

New == /\ Ev.op = "new"
       /\ Holds("started", Ev.res = "ok", Ev)
       /\ book' = <<>> /\ conn' = <<>> /\ handed' = {} /\ self' = Ev.declared
       /\ versions' = [i \in DOMAIN Ev.versions |-> <<Ev.versions[i][1], Ev.versions[i][2], 0>>]
       /\ broken' = FALSE /\ up' = TRUE /\ due' = <<>> /\ last' = 0

Dialled ==
    /\ Ev.op = "dial"
    /\ NobodyForgotten2
    /\ Holds("dialling after shutdown", up, Ev.now)
    /\ Holds("dialled though not eligible", Ev.a \in Eligible(Ev.now),
             <<Ev.a, Ev.now, IF Ev.a \in Listed THEN book[Ev.a] ELSE "unknown", Ev.a \in Connected, Ev.a \in handed>>)
    /\ Holds("ticks too close", Ev.now = last \/ Ev.now >= last + Period - Slack, <<last, Ev.now>>)
    /\ last' = Ev.now
    /\ book' = IF RefusesNow(Ev.a) THEN [book EXCEPT ![Ev.a].next = Ev.now + Delay] ELSE Begun(book, {Ev.a}, Ev.now)
    /\ handed' = IF RefusesNow(Ev.a) \/ Refuses(Ev.a) THEN handed ELSE handed \cup {Ev.a}
    /\ UNCHANGED <<conn, self, versions, broken, up>>
    /\ Duties

Ended == Ev.op \in {"fail", "ok", "end", "come", "hostile"} /\ Ev.res # "none"

Env ==
    /\ Ev.op \in {"sleep", "append", "fail", "ok", "end", "come", "hostile", "break", "mend", "stop"}
    /\ Holds("step ended", Ev.res \in {"ok", "error", "none"}, Ev)
    /\ (Ev.op = "stop" => Holds("shutdown in time", Ev.res = "ok" /\ Ev.took <= 5000, Ev))
    /\ NobodyForgotten2
    /\ Adopted
    /\ handed' = IF Ended /\ (Ev.op # "end" \/ Ev.a \in Listed) THEN handed \ {Ev.a} ELSE handed
    /\ broken' = CASE Ev.op = "break" /\ Ev.res = "ok" -> TRUE [] Ev.op = "mend" -> FALSE [] OTHER -> broken
    /\ up' = (up /\ Ev.op # "stop")
    /\ UNCHANGED <<self, versions, last>>
    /\ Duties

TraceInit == l = 1 /\ DialInit("", <<>>) /\ due = <<>> /\ last = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (New \/ Dialled \/ Env)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
    \/ TLCGet("stats").diameter - 1 = Len(Trace)
    \/ PrintT(<<"REJECTED", ToString(TLCGet("stats").diameter)>>) /\ FALSE
View == l
===============================================================================
