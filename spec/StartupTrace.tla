----------------------------- MODULE StartupTrace ------------------------------
(* Validates recorded launches of the real program against Startup.tla.         *)
EXTENDS Startup, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, usual  \* network -> addresses the program brings along
tvars == <<stvars, l, usual>>

Ev == Trace[l]
ToSet(s) == {s[i] : i \in DOMAIN s}
Holds(what, cond, info) == cond \/ (PrintT(<<"MISMATCH", ToString(l), what, info>>) /\ FALSE)

New == Ev.op = "new" /\ run' = <<>> /\ data' = <<>> /\ UNCHANGED usual
Launch ==
    /\ Ev.op = "launch"
    /\ Holds("answers or ends", Ev.res \in {"up", "refused"}, Ev)
    /\ IF Ev.res = "up"
       THEN /\ Holds("adopted", Bad(Ev.c) = {} /\ ~Taken(Ev.c), <<"wrong", Bad(Ev.c), "taken", Taken(Ev.c)>>)
            /\ Adopt(Ev.i, Ev.c)
       ELSE /\ Holds("refused", Bad(Ev.c) # {} \/ Open(Ev.c) \/ Taken(Ev.c), Ev)
            /\ Holds("with a message and a status", Ev.code \in {1, 2} /\ Ev.said /\ ~Ev.panic, Ev)
            /\ Holds("nothing written", Bad(Ev.c) # {} => ~Ev.wrote, Ev)
            /\ Refuse(Ev.c)
    /\ UNCHANGED usual
Stopped ==
    /\ Ev.op = "stop"
    /\ Holds("ended as asked to", Ev.code = (IF Ev.k = "kill" THEN -9 ELSE 0), Ev)
    /\ Stop(Ev.i) /\ UNCHANGED usual
(* Addresses its API reports that are of the parameters, and those that are not. *)
Looked ==
    /\ Ev.op = "book"
    /\ LET c == run[Ev.i] IN
       /\ Holds("answers", Ev.status = 200, Ev)
       /\ Holds("knows the peers it was told of", ToSet(Ev.l) = Book(c.db), <<Ev.l, Book(c.db)>>)
       /\ Holds("peers of its own", Ev.others # <<>> /\ (AppName(c) \in DOMAIN usual => usual[AppName(c)] = ToSet(Ev.others)), <<Ev.others, usual>>)
       /\ Holds("peers of its own differ", \A t \in DOMAIN usual \ {AppName(c)} : usual[t] \cap ToSet(Ev.others) = {}, <<Ev.others, usual>>)
       /\ usual' = (AppName(c) :> ToSet(Ev.others)) @@ usual
    /\ UNCHANGED stvars
(* A node calls. *)
Called ==
    /\ Ev.op = "call"
    /\ LET c == run[Ev.i] IN
       /\ Holds("listens", NetSure(Ev.i) => (Ev.heard = Listens(c) \/ (Open(c) /\ ~Ev.heard)), Ev)
       /\ (Ev.heard /\ NetSure(Ev.i)) =>
            /\ Holds("accepts", Ev.listed = Accepts(c, Ev.app, Ev.ver), <<Ev, Newest(c)>>)
            /\ Ev.listed => Holds("presents itself as configured", Ev.rapp = AppName(c) /\ Ev.rname = c.name /\ Ev.rdeclared
                                                                   /\ Ev.rver \in Versions(c) \cup {Ev.ver}, <<Ev, AppName(c), Versions(c)>>)
    /\ UNCHANGED <<stvars, usual>>

TraceInit == l = 1 /\ usual = <<>> /\ StartupInit
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ (New \/ Launch \/ Stopped \/ Looked \/ Called)
TraceSpec == TraceInit /\ [][TraceNext]_tvars

TraceAccepted ==
    LET d == TLCGet("stats").diameter IN
    d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED", ToString(d)>>) /\ FALSE)
===============================================================================
