------------------------------- MODULE TallTrace ------------------------------
(* Validates histories of tall trees recorded from the real chain store.       *)
EXTENDS Tall, Json, IOUtils

CONSTANT Focus

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<br, pos, l>>
Ev == Trace[l]
On(p) == p \in Focus

Same(what, expected, observed) ==
    IF expected = observed THEN TRUE
    ELSE PrintT(<<"MISMATCH", ToString(l), what, "expected", expected, "observed", observed>>) /\ FALSE
Holds(what, cond, detail) == IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", ToString(l), what, detail>>) /\ FALSE
SetOf(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(SetOf(s)) = Len(s)

TraceInit == l = 1 /\ br = <<>> /\ pos = <<>>

New == /\ Ev.op = "new"
       /\ br' = <<Root(2, 0)>> /\ pos' = <<>>

Grow == /\ Ev.op = "grow"
        /\ IF Ev.k <= Len(br) THEN Extend(Ev.k, Ev.n)
           ELSE IF Ev.mic THEN MicroFork(Ev.x, Ev.n) ELSE Fork(Ev.x[1], Ev.x[2], Ev.n, Ev.w, Ev.g)
        /\ Same("grow: result", "ok", Ev.res)

EntryOf(e) == [head |-> e.head, score |-> e.score, gen |-> e.gen, peers |-> SetOf(e.peers), longest |-> e.longest,
               lcb |-> e.lcb, len |-> e.len]

(* The peers take positions ps; then every view over them is read. *)
Views == /\ Ev.op = "views"
         /\ Place(Ev.pos)
         /\ (On("C05") => \A i \in DOMAIN pos' :
                 Holds("last common block", Ev.lcb[i] \in LcbT(i)', <<i, Ev.pos, LcbT(i)', Ev.lcb[i]>>))
         /\ (On("C07") => \E rep \in {[i \in DOMAIN Ev.forks |-> EntryOf(Ev.forks[i])]} :
                             Holds("forks report", ReportT(rep)', <<Ev.pos, Ev.forks>>))
         /\ (On("C08") => /\ \A i \in DOMAIN pos' : Holds("fork", EntryOf(Ev.fork[i]) \in ForkT(i)', <<Ev.pos, ForkT(i)', Ev.fork[i]>>)
                          /\ Holds("stats", Ev.stats \in StatsT', <<Ev.pos, StatsT', Ev.stats>>))

Last == /\ Ev.op = "last"
        /\ (On("C06") => /\ Same(<<"last ids: result", Ev.x, Ev.n>>, "ok", Ev.res)
                         /\ Same(<<"last ids", Ev.x, Ev.n>>, RunsT(Ev.x, Ev.n), Ev.runs))
        /\ UNCHANGED tallvars

Gens == /\ Ev.op = "gens"
        /\ (On("C09") => /\ Same(<<"generators: result", Ev.x, Ev.n>>, "ok", Ev.res)
                         /\ Same(<<"generators", Ev.x, Ev.n>>, GensT(Ev.x, Ev.n), SetOf(Ev.gens))
                         /\ Holds("generators listed once in order", NoDup(Ev.gens) /\
                               \A i \in DOMAIN Ev.gens : i > 1 => Ev.gens[i - 1][2] >= Ev.gens[i][2], Ev.gens))
        /\ UNCHANGED tallvars

TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (New \/ Grow \/ Views \/ Last \/ Gens)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
                 \/ PrintT(<<"REJECTED", ToString(TLCGet("stats").diameter)>>) /\ FALSE
View == l
===============================================================================
