----------------------------- MODULE ChainsTrace ------------------------------
(* Validates histories recorded from the real chain store against Chains.tla.  *)
(*                                                                             *)
(* Each line of the trace is one call with its arguments, its result and what  *)
(* was read back. The operations of Chains give the expected result and state; *)
(* `Focus` selects the properties on trial: their observations are compared,   *)
(* while observations that belong to other properties are taken as given, so   *)
(* that a defect is reported by the property it breaks.                        *)
EXTENDS Chains, Scores, Json, IOUtils

CONSTANT Focus

TraceNoBlock == -1
Trace == ndJsonDeserialize(IOEnv.TRACE)

(* Scores of all base targets of the trace, computed once. *)
ScoreTable == [bt \in {Trace[i].bt : i \in {i \in DOMAIN Trace : Trace[i].op \in {"new", "put", "mint"}}}
                  \cup {Trace[i].next.bt : i \in {i \in DOMAIN Trace : Trace[i].op \in {"crash", "recover"} /\ Trace[i].next.op = "put"}}
               |-> BlockScore64(bt)]
TableScore(bt) == ScoreTable[bt]

InRange(bt, tsl) == Storable(bt, tsl)

VARIABLE l

tvars == <<blocks, heads, leash, l>>

On(p) == p \in Focus

(* Compare, and say what differs: shown when TLC stops at this line. *)
Same(what, expected, observed) ==
    IF expected = observed THEN TRUE
    ELSE PrintT(<<"MISMATCH", ToString(l), what, "expected", expected, "observed", observed>>) /\ FALSE
Holds(what, cond, detail) == IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", ToString(l), what, detail>>) /\ FALSE

Ev == Trace[l]
Fld(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

RecOf(o) == [par |-> o.par, h |-> o.h, score |-> o.score, ts |-> o.ts, gen |-> o.gen]
Plain(r) == [par |-> r.par, h |-> r.h, score |-> r.score, ts |-> r.ts, gen |-> r.gen]

(* The observed record of a block, under the parent the operation gave it. *)
Adopt(o, par, kind) == [par |-> par, h |-> o.h, score |-> o.score, ts |-> o.ts, gen |-> o.gen, kind |-> kind]

-------------------------------------------------------------------------------

TraceInit == /\ l = 1
             /\ blocks = <<>> /\ heads = <<>> /\ leash = <<>>

(* A fresh store. *)
New == /\ Ev.op = "new"
       /\ (On("C01") => /\ Same("new: result", "ok", Ev.res)
                        /\ Same("new: genesis known", TRUE, Ev.has)
                        /\ Same("new: genesis", [par |-> NoBlock, h |-> 1, score |-> BlockScore(Ev.bt),
                                                 ts |-> Ev.ts, gen |-> Ev.gen], RecOf(Ev.blk)))
       /\ blocks' = (Genesis :> IF Ev.has THEN Adopt(Ev.blk, NoBlock, "genesis")
                     ELSE [par |-> NoBlock, h |-> 1, score |-> BlockScore(Ev.bt), ts |-> Ev.ts,
                           gen |-> Ev.gen, kind |-> "genesis"])
       /\ heads' = <<Genesis>>
       /\ leash' = <<>>

(* Recording as observed: `has` and the record read back right after the call. *)
Recorded(on, par, kind) ==
    IF Ev.has /\ Ev.b \notin Known /\ on \in Known
    THEN Record(Ev.b, Adopt(Ev.blk, par, kind), on)
    ELSE UNCHANGED <<blocks, heads>>
Positioned == IF Ev.res = "ok" THEN Position(Ev.a, Ev.b) ELSE UNCHANGED leash

Put == /\ Ev.op = "put"
       /\ (On("C01") =>
             /\ Same("put: result", PutBlockResult(Ev.b, Ev.p, Ev.bt, Ev.tsl), Ev.res)
             /\ Same("put: known", PutBlockResult(Ev.b, Ev.p, Ev.bt, Ev.tsl) = "ok", Ev.has)
             /\ (Ev.b \notin Known /\ PutBlockResult(Ev.b, Ev.p, Ev.bt, Ev.tsl) = "ok") =>
                   Same("put: record", Plain(KeyBlock(Ev.p, Ev.bt, Ev.ts, Ev.gen)), RecOf(Ev.blk))
             /\ (Ev.b \in Known /\ blocks[Ev.b].kind # "micro") =>
                   Same("put: record of known block", Plain(blocks[Ev.b]), RecOf(Ev.blk)))
       /\ Recorded(Ev.p, Ev.p, "key")
       /\ Positioned

Micro == /\ Ev.op = "micro"
         /\ (On("C02") =>
               /\ Same("micro: result", PutMicroResult(Ev.b, Ev.r), Ev.res)
               /\ Same("micro: known", Ev.b \in Known \/ Ev.r \in Known \ {Genesis}, Ev.has)
               /\ (Ev.b \notin Known /\ Ev.r \in Known \ {Genesis}) =>
                     Same("micro: record", Plain(MicroBlock(Ev.r)), RecOf(Ev.blk))
               /\ (Ev.b \in Known) =>
                     Same("micro: record of known block", Plain(blocks[Ev.b]), RecOf(Ev.blk)))
         /\ Recorded(Ev.r, IF Ev.r \in Known THEN blocks[Ev.r].par ELSE NoBlock, "micro")
         /\ Positioned

MoveTo == /\ Ev.op = "move"
          /\ (On("C04") => Same("move: result", "ok", Ev.res))
          /\ MoveLeash(Ev.b, Ev.a)

(* Everything the store holds, read back through its getters. *)
ObsBlocks == [b \in {Ev.blocks[i].id : i \in DOMAIN Ev.blocks} |->
                RecOf(Ev.blocks[CHOOSE i \in DOMAIN Ev.blocks : Ev.blocks[i].id = b])]
KindBlocks(K) == [b \in {b \in Known : blocks[b].kind \in K} |-> Plain(blocks[b])]
ModelLeashes == {<<a, leash[a]>> : a \in Leashed}
SeqSet(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(SeqSet(s)) = Len(s)

Obs == /\ Ev.op = "obs"
       /\ (On("C01") =>
             /\ Same("obs: blocks known", TRUE, {b \in Known : blocks[b].kind # "micro"} \subseteq DOMAIN ObsBlocks)
             /\ Same("obs: no foreign blocks", TRUE, DOMAIN ObsBlocks \subseteq Known)
             /\ \A b \in {b \in Known : blocks[b].kind # "micro"} :
                   Same(<<"obs: block", b>>, Plain(blocks[b]), ObsBlocks[b]))
       /\ (On("C02") =>
             /\ \A b \in {b \in Known : blocks[b].kind = "micro"} :
                   /\ Same(<<"obs: known", b>>, TRUE, b \in DOMAIN ObsBlocks)
                   /\ Same(<<"obs: micro-block version", b>>, Plain(blocks[b]), ObsBlocks[b]))
       /\ (On("C03") =>
             /\ Same("heads: result", "ok", Ev.hres)
             /\ Same("heads", {<<n, heads[n]>> : n \in DOMAIN heads}, SeqSet(Ev.heads))
             /\ Holds("heads listed once", NoDup(Ev.heads), Ev.heads)
             /\ Same("active heads: result", "ok", Ev.ares)
             /\ Same("active heads", {<<n, heads[n]>> : n \in ActiveHeads}, SeqSet(Ev.active))
             /\ Holds("active heads listed once", NoDup(Ev.active), Ev.active))
       /\ (On("C04") =>
             /\ Same("leashes: result", "ok", Ev.lres)
             /\ Same("leashes", ModelLeashes, SeqSet(Ev.leashes))
             /\ Holds("leashes listed once", NoDup(Ev.leashes), Ev.leashes)
             /\ \A i \in DOMAIN Ev.peers :
                  LET p == Ev.peers[i]
                  IN /\ Same(<<"has leash", p.a>>, <<"ok", p.a \in Leashed>>, <<p.hres, p.has>>)
                     /\ Same(<<"leash", p.a>>, <<"ok", LeashOf(p.a)>>, <<p.lres, p.leash>>)
                     /\ Same(<<"leash score", p.a>>, <<"ok", LeashScore(p.a)>>, <<p.sres, p.score>>))
       /\ UNCHANGED cvars

Lcb == /\ Ev.op = "lcb"
       /\ (On("C05") => /\ Same(<<"lcb: result", Ev.a>>, "ok", Ev.res)
                        /\ Holds("lcb", Ev.id \in LCBs(Ev.a), <<Ev.a, Ev.id, LCBs(Ev.a)>>))
       /\ UNCHANGED cvars

Last == /\ Ev.op = "lastids"
        /\ (On("C06") \/ (Ev.n <= 2 /\ (On("C01") \/ On("C02"))) =>   \* two ids: a block and its own parent
              IF Ev.b \in Known
              THEN /\ Same(<<"last ids: result", Ev.b, Ev.n>>, "ok", Ev.res)
                   /\ Same(<<"last ids", Ev.b, Ev.n>>, LastIDs(Ev.b, Ev.n), Ev.ids)
              ELSE Same(<<"last ids of unknown block: result", Ev.b>>, "error", Ev.res))
        /\ UNCHANGED cvars

EntryOf(e) == [head |-> e.head, h |-> e.h, score |-> e.score, ts |-> e.ts, gen |-> e.gen,
               peers |-> SeqSet(e.peers), longest |-> e.longest, lcb |-> e.lcb, len |-> e.len]

AsSet(s) == IF s = <<>> THEN Leashed ELSE SeqSet(s)

EntryDiff(rep, S) == {<<ForkEntry(rep[i].head, rep[1].head, S), rep[i]>> :
                        i \in {i \in DOMAIN rep : rep[i].head \in Known /\ rep[i] # ForkEntry(rep[i].head, rep[1].head, S)}}

ForksEv == /\ Ev.op = "forks"
           /\ (On("C07") =>
                 LET S   == AsSet(Ev.peers)
                     rep == [i \in DOMAIN Ev.forks |-> EntryOf(Ev.forks[i])]
                 IN /\ Same(<<"forks: result", Ev.peers>>, "ok", Ev.res)
                    /\ Same(<<"forks: heads", Ev.peers>>, ForkHeads(S), {rep[i].head : i \in DOMAIN rep})
                    /\ Holds("forks report (expected, reported)", IsForksReport(rep, S), <<Ev.peers, EntryDiff(rep, S),
                             [i \in DOMAIN rep |-> <<rep[i].head, rep[i].longest>>]>>)
                    /\ \A i \in DOMAIN Ev.forks :
                         Holds("peers listed once and counted",
                               NoDup(Ev.forks[i].peers) /\ Ev.forks[i].cnt = Len(Ev.forks[i].peers), Ev.forks[i]))
           /\ UNCHANGED cvars

ForkEv == /\ Ev.op = "fork"
          /\ ((On("C08") /\ Ev.a \in Leashed) =>
                 /\ Same(<<"fork: result", Ev.a>>, "ok", Ev.res)
                 /\ Holds("fork", EntryOf(Ev.fork) \in ForkViews(Ev.a), <<"expected one of", ForkViews(Ev.a), "observed", EntryOf(Ev.fork)>>)
                 /\ Holds("fork: peers listed once and counted",
                          NoDup(Ev.fork.peers) /\ Ev.fork.cnt = Len(Ev.fork.peers), Ev.fork))
          /\ UNCHANGED cvars

StatsEv == /\ Ev.op = "stats"
           /\ (On("C08") =>
                 /\ Same("stats: result", "ok", Ev.res)
                 /\ Holds("stats", [long |-> Ev.long, short |-> Ev.short] \in StatsViews,
                          <<"expected one of", StatsViews, "observed", Ev.long, Ev.short>>))
           /\ UNCHANGED cvars

Gens == /\ Ev.op = "gens"
        /\ (On("C09") =>
              IF Ev.b \in Known
              THEN /\ Same(<<"generators: result", Ev.b, Ev.n>>, "ok", Ev.res)
                   /\ Holds("generators", IsGeneratorsReport(Ev.gens, Ev.b, Ev.n),
                            <<Ev.b, Ev.n, "expected", GeneratorCounts(Ev.b, Ev.n), "observed", Ev.gens>>)
              ELSE Same(<<"generators of unknown block: result", Ev.b>>, "error", Ev.res))
        /\ UNCHANGED cvars

(* Orderly close and reopening of the store changes nothing. *)
Reopen == /\ Ev.op = "reopen"
          /\ (On("C10") => Same("reopen: result", "ok", Ev.res))
          /\ UNCHANGED cvars

TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \/ New \/ Put \/ Micro \/ MoveTo \/ Obs \/ Lcb \/ Last \/ ForksEv \/ ForkEv \/ StatsEv \/ Gens \/ Reopen

TraceSpec == TraceInit /\ [][TraceNext]_tvars

TraceAccepted ==
    \/ TLCGet("stats").diameter - 1 = Len(Trace)
    \/ PrintT(<<"REJECTED", ToString(TLCGet("stats").diameter)>>) /\ FALSE

View == l
===============================================================================
