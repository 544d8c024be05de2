------------------------------- MODULE LinTrace -------------------------------
(* Linearizability of the chain store (C11): each history of overlapping calls *)
(* recorded from the real store must have an order of its calls, respecting    *)
(* the real-time order, in which every result is the one Chains gives. TLC     *)
(* searches the orders. A history is one line of the trace.                    *)
EXTENDS Chains, Scores, Json, IOUtils

TraceNoBlock == -1
Trace == ndJsonDeserialize(IOEnv.TRACE)

OpsWithBt == UNION {{Trace[k].ops[i].bt : i \in {i \in DOMAIN Trace[k].ops : Trace[k].ops[i].op = "put"}} : k \in DOMAIN Trace}
ScoreTable == [bt \in OpsWithBt \cup {Trace[k].new.bt : k \in DOMAIN Trace} |-> BlockScore64(bt)]
TableScore(bt) == ScoreTable[bt]
InRange(bt, tsl) == Storable(bt, tsl)

VARIABLES k,        \* history under consideration
          done      \* its calls already ordered

lvars == <<blocks, heads, leash, k, done>>

H == Trace[k]
Calls == DOMAIN H.ops

FreshBlocks(n) == (Genesis :> [par |-> NoBlock, h |-> 1, score |-> BlockScore(n.bt), ts |-> n.ts, gen |-> n.gen, kind |-> "genesis"])

Init == /\ k = 1 /\ done = {}
        /\ blocks = FreshBlocks(Trace[1].new) /\ heads = <<Genesis>> /\ leash = <<>>

SetOf(s) == {s[i] : i \in DOMAIN s}
Plain(r) == [par |-> r.par, h |-> r.h, score |-> r.score, ts |-> r.ts, gen |-> r.gen]
EntryOf(e) == [head |-> e.head, h |-> e.h, score |-> e.score, ts |-> e.ts, gen |-> e.gen,
               peers |-> SetOf(e.peers), longest |-> e.longest, lcb |-> e.lcb, len |-> e.len]

(* The call's result is right in the current state. *)
Explains(o) ==
    CASE o.op = "put" -> o.res = PutBlockResult(o.b, o.p, o.bt, o.tsl)
      [] o.op = "micro" -> o.res = PutMicroResult(o.b, o.r)
      [] o.op = "move" -> o.res = "ok"
      [] o.op = "lcb" -> o.res = "ok" /\ o.id \in LCBs(o.a)
      [] o.op = "lastids" -> IF o.b \in Known THEN o.res = "ok" /\ o.ids = LastIDs(o.b, o.n) ELSE o.res = "error"
      [] o.op = "forks" -> /\ o.res = "ok"
                           /\ LET S == IF o.peers = <<>> THEN Leashed ELSE SetOf(o.peers)
                                  rep == [i \in DOMAIN o.forks |-> EntryOf(o.forks[i])]
                              IN {rep[i].head : i \in DOMAIN rep} = ForkHeads(S) /\ IsForksReport(rep, S)
      [] o.op = "fork" -> IF o.a \in Leashed THEN o.res = "ok" /\ EntryOf(o.fork) \in ForkViews(o.a) ELSE TRUE
      [] o.op = "stats" -> o.res = "ok" /\ [long |-> o.long, short |-> o.short] \in StatsViews
      [] o.op = "gens" -> IF o.b \in Known THEN o.res = "ok" /\ IsGeneratorsReport(o.gens, o.b, o.n) ELSE o.res = "error"
      [] o.op = "heads" -> o.res = "ok" /\ SetOf(o.heads) = {<<n, heads[n]>> : n \in DOMAIN heads}
      [] o.op = "active" -> o.res = "ok" /\ SetOf(o.heads) = {<<n, heads[n]>> : n \in ActiveHeads}
      [] o.op = "leashes" -> o.res = "ok" /\ SetOf(o.leashes) = {<<a, leash[a]>> : a \in Leashed}
      [] o.op = "leash" -> o.res = "ok" /\ o.leash = LeashOf(o.a)
      [] o.op = "lscore" -> o.res = "ok" /\ o.score = LeashScore(o.a)
      [] o.op = "hasleash" -> o.res = "ok" /\ o.has = (o.a \in Leashed)
      [] o.op = "has" -> o.res = "ok" /\ o.has = (o.b \in Known)
      [] o.op = "block" -> IF o.b \in Known
                           THEN o.res = "ok" /\ Plain(blocks[o.b]) = [par |-> o.blk.par, h |-> o.blk.h, score |-> o.blk.score, ts |-> o.blk.ts, gen |-> o.blk.gen]
                           ELSE o.res = "error"

Effect(o) ==
    CASE o.op = "put" -> PutBlock(o.b, o.p, o.bt, o.tsl, o.gen, o.a)
      [] o.op = "micro" -> PutMicro(o.b, o.r, o.a)
      [] o.op = "move" -> MoveLeash(o.b, o.a)
      [] OTHER -> UNCHANGED cvars

(* PutBlock keeps what it is given as timestamp; the trace has it twice, as text and as limbs. *)
EffectTs(o) == IF o.op = "put" /\ o.b \notin Known /\ o.p \in Known /\ InRange(o.bt, o.tsl)
               THEN Record(o.b, KeyBlock(o.p, o.bt, o.ts, o.gen), o.p) /\ Position(o.a, o.b)
               ELSE Effect(o)

(* A call may come next if no other open call had returned before it was made. *)
Open(i) == i \notin done /\ \A j \in Calls \ done : H.ops[j].ret > H.ops[i].inv

(* All calls of a history return: those of one that hung are not there, and it *)
(* is recorded as hung.                                                        *)
Returned(j) == Trace[j].res = "ok"

Next == \/ \E i \in Calls :
              /\ Open(i)
              /\ Explains(H.ops[i])
              /\ EffectTs(H.ops[i])
              /\ done' = done \cup {i} /\ k' = k
        \/ /\ done = Calls
           /\ Returned(k)
           /\ k < Len(Trace)
           /\ k' = k + 1 /\ done' = {}
           /\ blocks' = FreshBlocks(Trace[k + 1].new) /\ heads' = <<Genesis>> /\ leash' = <<>>

Spec == Init /\ [][Next]_lvars

(* Furthest point reached, for the verdict. *)
Progress == TLCSet(1, IF TLCGet(1) < k * 1000 + Cardinality(done) THEN k * 1000 + Cardinality(done) ELSE TLCGet(1))
InitProgress == TLCSet(1, 0)
ASSUME InitProgress

TraceAccepted == \/ /\ Returned(Len(Trace))
                    /\ TLCGet(1) = Len(Trace) * 1000 + Cardinality(DOMAIN Trace[Len(Trace)].ops)
                 \/ /\ ~Returned(TLCGet(1) \div 1000)
                    /\ PrintT(<<"MISMATCH", ToString(TLCGet(1) \div 1000), "calls return", "expected", "ok", "observed", Trace[TLCGet(1) \div 1000].res>>)
                    /\ PrintT(<<"REJECTED", ToString(TLCGet(1) \div 1000)>>) /\ FALSE
                 \/ PrintT(<<"REJECTED", ToString(TLCGet(1) \div 1000)>>) /\ FALSE
===============================================================================
