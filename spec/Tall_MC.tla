------------------------------- MODULE Tall_MC --------------------------------
(* Bounded check that Tall refines Chains: same tree, same views.              *)
EXTENDS Tall

CONSTANTS MaxH, MaxBr, NPeers, MaxTotal

Total == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE br[k].tip - br[k].base + S(k - 1) IN S(Len(br))
Room(n) == Total + n <= MaxTotal
Blocks == UNION {{<<k, h>> : h \in (br[k].base + 1)..br[k].tip} : k \in DOMAIN br}

MCNext == \/ \E k \in DOMAIN br : br[k].tip < MaxH /\ Room(1) /\ pos = <<>> /\ Extend(k, 1)
          \/ /\ Len(br) < MaxBr /\ pos = <<>> /\ Room(1)
             /\ \/ \E x \in Blocks, w \in {2, 3} : x[2] < MaxH /\ Fork(x[1], x[2], 1, w, Len(br))
                \/ \E x \in Blocks : x[2] > 1 /\ MicroFork(x, 1)
          \/ \E ps \in [1..NPeers -> Blocks] : Place(ps)

MCSpec == TallInit /\ [][MCNext]_tallvars

(* The refinement mapping. *)
Gen1 == <<1, 1>>
NoPar == <<0, 0>>
ParentOf(x) == IF x[2] = 1 THEN NoPar
               ELSE IF x[2] - 1 > br[x[1]].base THEN <<x[1], x[2] - 1>> ELSE BlockAt(br[x[1]].par, br[x[1]].base)
MapBlocks == [x \in Blocks |-> [par |-> ParentOf(x), h |-> x[2], score |-> ScoreT(x), ts |-> 0, gen |-> GenT(x), kind |-> "key"]]
Plus(a, b) == a + b
Less(a, b) == a < b
Id(a) == a
Always(a, b) == TRUE
C == INSTANCE Chains WITH blocks <- MapBlocks, heads <- <<>>, leash <- pos, Genesis <- Gen1, NoBlock <- NoPar,
                          ScoreAdd <- Plus, ScoreLess <- Less, BlockScore <- Id, Acceptable <- Always, LongFork <- LongForkT

Runs2Seq(rs) == LET RECURSIVE Go(_, _)
                    Go(i, h) == IF i > Len(rs) THEN <<>>
                                ELSE IF h < rs[i][3] THEN Go(i + 1, IF i < Len(rs) THEN rs[i + 1][2] ELSE 0)
                                ELSE <<<<rs[i][1], h>>>> \o Go(i, h - 1)
                IN IF rs = <<>> THEN <<>> ELSE Go(1, rs[1][2])
PeersOf(e) == e

(* Every step that adds a block is a step of Chains. *)
Steps == [][\/ pos' # pos
            \/ \E x \in DOMAIN MapBlocks' : LET r == MapBlocks'[x] IN
                  /\ DOMAIN MapBlocks' = DOMAIN MapBlocks \cup {x} /\ x \notin DOMAIN MapBlocks
                  /\ \A y \in DOMAIN MapBlocks : MapBlocks'[y] = MapBlocks[y]
                  /\ r.par \in DOMAIN MapBlocks
                  /\ \/ \E w \in {2, 3} : r.h = MapBlocks[r.par].h + 1 /\ r.score = MapBlocks[r.par].score + w
                     \/ \E y \in DOMAIN MapBlocks : [MapBlocks[y] EXCEPT !.kind = "key"] = r
            ]_tallvars

Agree ==
    /\ \A x, y \in Blocks : LcaT(x, y) = C!LCA(x, y)
    /\ \A x \in Blocks, n \in 0..(MaxH + 1) :
         /\ Runs2Seq(RunsT(x, n)) = C!LastIDs(x, n)
         /\ GensT(x, n) = LET c == C!GeneratorCounts(x, n) IN {<<g, c[g]>> : g \in DOMAIN c}
    /\ pos # <<>> =>
         /\ LongestT = C!LongestForks(DOMAIN pos)
         /\ \A i \in DOMAIN pos : LcbT(i) = C!LCBs(i)
         /\ StatsT = {<<s.long, s.short>> : s \in C!StatsViews}
         /\ \A i \in DOMAIN pos : ForkT(i) = {[head |-> e.head, score |-> e.score, gen |-> e.gen, peers |-> e.peers,
                                               longest |-> e.longest, lcb |-> e.lcb, len |-> e.len] : e \in C!ForkViews(i)}
===============================================================================
