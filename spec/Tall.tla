--------------------------------- MODULE Tall ---------------------------------
(* The block tree of Chains in terms of branches, so that trees thousands of   *)
(* blocks high can be judged: a branch is a run of blocks one on top of the    *)
(* other, starting on a block of an earlier branch. Tall_MC checks with TLC    *)
(* that this is a refinement of Chains and that all views agree.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT LongForkT, GensN   \* threshold of a long fork, number of generators

VARIABLES br,       \* branches: [par, base, tip, w, g]; blocks have heights base+1..tip
          pos       \* positions of the peers: sequence of <<branch, height>>

tallvars == <<br, pos>>

Root(w, g) == [par |-> 0, base |-> 0, tip |-> 1, w |-> w, g |-> g]
TallInit == br = <<Root(2, 0)>> /\ pos = <<>>

IsBlock(x) == x[1] \in DOMAIN br /\ br[x[1]].base < x[2] /\ x[2] <= br[x[1]].tip

(* n more blocks on the tip of branch k *)
Extend(k, n) == br' = [br EXCEPT ![k].tip = @ + n] /\ UNCHANGED pos

(* a new branch of n blocks with weight w on block <<p, base>> *)
Fork(p, base, n, w, g) == br' = Append(br, [par |-> p, base |-> base, tip |-> base + n, w |-> w, g |-> g])
                          /\ UNCHANGED pos

(* a new branch whose first block is a micro-block version of block x *)
MicroFork(x, n) == br' = Append(br, [par  |-> IF br[x[1]].base = x[2] - 1 THEN br[x[1]].par ELSE x[1],
                                     base |-> x[2] - 1, tip |-> x[2] - 1 + n, w |-> br[x[1]].w, g |-> br[x[1]].g])
                   /\ UNCHANGED pos

Place(ps) == pos' = ps /\ UNCHANGED br

-------------------------------------------------------------------------------
Min(a, b) == IF a < b THEN a ELSE b

RECURSIVE BlockAt(_, _)     \* the block at height h under branch k
BlockAt(k, h) == IF h > br[k].base THEN <<k, h>> ELSE BlockAt(br[k].par, h)

RECURSIVE LcaT(_, _)
LcaT(x, y) == IF x[1] = y[1] THEN <<x[1], Min(x[2], y[2])>>
              ELSE IF x[1] > y[1] THEN LcaT(BlockAt(br[x[1]].par, br[x[1]].base), y)
              ELSE LcaT(x, BlockAt(br[y[1]].par, br[y[1]].base))

RECURSIVE ScoreT(_)
ScoreT(x) == LET b == br[x[1]]
             IN (x[2] - b.base) * b.w + IF b.base = 0 THEN 0 ELSE ScoreT(BlockAt(b.par, b.base))

GenT(x) == (x[2] + br[x[1]].g) % GensN

(* The n blocks ending in x, as runs <<branch, highest, lowest>>. *)
RECURSIVE RunsT(_, _)
RunsT(x, n) == LET b == br[x[1]]
               IN IF n <= 0 THEN <<>>
                  ELSE IF n <= x[2] - b.base THEN << <<x[1], x[2], x[2] - n + 1>> >>
                  ELSE IF b.base = 0 THEN << <<x[1], x[2], 1>> >>
                  ELSE << <<x[1], x[2], b.base + 1>> >> \o RunsT(BlockAt(b.par, b.base), n - (x[2] - b.base))

(* number of heights in lo..hi whose generator under offset o is g *)
Upto(m, g, o) == IF m <= 0 THEN 0 ELSE LET r == (g - o + 2 * GensN) % GensN
                 IN (m - (IF r = 0 THEN GensN ELSE r) + GensN) \div GensN
CountIn(run, g) == Upto(run[2], g, br[run[1]].g) - Upto(run[3] - 1, g, br[run[1]].g)
RECURSIVE SumRuns(_, _, _)
SumRuns(rs, i, g) == IF i = 0 THEN 0 ELSE CountIn(rs[i], g) + SumRuns(rs, i - 1, g)
GensT(x, n) == LET rs == RunsT(x, n)
                   c  == [g \in 0..(GensN - 1) |-> SumRuns(rs, Len(rs), g)]
               IN {<<g, c[g]>> : g \in {g \in DOMAIN c : c[g] > 0}}

-------------------------------------------------------------------------------
(* Views over the peers' positions *)
HeadsT == {pos[i] : i \in DOMAIN pos}
OnT(x) == {i \in DOMAIN pos : pos[i] = x}
OutranksT(x, y) == LET sx == ScoreT(x) sy == ScoreT(y)
                   IN sx > sy \/ (sx = sy /\ Cardinality(OnT(x)) > Cardinality(OnT(y)))
LongestT == {x \in HeadsT : \A y \in HeadsT : ~OutranksT(y, x)}
LenT(x, g) == x[2] - LcaT(x, g)[2]
LcbT(i) == {LcaT(pos[i], g) : g \in LongestT}
EntryT(x, g) == [head |-> x, score |-> ScoreT(x), gen |-> GenT(x), peers |-> OnT(x), longest |-> (x = g),
                 lcb |-> LcaT(x, g), len |-> LenT(x, g)]
ReportT(rep) == /\ Len(rep) = Cardinality(HeadsT)
                /\ {rep[i].head : i \in DOMAIN rep} = HeadsT
                /\ \A i \in DOMAIN rep : rep[i] = EntryT(rep[i].head, rep[1].head)
                /\ \A i \in DOMAIN rep : i > 1 => ~OutranksT(rep[i].head, rep[i - 1].head)
ForkT(i) == {EntryT(pos[i], g) : g \in LongestT}
StatsT == {<<Cardinality({x \in HeadsT : LenT(x, g) > LongForkT}),
             Cardinality({x \in HeadsT : LenT(x, g) <= LongForkT})>> : g \in LongestT}
===============================================================================
