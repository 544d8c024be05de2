-------------------------------- MODULE Chains --------------------------------
(* The chain store of the fork detector as a sequential object: the tree of    *)
(* blocks, the numbered heads of its branches, and the position ("leash") of   *)
(* every peer, together with every view computed from them.                    *)
(*                                                                             *)
(* Arithmetic on scores is a parameter: model checking uses small naturals,    *)
(* trace validation big numbers (Scores.tla).                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    Genesis,            \* id of the genesis block
    NoBlock,            \* "parent" of the genesis block
    ScoreAdd(_, _),
    ScoreLess(_, _),
    BlockScore(_),      \* base target -> score of one block
    Acceptable(_, _),   \* base target, timestamp: within the range the store can keep
    LongFork            \* forks with more blocks than this are long (5 in the code)

VARIABLES
    blocks,     \* id -> [par, h, score, ts, gen, kind]
    heads,      \* heads[n] = block the n-th head stands on
    leash       \* peer -> block id, for the peers that have a position

cvars == <<blocks, heads, leash>>

-------------------------------------------------------------------------------
(* State *)

Known == DOMAIN blocks
Leashed == DOMAIN leash
HeadBlocks == {heads[n] : n \in DOMAIN heads}

ChainsInit(bt, ts, gen) ==
    /\ blocks = (Genesis :> [par |-> NoBlock, h |-> 1, score |-> BlockScore(bt),
                             ts |-> ts, gen |-> gen, kind |-> "genesis"])
    /\ heads = <<Genesis>>
    /\ leash = <<>>

(* The record of a key block put on parent p. *)
KeyBlockIn(bs, p, bt, ts, gen) ==
    [par |-> p, h |-> bs[p].h + 1, score |-> ScoreAdd(bs[p].score, BlockScore(bt)),
     ts |-> ts, gen |-> gen, kind |-> "key"]
KeyBlock(p, bt, ts, gen) == KeyBlockIn(blocks, p, bt, ts, gen)

(* The record of the version of block r that a micro-block produces. *)
MicroBlock(r) == [blocks[r] EXCEPT !.kind = "micro"]

(* Heads after block b was recorded on top of (or instead of) block `on`. *)
HeadsIn(hs, b, on) ==
    IF \E n \in DOMAIN hs : hs[n] = on
    THEN [n \in DOMAIN hs |-> IF hs[n] = on THEN b ELSE hs[n]]
    ELSE Append(hs, b)
HeadsWith(b, on) == HeadsIn(heads, b, on)

Record(b, rec, on) == /\ blocks' = blocks @@ (b :> rec)
                      /\ heads' = HeadsWith(b, on)

Position(a, b) == leash' = (a :> b) @@ leash

-------------------------------------------------------------------------------
(* Operations *)

(* A block is refused when its parent is unknown, or when its base target or   *)
(* timestamp is out of range; a refused block leaves no trace.                 *)
PutBlockResult(b, p, bt, ts) == IF b \in Known THEN "ok"
                                ELSE IF p \notin Known THEN "noparent"
                                ELSE IF Acceptable(bt, ts) THEN "ok" ELSE "error"

PutBlock(b, p, bt, ts, gen, a) ==
    IF b \in Known THEN Position(a, b) /\ UNCHANGED <<blocks, heads>>
    ELSE IF p \in Known /\ Acceptable(bt, ts) THEN Record(b, KeyBlock(p, bt, ts, gen), p) /\ Position(a, b)
    ELSE UNCHANGED cvars

PutMicroResult(t, r) == IF t \in Known THEN "ok"
                        ELSE IF r \notin Known THEN "noref"
                        ELSE IF r = Genesis THEN "error" ELSE "ok"

PutMicro(t, r, a) ==
    IF t \in Known THEN Position(a, t) /\ UNCHANGED <<blocks, heads>>
    ELSE IF r \in Known \ {Genesis} THEN Record(t, MicroBlock(r), r) /\ Position(a, t)
    ELSE UNCHANGED cvars

MoveLeash(b, a) == Position(a, b) /\ UNCHANGED <<blocks, heads>>

(* What a crash between the two writes of a delivery leaves behind. *)
RecordOnlyBlock(b, p, bt, ts, gen) ==
    b \notin Known /\ p \in Known /\ Acceptable(bt, ts) /\ Record(b, KeyBlock(p, bt, ts, gen), p) /\ UNCHANGED leash
RecordOnlyMicro(t, r) ==
    t \notin Known /\ r \in Known \ {Genesis} /\ Record(t, MicroBlock(r), r) /\ UNCHANGED leash

-------------------------------------------------------------------------------
(* Views *)

(* <<b, parent of b, ..., genesis>>, at most n of them *)
RECURSIVE AncestorsFrom(_, _)
AncestorsFrom(b, n) ==
    IF n <= 0 THEN <<>>
    ELSE IF b = Genesis THEN <<b>>
    ELSE <<b>> \o AncestorsFrom(blocks[b].par, n - 1)

LastIDs(b, n) == AncestorsFrom(b, n)
Chain(b) == AncestorsFrom(b, blocks[b].h)

(* The highest common block of the chains ending in b and c. *)
RECURSIVE LCA(_, _)
LCA(b, c) == IF b = c THEN b
             ELSE IF blocks[b].h > blocks[c].h THEN LCA(blocks[b].par, c)
             ELSE IF blocks[b].h < blocks[c].h THEN LCA(b, blocks[c].par)
             ELSE LCA(blocks[b].par, blocks[c].par)

LeashOf(a) == IF a \in Leashed THEN leash[a] ELSE Genesis
LeashScore(a) == blocks[LeashOf(a)].score

(* Peers among S positioned on block b; blocks with such peers. *)
PeersOn(b, S) == {a \in Leashed \cap S : leash[a] = b}
ForkHeads(S) == {leash[a] : a \in Leashed \cap S}

Outranks(b, c, S) == \/ ScoreLess(blocks[c].score, blocks[b].score)
                     \/ /\ ~ScoreLess(blocks[b].score, blocks[c].score)
                        /\ Cardinality(PeersOn(b, S)) > Cardinality(PeersOn(c, S))

(* Heads of the longest fork: one block, or several that tie. *)
LongestForks(S) == {b \in ForkHeads(S) : \A c \in ForkHeads(S) : ~Outranks(c, b, S)}

LCBs(a) == IF a \notin Leashed THEN {Genesis}
           ELSE {LCA(g, leash[a]) : g \in LongestForks(Leashed)}

ForkLength(b, g) == blocks[b].h - blocks[LCA(g, b)].h

(* The entry for head b in a report over peers S whose longest fork ends in g. *)
ForkEntry(b, g, S) ==
    [head |-> b, h |-> blocks[b].h, score |-> blocks[b].score, ts |-> blocks[b].ts, gen |-> blocks[b].gen,
     peers |-> PeersOn(b, S), longest |-> (b = g), lcb |-> LCA(g, b), len |-> ForkLength(b, g)]

(* The reports the store may give: sequences, as ties may be broken either way. *)
IsForksReport(rep, S) ==
    /\ Len(rep) = Cardinality(ForkHeads(S))
    /\ {rep[i].head : i \in DOMAIN rep} = ForkHeads(S)
    /\ \A i \in DOMAIN rep : rep[i] = ForkEntry(rep[i].head, rep[1].head, S)
    /\ \A i \in DOMAIN rep : i > 1 => ~Outranks(rep[i].head, rep[i - 1].head, S)

ForkViews(a) == {ForkEntry(leash[a], g, Leashed) : g \in LongestForks(Leashed)}

StatsViews == LET Of(g) == [long  |-> Cardinality({b \in ForkHeads(Leashed) : ForkLength(b, g) > LongFork}),
                            short |-> Cardinality({b \in ForkHeads(Leashed) : ForkLength(b, g) <= LongFork})]
              IN IF Leashed = {} THEN {[long |-> 0, short |-> 0]} ELSE {Of(g) : g \in LongestForks(Leashed)}

(* generator -> number of blocks among the n last ones ending in b *)
GeneratorCounts(b, n) ==
    LET ids == LastIDs(b, n)
        gs  == {blocks[ids[i]].gen : i \in DOMAIN ids}
    IN [g \in gs |-> Cardinality({i \in DOMAIN ids : blocks[ids[i]].gen = g})]

IsGeneratorsReport(rep, b, n) ==
    LET cnt == GeneratorCounts(b, n)
    IN /\ Len(rep) = Cardinality(DOMAIN cnt)
       /\ {rep[i][1] : i \in DOMAIN rep} = DOMAIN cnt
       /\ \A i \in DOMAIN rep : rep[i][2] = cnt[rep[i][1]]
       /\ \A i \in DOMAIN rep : i > 1 => rep[i - 1][2] >= rep[i][2]

ActiveHeads == {n \in DOMAIN heads : \E a \in Leashed : leash[a] = heads[n]}

-------------------------------------------------------------------------------
(* Properties of the design, checked by TLC on Chains_MC *)

(* C01, C02: a tree rooted in the genesis block, with consistent heights; a    *)
(* micro-block version is a sibling of what it extends.                        *)
TreeOK == /\ Genesis \in Known
          /\ \A b \in Known \ {Genesis} :
                /\ blocks[b].par \in Known
                /\ blocks[b].h = blocks[blocks[b].par].h + 1
                /\ ~ScoreLess(blocks[b].score, blocks[blocks[b].par].score)
          /\ \A b \in Known : Chain(b)[Len(Chain(b))] = Genesis /\ Len(Chain(b)) = blocks[b].h

(* C03: every leaf of the tree is a head, and numbers are never shared. *)
HeadsOK == /\ \A n, m \in DOMAIN heads : n # m => heads[n] # heads[m]
           /\ HeadBlocks \subseteq Known
           /\ \A n \in DOMAIN heads : \A b \in Known : blocks[b].par # heads[n]

LeashOK == \A a \in Leashed : leash[a] \in Known

(* C05: the pairwise walk computes the greatest common element of the chains. *)
RangeOf(s) == {s[i] : i \in DOMAIN s}
LCAOK == \A b, c \in Known :
            LET common == RangeOf(Chain(b)) \cap RangeOf(Chain(c))
            IN LCA(b, c) \in common /\ \A x \in common : blocks[x].h <= blocks[LCA(b, c)].h

(* The code's ancestor skip links and the search along them. *)
RECURSIVE Up(_, _)
Up(b, k) == IF k = 0 THEN b ELSE Up(blocks[b].par, k - 1)
RECURSIVE CeilLog2(_)
CeilLog2(n) == IF n <= 1 THEN 0 ELSE 1 + CeilLog2((n + 1) \div 2)
Links(b) == [i \in 1..CeilLog2(blocks[b].h) |-> Up(b, 2 ^ (i - 1))]

RECURSIVE Descend(_, _, _)
Descend(f, h, i) ==         \* bring f down to height h
    IF i < 0 THEN f
    ELSE IF i < Len(Links(f)) /\ blocks[f].h - 2 ^ i >= h THEN Descend(Links(f)[i + 1], h, i)
    ELSE Descend(f, h, i - 1)
RECURSIVE Parallel(_, _, _)
Parallel(f, o, i) ==        \* move both down while they differ
    IF i < 0 THEN blocks[f].par
    ELSE IF i < Len(Links(f)) /\ Links(f)[i + 1] # Links(o)[i + 1]
         THEN Parallel(Links(f)[i + 1], Links(o)[i + 1], i - 1)
    ELSE Parallel(f, o, i - 1)
SkipLCA(b, c) ==
    LET f == IF blocks[b].h < blocks[c].h THEN c ELSE b
        o == IF blocks[b].h < blocks[c].h THEN b ELSE c
        d == Descend(f, blocks[o].h, Len(Links(f)) - 1)
    IN IF d = o THEN o ELSE Parallel(d, o, Len(Links(d)) - 1)
SkipLCAOK == \A b, c \in Known : SkipLCA(b, c) = LCA(b, c)

(* Views are consistent with each other, whatever the ties. *)
ViewsOK == /\ \A a \in Leashed : \A e \in ForkViews(a) : a \in e.peers /\ e.len >= 0
           /\ \A s \in StatsViews : s.long + s.short = Cardinality(ForkHeads(Leashed))
           /\ \A a \in Leashed : \A g \in LongestForks(Leashed) :
                 (leash[a] = g) => LCA(g, leash[a]) = g

(* C01, C03 as action properties *)
BlocksNeverChange == [][\A b \in Known : b \in DOMAIN blocks' /\ blocks'[b] = blocks[b]]_cvars
HeadNumbersStable == [][/\ Len(heads') >= Len(heads)
                        /\ \A n \in DOMAIN heads : heads'[n] # heads[n] =>
                              \/ blocks'[heads'[n]].par = heads[n]
                              \/ blocks'[heads'[n]].par = blocks[heads[n]].par]_cvars
OthersKeepPositions == [][Cardinality({a \in DOMAIN leash' : a \notin Leashed \/ leash'[a] # leash[a]}) <= 1]_cvars
===============================================================================
