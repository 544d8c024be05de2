------------------------------- MODULE Scores -------------------------------
(* Non-negative integers of any size, as little-endian sequences of base-10^4  *)
(* limbs without trailing zeros (zero is <<>>): TLC's own integers have 32     *)
(* bits, the scores of blocks and of chains exceed 64.                         *)
EXTENDS Integers, Sequences

LOCAL B == 10000

BigZero == <<>>

LOCAL Limb(x, i) == IF i <= Len(x) THEN x[i] ELSE 0

RECURSIVE BigTrim(_)
BigTrim(x) == IF x = <<>> THEN x
              ELSE IF x[Len(x)] = 0 THEN BigTrim(SubSeq(x, 1, Len(x) - 1)) ELSE x

RECURSIVE BigAddFrom(_, _, _, _)
BigAddFrom(x, y, i, c) ==
    IF i > Len(x) /\ i > Len(y)
    THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET s == Limb(x, i) + Limb(y, i) + c
         IN <<s % B>> \o BigAddFrom(x, y, i + 1, s \div B)
BigAdd(x, y) == BigAddFrom(x, y, 1, 0)

\* x - y for x >= y
RECURSIVE BigSubFrom(_, _, _, _)
BigSubFrom(x, y, i, c) ==
    IF i > Len(x) THEN <<>>
    ELSE LET d == x[i] - Limb(y, i) - c
         IN IF d >= 0 THEN <<d>> \o BigSubFrom(x, y, i + 1, 0)
                      ELSE <<d + B>> \o BigSubFrom(x, y, i + 1, 1)
BigSub(x, y) == BigTrim(BigSubFrom(x, y, 1, 0))

RECURSIVE BigCmpFrom(_, _, _)
BigCmpFrom(x, y, i) == IF i = 0 THEN 0
                       ELSE IF x[i] < y[i] THEN -1
                       ELSE IF x[i] > y[i] THEN 1
                       ELSE BigCmpFrom(x, y, i - 1)
BigCmp(x, y) == IF Len(x) < Len(y) THEN -1
                ELSE IF Len(x) > Len(y) THEN 1
                ELSE BigCmpFrom(x, y, Len(x))

BigLess(x, y) == BigCmp(x, y) < 0

\* x times a single limb k, 0 <= k < B
RECURSIVE BigMulFrom(_, _, _, _)
BigMulFrom(x, k, i, c) ==
    IF i > Len(x) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET p == x[i] * k + c
         IN <<p % B>> \o BigMulFrom(x, k, i + 1, p \div B)
BigMul1(x, k) == BigTrim(BigMulFrom(x, k, 1, 0))

\* greatest k in lo..hi with k * y <= r  (known to hold for lo)
RECURSIVE BigQuotDigit(_, _, _, _)
BigQuotDigit(r, y, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN IF BigCmp(BigMul1(y, m), r) <= 0 THEN BigQuotDigit(r, y, m, hi)
                                             ELSE BigQuotDigit(r, y, lo, m - 1)

\* school division, from the most significant limb: returns floor(x / y), y > 0
RECURSIVE BigDivFrom(_, _, _, _, _)
BigDivFrom(x, y, i, r, q) ==
    IF i = 0 THEN BigTrim(q)
    ELSE LET r1 == BigTrim(<<x[i]>> \o r)
             d  == BigQuotDigit(r1, y, 0, B - 1)
         IN BigDivFrom(x, y, i - 1, BigSub(r1, BigMul1(y, d)), <<d>> \o q)
BigDiv(x, y) == BigDivFrom(x, y, Len(x), <<>>, <<>>)

\* 2^64 = 18446744073709551616
Two64 == <<1616, 955, 737, 6744, 1844>>

\* The contribution of one block to the score of its chain.
BlockScore64(bt) == IF bt = BigZero THEN BigZero ELSE BigDiv(Two64, bt)

(* What the store can keep and report of a block: base targets are signed      *)
(* 64-bit numbers, timestamps (in ms) are dates before the year 9999.          *)
MaxInt64 == <<5807, 5477, 368, 3372, 922>>
MaxTimestamp == <<0, 6480, 3707, 253>>
Storable(bt, tsl) == ~BigLess(MaxInt64, bt) /\ ~BigLess(MaxTimestamp, tsl)
=============================================================================
