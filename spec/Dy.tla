--------------------------------- MODULE Dy ---------------------------------
(***************************************************************************)
(* Exact dyadic numbers s * (sum of limb_i * LB^(i-1)) * LB^e with LB = 2^15, *)
(* held as <<s, e, limbs>>, s in {-1,0,1}, first and last limb non-zero.   *)
(* Addition, subtraction, multiplication, comparison, floor and rounding   *)
(* to binary32 are exact; division and square root are truncated to at     *)
(* least ten limbs (150 bits), far below binary32's 24.                    *)
(*                                                                         *)
(* The definitions are ordinary TLA+.  java/Dy.java evaluates the same     *)
(* operators with BigInteger so that traces of tens of thousands of calls  *)
(* can be validated; MCNum.tla compares the two evaluations.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bits

LB == 32768

-----------------------------------------------------------------------------
(* natural numbers as little-endian limb sequences, no leading zero limb *)
RECURSIVE NTrimHi(_)
NTrimHi(a) == IF a = <<>> THEN a
              ELSE IF a[Len(a)] # 0 THEN a
              ELSE NTrimHi(SubSeq(a, 1, Len(a) - 1))

NLimb(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0

RECURSIVE NAddR(_, _, _, _, _)
NAddR(a, b, i, n, c) ==
  IF i > n THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET t == NLimb(a, i) + NLimb(b, i) + c
       IN  <<t % LB>> \o NAddR(a, b, i + 1, n, t \div LB)
NAdd(a, b) == NAddR(a, b, 1, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b), 0)

RECURSIVE NSubR(_, _, _, _, _)
NSubR(a, b, i, n, c) ==
  IF i > n THEN <<>>
  ELSE LET t == NLimb(a, i) - NLimb(b, i) - c
       IN  IF t < 0 THEN <<t + LB>> \o NSubR(a, b, i + 1, n, 1)
                    ELSE <<t>> \o NSubR(a, b, i + 1, n, 0)
NSub(a, b) == NTrimHi(NSubR(a, b, 1, Len(a), 0))      \* requires a >= b

RECURSIVE NCmpR(_, _, _)
NCmpR(a, b, i) == IF i = 0 THEN 0
                  ELSE IF a[i] < b[i] THEN -1
                  ELSE IF a[i] > b[i] THEN 1
                  ELSE NCmpR(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1
              ELSE NCmpR(a, b, Len(a))

RECURSIVE NMulLimb(_, _, _, _)
NMulLimb(a, d, i, c) ==
  IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET t == a[i] * d + c
       IN  <<t % LB>> \o NMulLimb(a, d, i + 1, t \div LB)

NZeros(n) == [i \in 1..n |-> 0]
RECURSIVE NMulR(_, _, _)
NMulR(a, b, j) ==
  IF j > Len(b) THEN <<>>
  ELSE NAdd(IF b[j] = 0 THEN <<>> ELSE NZeros(j - 1) \o NMulLimb(a, b[j], 1, 0),
            NMulR(a, b, j + 1))
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE NTrimHi(NMulR(a, b, 1))

\* shift by k limbs: k >= 0 multiplies by LB^k, k < 0 is floor division
NShift(a, k) == IF a = <<>> THEN <<>>
                ELSE IF k >= 0 THEN NZeros(k) \o a
                ELSE IF -k >= Len(a) THEN <<>>
                ELSE SubSeq(a, 1 - k, Len(a))

\* largest q in lo..hi with q*d <= r
RECURSIVE NQ(_, _, _, _)
NQ(r, d, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN  IF NCmp(NTrimHi(NMulLimb(d, m, 1, 0)), r) <= 0 THEN NQ(r, d, m, hi) ELSE NQ(r, d, lo, m - 1)
RECURSIVE NDivR(_, _, _, _)
\* long division, most significant limb first; r is the running remainder
NDivR(a, d, i, r) ==
  IF i = 0 THEN <<>>
  ELSE LET r1 == NTrimHi(<<a[i]>> \o r)
           q  == NQ(r1, d, 0, LB - 1)
           r2 == NSub(r1, NTrimHi(NMulLimb(d, q, 1, 0)))
       IN  NDivR(a, d, i - 1, r2) \o <<q>>
NDiv(a, d) == NTrimHi(NDivR(a, d, Len(a), <<>>))

\* integer square root, limb by limb from the top
RECURSIVE NSqrtQ(_, _, _, _, _)
NSqrtQ(a, s, k, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
           t == NAdd(s, NTrimHi(NShift(<<m>>, k)))
       IN  IF NCmp(NMul(t, t), a) <= 0 THEN NSqrtQ(a, s, k, m, hi) ELSE NSqrtQ(a, s, k, lo, m - 1)
RECURSIVE NSqrtR(_, _, _)
NSqrtR(a, s, k) ==
  IF k < 0 THEN s
  ELSE LET q == NSqrtQ(a, s, k, 0, LB - 1)
       IN  NSqrtR(a, IF q = 0 THEN s ELSE NAdd(s, NShift(<<q>>, k)), k - 1)
NSqrt(a) == NSqrtR(a, <<>>, Len(a) \div 2)

-----------------------------------------------------------------------------
(* dyadic numbers *)
DZero == <<0, 0, <<>>>>
RECURSIVE LowZeros(_, _)
LowZeros(a, i) == IF a[i] = 0 THEN LowZeros(a, i + 1) ELSE i - 1
DMk(s, e, a) == IF a = <<>> \/ s = 0 THEN DZero
                ELSE LET z == LowZeros(a, 1)
                     IN  <<s, e + z, SubSeq(a, z + 1, Len(a))>>

RECURSIVE NOfNat(_)
NOfNat(n) == IF n = 0 THEN <<>> ELSE <<n % LB>> \o NOfNat(n \div LB)
DInt(n) == IF n = MinInt THEN <<-1, 2, <<2>>>>                          \* [ovr]
           ELSE IF n < 0 THEN DMk(-1, 0, NOfNat(-n)) ELSE DMk(1, 0, NOfNat(n))
\* an unsigned 32-bit word
DUInt(w) == DMk(1, 0, NTrimHi(NAdd(NMul(NOfNat(HiHalf(w)), <<0, 2>>), NOfNat(LoHalf(w)))))  \* [ovr]
\* 2^k, any integer k
DPow2(k) == DMk(1, (k - (k % 15)) \div 15, <<2 ^ (k % 15)>>)            \* [ovr]
DSign(a) == a[1]                                                        \* [ovr]
DNeg(a)  == <<-a[1], a[2], a[3]>>                                       \* [ovr]
DAbs(a)  == IF a[1] < 0 THEN DNeg(a) ELSE a                             \* [ovr]
\* limb position of the most significant limb
DTop(a)  == a[2] + Len(a[3]) - 1
DMul(a, b) == DMk(a[1] * b[1], a[2] + b[2], NMul(a[3], b[3]))           \* [ovr]
Aligned(a, e) == NShift(a[3], a[2] - e)
DAdd(a, b) ==                                                           \* [ovr]
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE LET e == IF a[2] < b[2] THEN a[2] ELSE b[2]
           x == Aligned(a, e)
           y == Aligned(b, e)
       IN  IF a[1] = b[1] THEN DMk(a[1], e, NAdd(x, y))
           ELSE LET c == NCmp(x, y)
                IN  IF c = 0 THEN DZero
                    ELSE IF c > 0 THEN DMk(a[1], e, NSub(x, y))
                    ELSE DMk(b[1], e, NSub(y, x))
DSub(a, b) == DAdd(a, DNeg(b))                                          \* [ovr]
DCmp(a, b) == DSign(DSub(a, b))                                         \* [ovr]
DLt(a, b)  == DCmp(a, b) < 0                                            \* [ovr]
DLe(a, b)  == DCmp(a, b) <= 0                                           \* [ovr]
DEq(a, b)  == DCmp(a, b) = 0                                            \* [ovr]
DMax(a, b) == IF DLt(a, b) THEN b ELSE a                                \* [ovr]
DMin(a, b) == IF DLt(b, a) THEN b ELSE a                                \* [ovr]

\* keep the n most significant limbs, truncating toward zero
DChop(a, n) ==                                                          \* [ovr]
  IF a[1] = 0 \/ Len(a[3]) <= n THEN a
  ELSE LET k == Len(a[3]) - n IN DMk(a[1], a[2] + k, SubSeq(a[3], k + 1, Len(a[3])))
\* magnitude rounded up to three limbs: used for error bounds only
DUp(a) ==                                                               \* [ovr]
  IF a[1] = 0 \/ Len(a[3]) <= 3 THEN a
  ELSE LET k == Len(a[3]) - 3
       IN DMk(a[1], a[2] + k, NAdd(SubSeq(a[3], k + 1, Len(a[3])), <<1>>))
\* quotient truncated toward zero, at least ten limbs
DDiv(a, b) ==                                                           \* [ovr]
  IF a[1] = 0 THEN DZero
  ELSE LET p == DTop(a) - DTop(b) - 10         \* limb position of the last quotient limb
           s == a[2] - b[2] - p                \* a/(b*LB^p) = A*LB^s / Bm
       IN  IF s >= 0 THEN DMk(a[1] * b[1], p, NDiv(NShift(a[3], s), b[3]))
           ELSE DMk(a[1] * b[1], p, NDiv(a[3], NShift(b[3], -s)))
\* square root of a non-negative number, truncated, at least ten limbs
DSqrt(a) ==                                                             \* [ovr]
  IF a[1] = 0 THEN DZero
  ELSE LET p == (DTop(a) \div 2) - 10
       IN  DMk(1, p, NSqrt(NShift(a[3], a[2] - 2 * p)))
\* greatest integer <= a
DFloor(a) ==                                                            \* [ovr]
  IF a[1] = 0 \/ a[2] >= 0 THEN a
  ELSE LET t == DMk(a[1], 0, NShift(a[3], a[2]))
       IN  IF a[1] > 0 THEN t ELSE DSub(t, DInt(1))
\* the integer as a TLA+ int (must fit)
RECURSIVE NToNat(_)
NToNat(a) == IF a = <<>> THEN 0 ELSE a[1] + LB * NToNat(Tail(a))
DToInt(a) == IF a[1] = 0 THEN 0                                         \* [ovr]
             ELSE IF a = <<-1, 2, <<2>>>> THEN MinInt
             ELSE a[1] * NToNat(NShift(a[3], a[2]))

-----------------------------------------------------------------------------
(* binary32 <-> dyadic *)
\* value of a finite float
DBits(b) ==                                                             \* [ovr]
  LET x == ExpBits(b)
      m == IF x = 0 THEN ManBits(b) ELSE ManBits(b) + 8388608
      v == DMul(DInt(m), DPow2((IF x = 0 THEN 1 ELSE x) - 150))
  IN  IF b < 0 THEN DNeg(v) ELSE v

\* floor(log2(n)) of a positive int
RECURSIVE ILog2(_)
ILog2(n) == IF n < 2 THEN 0 ELSE 1 + ILog2(n \div 2)
\* floor(log2(|a|)), a # 0
DLog2Floor(a) == 15 * DTop(a) + ILog2(a[3][Len(a[3])])                  \* [ovr]

\* nearest integer, ties to even, of a >= 0
DRne(a) ==                                                              \* [ovr]
  LET f == DFloor(a)
      r == DSub(a, f)
      h == DPow2(-1)
      odd == LET q == DMul(f, DPow2(-1)) IN ~DEq(DFloor(q), q)
  IN  IF DLt(r, h) THEN f
      ELSE IF DLt(h, r) THEN DAdd(f, DInt(1))
      ELSE IF odd THEN DAdd(f, DInt(1)) ELSE f

\* round to nearest-even binary32; zero gives +0; overflow gives infinity
DF32(a) ==                                                              \* [ovr]
  IF a[1] = 0 THEN 0
  ELSE LET x == DLog2Floor(a)
           q == IF x < -126 THEN -149 ELSE x - 23      \* exponent of the last place
           n == DToInt(DRne(DMul(DAbs(a), DPow2(-q)))) \* at most 2^24
           \* biased exponent field arithmetic: n*2^q as bits; the carry out of the
           \* mantissa lands in the exponent, which is what rounding up should do
           m == IF x > 127 THEN PInf
                ELSE IF x < -126 THEN n
                ELSE (x + 126) * 8388608 + n
           c == IF m >= PInf THEN PInf ELSE m
       IN  IF a[1] < 0 THEN FNegBits(c) ELSE c
=============================================================================
