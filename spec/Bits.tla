-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* 32-bit words.  A word is a TLA+ integer in -2^31 .. 2^31-1 (two's       *)
(* complement), which is what TLC's integers can hold.  The operators      *)
(* marked [ovr] have an equivalent Java evaluation in java/Bits.java; the  *)
(* definitions below are the meaning, and spec/MCNum.tla checks that both  *)
(* evaluations agree.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

MinInt == -2147483647 - 1
MaxInt == 2147483647

\* unsigned half words of w
HiHalf(w) == IF w >= 0 THEN w \div 65536 ELSE 32768 + ((w + MaxInt + 1) \div 65536)
LoHalf(w) == IF w >= 0 THEN w % 65536 ELSE (w + MaxInt + 1) % 65536
\* the word with unsigned halves h, l
Word(h, l) == IF h < 32768 THEN h * 65536 + l
              ELSE ((h - 32768) * 65536 + l) + MinInt

RECURSIVE BitsOp(_, _, _, _)
\* fold a boolean function, given as its truth table <<f00,f01,f10,f11>>, over n bits
BitsOp(t, a, b, n) ==
  IF n = 0 THEN 0
  ELSE t[1 + 2 * (a % 2) + (b % 2)] + 2 * BitsOp(t, a \div 2, b \div 2, n - 1)

WOp(t, a, b) == Word(BitsOp(t, HiHalf(a), HiHalf(b), 16), BitsOp(t, LoHalf(a), LoHalf(b), 16))

WAnd(a, b)  == WOp(<<0, 0, 0, 1>>, a, b)   \* [ovr]
WOr(a, b)   == WOp(<<0, 1, 1, 1>>, a, b)   \* [ovr]
WXor(a, b)  == WOp(<<0, 1, 1, 0>>, a, b)   \* [ovr]
WNot(a)     == -1 - a
AllOnes     == -1
SignBit     == MinInt

\* unsigned less-than on words
WULt(a, b) == IF (a >= 0) = (b >= 0) THEN a < b ELSE a >= 0

-----------------------------------------------------------------------------
(* binary32 fields *)
MagBits(b)  == IF b >= 0 THEN b ELSE b + MaxInt + 1       \* clear the sign
IsNeg(b)    == b < 0
ExpBits(b)  == MagBits(b) \div 8388608
ManBits(b)  == MagBits(b) % 8388608
PInf        == 2139095040      \* 0x7F800000
NInf        == PInf + MinInt
QNaN        == 2143289344      \* 0x7FC00000
FltMaxBits  == 2139095039
IsNaN(b)    == MagBits(b) > PInf
IsInf(b)    == MagBits(b) = PInf
IsFin(b)    == MagBits(b) < PInf
IsZero(b)   == MagBits(b) = 0
FNegBits(b) == IF b >= 0 THEN b + MinInt ELSE b + MaxInt + 1
FAbsBits(b) == MagBits(b)
OneB        == 1065353216      \* 1.0
Mask(c)     == IF c THEN AllOnes ELSE 0

\* a total preorder key for non-NaN floats: FKey(a) < FKey(b) iff a < b as reals
FKey(b)     == IF b >= 0 THEN b ELSE -(b + MaxInt + 1)
FLt(a, b)   == ~IsNaN(a) /\ ~IsNaN(b) /\ FKey(a) < FKey(b)
FLe(a, b)   == ~IsNaN(a) /\ ~IsNaN(b) /\ FKey(a) <= FKey(b)
FEq(a, b)   == ~IsNaN(a) /\ ~IsNaN(b) /\ FKey(a) = FKey(b)
=============================================================================
