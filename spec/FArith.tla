------------------------------- MODULE FArith -------------------------------
(* IEEE 754 single-precision operations on bit patterns, round to nearest even. *)
(* The payload of a NaN is not specified.                                       *)
EXTENDS Integers, Sequences, Lib
SInf(neg) == IF neg THEN NInf ELSE PInf
SZero(neg) == IF neg THEN FNegBits(0) ELSE 0
\* give a zero the sign of the exact result
ZSig(neg, b) == IF IsZero(b) THEN SZero(neg) ELSE b
FAdd(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN QNaN
  ELSE IF IsInf(x) THEN (IF IsInf(y) /\ IsNeg(x) # IsNeg(y) THEN QNaN ELSE x)
  ELSE IF IsInf(y) THEN y
  ELSE ZSig(IsNeg(x) /\ IsNeg(y), DF32(DAdd(DBits(x), DBits(y))))
FSub(x, y) == FAdd(x, FNegBits(y))
FMul(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN QNaN
  ELSE IF IsInf(x) \/ IsInf(y) THEN (IF IsZero(x) \/ IsZero(y) THEN QNaN ELSE SInf(IsNeg(x) # IsNeg(y)))
  ELSE ZSig(IsNeg(x) # IsNeg(y), DF32(DMul(DBits(x), DBits(y))))
FDiv(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN QNaN
  ELSE IF IsInf(x) THEN (IF IsInf(y) THEN QNaN ELSE SInf(IsNeg(x) # IsNeg(y)))
  ELSE IF IsInf(y) THEN SZero(IsNeg(x) # IsNeg(y))
  ELSE IF IsZero(y) THEN (IF IsZero(x) THEN QNaN ELSE SInf(IsNeg(x) # IsNeg(y)))
  ELSE ZSig(IsNeg(x) # IsNeg(y), DF32(DDiv(DBits(x), DBits(y))))
FSqrt(x) ==
  IF IsNaN(x) THEN QNaN
  ELSE IF IsZero(x) THEN x
  ELSE IF IsNeg(x) THEN QNaN
  ELSE IF IsInf(x) THEN x
  ELSE DF32(DSqrt(DBits(x)))
\* x*y+z rounded once
FFma(x, y, z) ==
  IF IsFin(x) /\ IsFin(y) /\ IsFin(z)
  THEN LET d == DAdd(DMul(DBits(x), DBits(y)), DBits(z))
       IN  ZSig(IF DSign(d) = 0 THEN (IsNeg(x) # IsNeg(y)) /\ IsNeg(z) ELSE DSign(d) < 0, DF32(d))
  ELSE IF IsFin(x) /\ IsFin(y) THEN (IF IsNaN(z) THEN QNaN ELSE z)
  ELSE FAdd(FMul(x, y), z)
FTrunc(x) == IF ~IsFin(x) THEN x ELSE LET d == DBits(x) IN IF DSign(d) < 0 THEN DF32(DNeg(DFloor(DNeg(d)))) ELSE DF32(DFloor(d))
FFloor(x) == IF ~IsFin(x) THEN x ELSE DF32(DFloor(DBits(x)))
FCeil(x)  == IF ~IsFin(x) THEN x ELSE DF32(DNeg(DFloor(DNeg(DBits(x)))))
FRound(x) == IF ~IsFin(x) THEN x ELSE LET d == DBits(x) IN IF DSign(d) < 0 THEN DF32(DNeg(DRne(DNeg(d)))) ELSE DF32(DRne(d))
FMin(x, y) == IF FLt(x, y) THEN x ELSE y
FMax(x, y) == IF FLt(y, x) THEN x ELSE y
\* r is the value e, with the sign of a zero
Exact(r, e) == r = e \/ (IsNaN(e) /\ IsNaN(r))
\* r is the value e
Same(r, e) == IF IsNaN(e) THEN IsNaN(r) ELSE r = e \/ (IsZero(r) /\ IsZero(e))
SameV(r, e) == \A i \in 1..4 : Same(r[i], e[i])
=============================================================================
