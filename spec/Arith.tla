------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* Lane-wise arithmetic: IEEE operations, minimum/maximum/clamp, rounding  *)
(* to integers, remainder.                                                 *)
(***************************************************************************)
EXTENDS FArith

\* one lane of a lane-wise operation: r is acceptable for arguments x, y, z
LaneOk(o, r, x, y, z) ==
  CASE o = "XMVectorAdd"        -> Exact(r, FAdd(x, y))
    [] o = "XMVectorSubtract"   -> Exact(r, FSub(x, y))
    [] o = "XMVectorMultiply"   -> Exact(r, FMul(x, y))
    [] o = "XMVectorDivide"     -> Exact(r, FDiv(x, y))
    \* the sign of a zero follows IEEE for the operations above and below; negation may be 0 - x, the absolute
    \* value max(x, 0 - x), and rounding drops the sign of a zero in some builds
    [] o = "XMVectorNegate"     -> Same(r, IF IsNaN(x) THEN QNaN ELSE FNegBits(x))
    [] o = "XMVectorAbs"        -> Same(r, IF IsNaN(x) THEN QNaN ELSE FAbsBits(x))
    [] o = "XMVectorSqrt"       -> Exact(r, FSqrt(x))
    [] o = "XMVectorReciprocal" -> Exact(r, FDiv(OneB, x))
    \* either evaluation of 1/sqrt(x): rounded twice or once
    [] o = "XMVectorReciprocalSqrt" -> \/ Exact(r, FDiv(OneB, FSqrt(x)))
                                       \/ IsFin(x) /\ x > 0 /\ r = DF32(DDiv(DInt(1), DSqrt(DBits(x))))
    \* fused and separate rounding are both allowed
    [] o = "XMVectorMultiplyAdd" -> Exact(r, FAdd(FMul(x, y), z)) \/ Exact(r, FFma(x, y, z))
    [] o = "XMVectorNegativeMultiplySubtract" -> Exact(r, FSub(z, FMul(x, y))) \/ Exact(r, FFma(FNegBits(x), y, z))
    \* the second operand unless the first is strictly less (greater): also for NaNs and zeros of different sign
    [] o = "XMVectorMin"        -> Exact(r, FMin(x, y))
    [] o = "XMVectorMax"        -> Exact(r, FMax(x, y))
    [] o = "XMVectorClamp"      -> Exact(r, FMin(z, FMax(y, x)))
    [] o = "XMVectorSaturate"   -> IsNaN(x) \/ Same(r, FMin(FMax(x, 0), OneB))
    [] o = "XMVectorRound"      -> Same(r, FRound(x))
    [] o = "XMVectorTruncate"   -> Same(r, FTrunc(x))
    [] o = "XMVectorFloor"      -> Same(r, FFloor(x))
    [] o = "XMVectorCeiling"    -> Same(r, FCeil(x))
    [] o = "XMVectorMod"        ->
         IF IsNaN(x) \/ IsNaN(y) \/ IsInf(x) \/ IsZero(y) THEN IsNaN(r)
         ELSE IF IsInf(y) THEN TRUE
         ELSE LET t == FTrunc(FDiv(x, y))
              IN  Same(r, FSub(x, FMul(y, t))) \/ Same(r, FFma(FNegBits(y), t, x))

Unary   == {"XMVectorNegate", "XMVectorAbs", "XMVectorSqrt", "XMVectorReciprocal", "XMVectorReciprocalSqrt", "XMVectorSaturate",
            "XMVectorRound", "XMVectorTruncate", "XMVectorFloor", "XMVectorCeiling"}
Binary  == {"XMVectorAdd", "XMVectorSubtract", "XMVectorMultiply", "XMVectorDivide", "XMVectorMin", "XMVectorMax", "XMVectorMod"}
Ternary == {"XMVectorMultiplyAdd", "XMVectorNegativeMultiplySubtract", "XMVectorClamp"}

Ok(o, a, r) ==
  IF o = "XMVectorScale" THEN \A i \in Lanes4 : Exact(r[i], FMul(a[i], a[5]))
  ELSE IF o \in Unary    THEN \A i \in Lanes4 : LaneOk(o, r[i], a[i], 0, 0)
  ELSE IF o \in Binary   THEN \A i \in Lanes4 : LaneOk(o, r[i], a[i], a[i + 4], 0)
  ELSE \A i \in Lanes4 : LaneOk(o, r[i], a[i], a[i + 4], a[i + 8])
=============================================================================
