-------------------------------- MODULE Func --------------------------------
(***************************************************************************)
(* Elementary functions: precise and estimating trigonometry, exponentials *)
(* and powers, angle reduction, degree/radian conversion.                  *)
(***************************************************************************)
EXTENDS Lib, Elem

Num(a, b) == DDiv(DInt(a), DInt(b))
E8(n) == Num(n, 100000000)
Near(r, v, tol) == IsFin(r) /\ DLe(DAbs(DSub(DBits(r), v)), tol)
P2(k) == DPow2(k)
X(b) == DBits(b)
AX(b) == DAbs(DBits(b))
Ang(b) == DF32(b)
\* range reduction costs an error proportional to the number of turns
Red(b, e) == IF DLe(AX(b), Num(16, 5)) THEN DInt(0) ELSE DMul(AX(b), P2(e))
Small(b) == DLe(AX(b), D1)

SinOk(r, x, e) == /\ Near(r, Sin(X(x)), DAdd(P2(e), Red(x, -22)))
CosOk(r, x, e) == Near(r, Cos(X(x)), DAdd(P2(e), Red(x, -22)))
SinRel(r, x) == ~Small(x) \/ Near(r, Sin(X(x)), DAdd(DMul(AX(x), P2(-22)), P2(-140)))
\* arguments beyond 2^16 are outside the useful domain
TrigDom(x) == IsFin(x) /\ DLe(AX(x), DInt(65536))

\* tangent: compare directions, because the function is unbounded
TanOk(r, x, e) == \/ IsInf(r) /\ DLe(DistMod(X(x), HalfPi, Pi), DAdd(P2(e), Red(x, -22)))
                  \/ IsFin(r) /\ DLe(DistMod(Atan(DBits(r)), X(x), Pi), DAdd(P2(e), Red(x, -22)))
TanRel(r, x, e) == ~Small(x) \/ (LET sc == SinCos(X(x)) IN Near(r, DDiv(sc[1], sc[2]), DAdd(DMul(AX(x), P2(e)), P2(-140))))

UnitDom(x) == IsFin(x) /\ DLe(AX(x), D1)
\* the scalar arc functions clamp their argument to [-1, 1] (not promised for huge arguments)
ClampDom(x) == IsFin(x) /\ DLe(AX(x), DInt(1024))
XC(x) == DMax(DInt(-1), DMin(D1, X(x)))

\* ---------------------------------------------------------------- two-argument arctangent
SgnF(y, m) == IF IsNeg(y) THEN DNeg(m) ELSE m
Atan2Val(y, x) ==                       \* no NaNs
  IF IsInf(x) /\ IsInf(y) THEN SgnF(y, IF IsNeg(x) THEN DMul(HalfPi, Num(3, 2)) ELSE DHalf(HalfPi))
  ELSE IF IsInf(y) THEN SgnF(y, HalfPi)
  ELSE IF IsInf(x) THEN SgnF(y, IF IsNeg(x) THEN Pi ELSE DInt(0))
  ELSE IF IsZero(y) THEN SgnF(y, IF IsNeg(x) THEN Pi ELSE DInt(0))
  ELSE Atan2(DBits(y), DBits(x))
\* quotient that overflows or underflows binary32 loses nothing visible at this tolerance;
\* the sign of the result is the sign of y
Ordinary(b) == IsFin(b) /\ ~IsZero(b)
Atan2NaN(r, y, x) == (Ordinary(x) \/ Ordinary(y)) => IsNaN(r)      \* the table leaves other NaN cases open
Atan2Ok(r, y, x, tol) ==
  IF IsNaN(x) \/ IsNaN(y) THEN Atan2NaN(r, y, x)
  ELSE Near(r, Atan2Val(y, x), tol) /\ (IsZero(y) => IsNeg(r) = IsNeg(y))
Comfort(b) == IsZero(b) \/ (IsFin(b) /\ MagBits(b) > 8388608 * 67 /\ MagBits(b) < 8388608 * 187)    \* 2^-60 .. 2^60
Atan2EstOk(r, y, x) ==
  IF IsNaN(x) \/ IsNaN(y) THEN Atan2NaN(r, y, x)
  ELSE (Comfort(x) /\ Comfort(y)) \/ IsInf(x) \/ IsInf(y) => Near(r, Atan2Val(y, x), E8(21000))

\* ---------------------------------------------------------------- exponentials
FMaxD == DBits(FltMaxBits)
\* r within relative error rel (plus d ulps of the denormal range) of the positive value v, overflow to infinity
PosOk(r, v, rel, d) ==
  LET t == DAdd(DMul(v, rel), DMul(d, Tiny))
  IN  \/ Near(r, v, t) /\ ~IsNeg(r)
      \/ r = PInf /\ DLt(FMaxD, DAdd(v, t))
\* the series is accurate for fractions in [0, 1); negative arguments, cut towards zero, lose up to 1e-5 near -1
ExpRel(v) == IF DSign(v) >= 0 THEN E8(40)
             ELSE LET y == DSub(DNeg(v), DFloor(DNeg(v))) IN DAdd(E8(40), DMul(DMul(DSq(DSq(y)), y), E8(1260)))
Exp2Ok(r, x) ==
  IF IsNaN(x) THEN IsNaN(r)
  ELSE IF IsInf(x) THEN r = (IF x = PInf THEN PInf ELSE 0)
  ELSE IF DLe(DInt(128), X(x)) THEN r = PInf
  ELSE IF DLe(X(x), DInt(-150)) THEN r = 0
  ELSE PosOk(r, Exp2(X(x)), ExpRel(X(x)), Num(9, 16))
HypOk(r, v, c, x) ==                    \* v the value, c = cosh x
  LET t == DAdd(DAdd(DMul(DMul(c, DAdd(D1, AX(x))), E8(40)), DDiv(E8(1300), c)), Tiny)
  IN  \/ Near(r, v, t)
      \/ IsInf(r) /\ DLt(FMaxD, DAdd(DMul(DAbs(v), Num(101, 100)), t)) /\ (IsNeg(r) <=> DSign(v) < 0)
EPlus(x) == Exp(X(x))
EMinus(x) == Exp(DNeg(X(x)))
HypDom(x) == IsFin(x) /\ DLe(AX(x), DInt(2000))
\* power: C99 table for the special cases, otherwise one or two units in the last place
IsInt(y) == IsFin(y) /\ DEq(DFloor(X(y)), X(y))
IsOdd(y) == IsInt(y) /\ DLe(AX(y), P2(24)) /\ ~DEq(DFloor(DHalf(X(y))), DHalf(X(y)))
NegIf(c, b) == IF c THEN FNegBits(b) ELSE b
IsSNaN(b) == IsNaN(b) /\ ManBits(b) < 4194304
PowOk(r, x, y) ==
  IF IsZero(y) \/ x = OneB THEN r = OneB \/ ((IsSNaN(x) \/ IsSNaN(y)) /\ IsNaN(r))
  ELSE IF IsNaN(x) \/ IsNaN(y) THEN IsNaN(r)
  ELSE IF IsInf(y)
       THEN LET m == DCmp(IF IsInf(x) THEN DInt(2) ELSE AX(x), D1)
            IN  IF m = 0 THEN r = OneB ELSE IF (m > 0) = (y = PInf) THEN r = PInf ELSE r = 0
  ELSE IF IsZero(x) THEN r = NegIf(IsNeg(x) /\ IsOdd(y), IF IsNeg(y) THEN PInf ELSE 0)
  ELSE IF IsInf(x) THEN r = NegIf(IsNeg(x) /\ IsOdd(y), IF IsNeg(y) THEN 0 ELSE PInf)
  ELSE IF IsNeg(x) /\ ~IsInt(y) THEN IsNaN(r)
  ELSE LET l == DMul(X(y), Log2(AX(x)))
           q == IF IsNeg(x) /\ IsOdd(y) THEN FNegBits(r) ELSE r
       IN  IF DLe(DInt(129), l) THEN q = PInf
           ELSE IF DLe(l, DInt(-151)) THEN q = 0
           ELSE PosOk(q, Exp2(l), P2(-22), D1)

\* ---------------------------------------------------------------- angles
AngleDom(x) == IsFin(x) /\ DLe(AX(x), DInt(1100000))
\* r is the angle v brought into [-pi, pi], up to the rounding of an angle of magnitude m
AngOk(r, v, m) == LET t == DMul(DAdd(m, DInt(3)), P2(-22))
                  IN  IsFin(r) /\ DLe(DistMod(DBits(r), v, TwoPi), t) /\ DLe(AX(r), DAdd(Pi, t))

\* the sum of two reduced angles comes back in the half-open range [-pi, pi) (pi as the library's constant)
PiB == 1078530011
HalfOpen(r, v) == DLe(DAbs(v), DInt(8)) => DLt(DBits(r), DBits(PiB)) /\ DLe(DNeg(DBits(PiB)), DBits(r))

LaneOk(o, r, x, y) ==
  CASE o \in {"XMVectorSin", "XMScalarSin"} -> TrigDom(x) => SinOk(r, x, -21) /\ SinRel(r, x)
    [] o \in {"XMVectorCos", "XMScalarCos"} -> TrigDom(x) => CosOk(r, x, -21)
    [] o \in {"XMVectorTan"} -> TrigDom(x) => TanOk(r, x, -21) /\ TanRel(r, x, -20)
    [] o = "XMVectorASin" -> UnitDom(x) => Near(r, Asin(X(x)), P2(-20))
    [] o = "XMScalarASin" -> ClampDom(x) => Near(r, Asin(XC(x)), P2(-20))
    [] o = "XMVectorACos" -> UnitDom(x) => Near(r, Acos(X(x)), P2(-20))
    [] o = "XMScalarACos" -> ClampDom(x) => Near(r, Acos(XC(x)), P2(-20))
    [] o = "XMVectorATan" -> IF IsNaN(x) THEN IsNaN(r)
                             ELSE IF IsInf(x) THEN Near(r, SgnF(x, HalfPi), E8(40))
                             ELSE LET v == Atan(X(x)) IN Near(r, v, E8(40)) /\ (Small(x) => Near(r, v, DAdd(DMul(AX(x), P2(-22)), P2(-140))))
    [] o = "XMVectorATan2" -> Atan2Ok(r, x, y, E8(60))
    [] o \in {"XMVectorSinEst", "XMScalarSinEst"} -> TrigDom(x) => SinOk(r, x, -19)
    [] o \in {"XMVectorCosEst", "XMScalarCosEst"} -> TrigDom(x) => CosOk(r, x, -16)
    [] o = "XMVectorTanEst" -> TrigDom(x) => TanOk(r, x, -8) /\ TanRel(r, x, -7)
    [] o = "XMVectorASinEst" -> UnitDom(x) => Near(r, Asin(X(x)), E8(9000))
    [] o = "XMScalarASinEst" -> ClampDom(x) => Near(r, Asin(XC(x)), E8(9000))
    [] o = "XMVectorACosEst" -> UnitDom(x) => Near(r, Acos(X(x)), E8(9000))
    [] o = "XMScalarACosEst" -> ClampDom(x) => Near(r, Acos(XC(x)), E8(9000))
    [] o = "XMVectorATanEst" -> IF IsNaN(x) THEN IsNaN(r) ELSE IF IsInf(x) THEN Near(r, SgnF(x, HalfPi), E8(1600)) ELSE Near(r, Atan(X(x)), E8(1600))
    [] o = "XMVectorATan2Est" -> Atan2EstOk(r, x, y)
    [] o = "XMVectorReciprocalEst" -> IF IsNaN(x) THEN IsNaN(r)
                                      ELSE (MagBits(x) > 8388608 * 2 /\ MagBits(x) < 8388608 * 252) => LET v == DDiv(D1, X(x)) IN Near(r, v, DMul(DAbs(v), Num(3, 8192)))
    [] o = "XMVectorSqrtEst" -> IF IsNaN(x) THEN IsNaN(r) ELSE (IsZero(x) \/ (x > 8388608 /\ x < PInf)) => LET v == DSqrt(X(x)) IN Near(r, v, DMul(v, Num(3, 8192)))
    [] o = "XMVectorReciprocalSqrtEst" -> IF IsNaN(x) THEN IsNaN(r) ELSE (x > 8388608 /\ x < PInf) => LET v == DDiv(D1, DSqrt(X(x))) IN Near(r, v, DMul(v, Num(3, 8192)))
    [] o \in {"XMVectorExp2", "XMVectorExp"} -> Exp2Ok(r, x)
    [] o = "XMVectorSinH" -> HypDom(x) => LET p == EPlus(x) m == EMinus(x) IN HypOk(r, DHalf(DSub(p, m)), DHalf(DAdd(p, m)), x)
    [] o = "XMVectorCosH" -> HypDom(x) => LET p == EPlus(x) m == EMinus(x) IN HypOk(r, DHalf(DAdd(p, m)), DHalf(DAdd(p, m)), x)
    [] o = "XMVectorTanH" -> HypDom(x) => LET p == EPlus(x) m == EMinus(x) IN LET t == DDiv(DSub(p, m), DAdd(p, m)) IN Near(r, t, DAdd(E8(40), DMul(DSub(D1, DMul(t, t)), IF DSign(X(x)) >= 0 THEN DMul(DAdd(D1, AX(x)), E8(40)) ELSE E8(1300))))
    [] o = "XMVectorPow" -> PowOk(r, x, y)
    [] o \in {"XMVectorModAngles", "XMScalarModAngle"} -> AngleDom(x) => AngOk(r, X(x), AX(x))
    [] o = "XMVectorAddAngles" -> LET v == DAdd(X(x), X(y)) IN AngOk(r, v, DInt(10)) /\ HalfOpen(r, v)
    [] o = "XMVectorSubtractAngles" -> LET v == DSub(X(x), X(y)) IN AngOk(r, v, DInt(10)) /\ HalfOpen(r, v)
    [] o = "XMConvertToRadians" -> IsFin(x) => LET v == DMul(X(x), DDiv(Pi, DInt(180))) IN DLt(FMaxD, DMul(DInt(2), DAbs(v))) \/ Near(r, v, DAdd(DMul(DAbs(v), P2(-22)), Tiny))
    [] o = "XMConvertToDegrees" -> IsFin(x) => LET v == DMul(X(x), DDiv(DInt(180), Pi)) IN DLt(FMaxD, DMul(DInt(2), DAbs(v))) \/ Near(r, v, DAdd(DMul(DAbs(v), P2(-22)), Tiny))

Scalar == {"XMScalarSin", "XMScalarCos", "XMScalarASin", "XMScalarACos", "XMScalarSinEst", "XMScalarCosEst", "XMScalarASinEst", "XMScalarACosEst", "XMScalarModAngle",
           "XMConvertToRadians", "XMConvertToDegrees"}
Two == {"XMVectorATan2", "XMVectorATan2Est", "XMVectorPow", "XMVectorAddAngles", "XMVectorSubtractAngles"}
Ok(o, a, r) ==
  IF o \in Scalar THEN LaneOk(o, r[1], a[1], 0)
  ELSE IF o = "XMScalarSinCos" THEN LaneOk("XMScalarSin", r[1], a[1], 0) /\ LaneOk("XMScalarCos", r[2], a[1], 0)
  ELSE IF o = "XMScalarSinCosEst" THEN LaneOk("XMScalarSinEst", r[1], a[1], 0) /\ LaneOk("XMScalarCosEst", r[2], a[1], 0)
  ELSE IF o = "XMVectorSinCos" THEN \A i \in Lanes4 : LaneOk("XMVectorSin", r[i], a[i], 0) /\ LaneOk("XMVectorCos", r[i + 4], a[i], 0)
  ELSE IF o = "XMVectorSinCosEst" THEN \A i \in Lanes4 : LaneOk("XMVectorSinEst", r[i], a[i], 0) /\ LaneOk("XMVectorCosEst", r[i + 4], a[i], 0)
  ELSE IF o \in Two THEN \A i \in Lanes4 : LaneOk(o, r[i], a[i], a[i + 4])
  ELSE \A i \in Lanes4 : LaneOk(o, r[i], a[i], 0)
=============================================================================
