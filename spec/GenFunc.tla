------------------------------- MODULE GenFunc -------------------------------
EXTENDS GenBase, Elem
With(ns, c) == [i \in 1..Len(ns) |-> <<ns[i], c>>]
Plan(p) ==
  LET m == 500 * GScale IN
  CASE p = "C11" -> With(<<"XMVectorSin", "XMVectorCos", "XMVectorTan", "XMVectorSinCos", "XMVectorASin", "XMVectorACos", "XMVectorATan">>, m)
                    \o With(<<"XMVectorATan2">>, 3 * m) \o With(<<"XMScalarSin", "XMScalarCos", "XMScalarSinCos", "XMScalarASin", "XMScalarACos">>, 2 * m)
    [] p = "C12" -> With(<<"XMVectorSinEst", "XMVectorCosEst", "XMVectorTanEst", "XMVectorSinCosEst", "XMVectorASinEst", "XMVectorACosEst", "XMVectorATanEst",
                           "XMVectorReciprocalEst", "XMVectorSqrtEst", "XMVectorReciprocalSqrtEst">>, m)
                    \o With(<<"XMVectorATan2Est">>, 2 * m) \o With(<<"XMScalarSinEst", "XMScalarCosEst", "XMScalarSinCosEst", "XMScalarASinEst", "XMScalarACosEst">>, 2 * m)
    [] p = "C13" -> With(<<"XMVectorExp2", "XMVectorExp">>, 2 * m) \o With(<<"XMVectorSinH", "XMVectorCosH", "XMVectorTanH">>, m) \o With(<<"XMVectorPow">>, 4 * m)
    [] p = "C14" -> With(<<"XMVectorModAngles">>, 2 * m) \o With(<<"XMVectorAddAngles", "XMVectorSubtractAngles">>, 2 * m)
                    \o With(<<"XMScalarModAngle", "XMConvertToRadians", "XMConvertToDegrees">>, 4 * m)
Uld(b, k, j) == LET d == (Rnd(k, j) % 9) - 4      \* a few ulps away
                    m == MagBits(b)
                IN  IF m < 10 THEN b ELSE IF IsNeg(b) THEN FNegBits(m + d) ELSE m + d
\* multiple of pi/n near by
PiMult(n, d, k, j) == Uld(DF32(DMul(Pi, DDiv(DInt(n), DInt(d)))), k, j)
Angle(k, j) ==
  LET c == Rnd(k, j) % 12
  IN  CASE c \in {0, 1} -> PiMult((Rnd(k, j + 1) % 33) - 16, 2, k, j + 2)
        [] c = 2 -> PiMult((Rnd(k, j + 1) % 97) - 48, 12, k, j + 2)
        [] c \in {3, 4, 5} -> DF32(DMul(Pi, DDiv(DInt((Rnd(k, j + 1) % 20001) - 10000), DInt(10000))))
        [] c \in {6, 7} -> DF32(DDiv(DInt((Rnd(k, j + 1) % 40001) - 20000), DInt(1000)))
        [] c = 8 -> RndF(k, j, -30, 14)
        [] c = 9 -> PiMult((Rnd(k, j + 1) % 4000) - 2000, 2, k, j + 2)
        [] c = 10 -> RndF(k, j, -126, 0)
        [] c = 11 -> Lane("dict", k, j)
UnitArg(k, j) ==
  LET c == Rnd(k, j) % 8
      g == IF Rnd(k, j + 7) % 2 = 0 THEN 1 ELSE -1
      x == CASE c = 0 -> Pick(UnitGrid, k, j + 1)
             [] c = 1 -> OneB - (Rnd(k, j + 1) % 40)
             [] c = 2 -> OneB - Rnd(k, j + 1) * (Rnd(k, j + 2) % 60)
             [] c = 3 -> RndF(k, j, -30, -1)
             [] c = 4 -> DF32(DDiv(DInt(Rnd(k, j + 1)), DInt(P)))
             [] c = 5 -> Uld(F(Rnd(k, j + 1) % 33, 32), k, j + 2)
             [] c = 6 -> RndF(k, j, -126, -10)
             [] c = 7 -> LET d == Lane("dict", k, j) IN IF MagBits(d) <= OneB THEN d ELSE 0
      y == IF MagBits(x) > OneB THEN OneB ELSE x
  IN  IF g = 1 THEN y ELSE FNegBits(y)
AnyArg(k, j) == LET c == Rnd(k, j) % 5
                IN  CASE c = 0 -> Lane("spec", k, j) [] c = 1 -> Lane("mod", k, j) [] c = 2 -> Lane("wide", k, j) [] c = 3 -> Lane("lat", k, j) [] c = 4 -> RndF(k, j, -126, 126)
ExpArg(k, j) ==
  LET c == Rnd(k, j) % 9
  IN  CASE c = 0 -> Lane("spec", k, j)
        [] c = 1 -> Uld(F((Rnd(k, j + 1) % 310) - 160, 1), k, j + 2)
        [] c \in {2, 3} -> DF32(DDiv(DInt((Rnd(k, j + 1) % 30000) - 15600), DInt(100)))
        [] c = 4 -> Lane("lat", k, j)
        [] c = 5 -> RndF(k, j, -30, 2)
        [] c = 6 -> Uld(F((Rnd(k, j + 1) % 310) - 160, 2), k, j + 2)
        [] c = 7 -> RndF(k, j, -126, 10)
        [] c = 8 -> Lane("dict", k, j)
HypArg(k, j) ==
  LET c == Rnd(k, j) % 6
  IN  CASE c = 0 -> F((Rnd(k, j + 1) % 400) - 200, 2)
        [] c = 1 -> RndF(k, j, -20, 2)
        [] c = 2 -> DF32(DDiv(DInt((Rnd(k, j + 1) % 20000) - 10000), DInt(2000)))
        [] c = 3 -> DF32(DDiv(DInt((Rnd(k, j + 1) % 40000) - 20000), DInt(220)))
        [] c = 4 -> RndF(k, j, -126, 9)
        [] c = 5 -> LET d == Lane("fin", k, j) IN IF MagBits(d) < F(2000, 1) THEN d ELSE 0
PowPair(k, j) ==
  LET c == Rnd(k, j) % 8
  IN  CASE c = 0 -> <<Lane("spec", k, j), Lane("spec", k, j + 1)>>
        [] c = 1 -> <<Lane("spec", k, j), Lane("lat", k, j + 1)>>
        [] c = 2 -> <<Lane("mod", k, j), Lane("int", k, j + 1)>>
        [] c = 3 -> <<MagBits(Lane("mod", k, j)), Lane("mod", k, j + 1)>>
        [] c = 4 -> <<MagBits(Lane("wide", k, j)), Lane("lat", k, j + 1)>>
        [] c = 5 -> <<Lane("int", k, j), F((Rnd(k, j + 1) % 41) - 20, 1)>>
        [] c = 6 -> <<Uld(OneB, k, j), RndF(k, j + 1, 10, 24)>>
        [] c = 7 -> <<Lane("lat", k, j), Lane("spec", k, j + 1)>>
Atan2Pair(k, j) ==
  LET c == Rnd(k, j) % 8
      x == Lane("mod", k, j + 1)
  IN  CASE c = 0 -> <<Lane("spec", k, j), Lane("spec", k, j + 1)>>
        [] c = 1 -> <<Pick(<<0, FNegBits(0), PInf, NInf, OneB, FNegBits(OneB)>>, k, j), Pick(<<0, FNegBits(0), PInf, NInf, OneB, FNegBits(OneB), 1, FltMaxBits>>, k, j + 1)>>
        [] c = 2 -> <<Nudge(x, k, j), x>>
        [] c = 3 -> <<Lane("lat", k, j), Lane("lat", k, j + 1)>>
        [] c = 4 -> <<Lane("mod", k, j), x>>
        [] c = 5 -> <<Lane("wide", k, j), Lane("wide", k, j + 1)>>
        [] c = 6 -> <<Lane("mod", k, j), Lane("spec", k, j + 1)>>
        [] c = 7 -> <<Lane("wide", k, j), x>>
Pairs(P2(_, _), k) == LET p == [i \in 1..4 |-> P2(k, 5000 * i)] IN [i \in 1..8 |-> IF i <= 4 THEN p[i][1] ELSE p[i - 4][2]]
Four(A(_, _), k) == [i \in 1..4 |-> A(k, 5000 * i)]
NegIfB(c, b) == IF c THEN FNegBits(b) ELSE b
\* reduced angle (|.| <= pi, and the documented domain of the second operand)
Ulp0(x, m) == IF MagBits(x) > m THEN IF IsNeg(x) THEN FNegBits(m) ELSE m ELSE x
PiF == 1078530011          \* largest float below pi plus rounding: 3.14159274
RedA(k, j) == Ulp0(Angle(k, j), PiF - 1)
RedB(k, j) == Ulp0(Angle(k, j), PiF + 8388608 - 1)
HalfPiF == PiF - 8388608
RedPair(k, j) ==
  LET c == Rnd(k, j + 31) % 4
      s == Rnd(k, j + 32)
  IN  CASE c = 0 -> <<NegIfB(s % 2 = 0, Pick(<<0, HalfPiF, PiF - 1>>, k, j)), NegIfB((s \div 2) % 2 = 0, Pick(<<PiF, HalfPiF, PiF + 1, PiF - 1, PiF + 8388608 - 1>>, k, j + 1))>>
        [] OTHER -> <<RedA(k, j), RedB(k, j + 2500)>>
WideAngle(k, j) == IF Rnd(k, j + 9) % 4 = 0 THEN RndF(k, j + 3, 4, 20) ELSE Angle(k, j)
DegArg(k, j) == LET c == Rnd(k, j) % 3 IN CASE c = 0 -> F((Rnd(k, j + 1) % 1441) - 720, 2) [] c = 1 -> Lane("fin", k, j) [] c = 2 -> Lane("wide", k, j)
Pos1(A(_, _), k) == [i \in 1..4 |-> LET x == A(k, 5000 * i) IN IF Rnd(k, 90 + i) % 8 = 0 THEN x ELSE MagBits(x)]

Scen(o, k) ==
  CASE o \in {"XMVectorSin", "XMVectorCos", "XMVectorTan", "XMVectorSinCos", "XMVectorSinEst", "XMVectorCosEst", "XMVectorTanEst", "XMVectorSinCosEst"} -> Four(Angle, k)
    [] o \in {"XMScalarSin", "XMScalarCos", "XMScalarSinCos", "XMScalarSinEst", "XMScalarCosEst", "XMScalarSinCosEst"} -> <<Angle(k, 77)>>
    [] o \in {"XMVectorASin", "XMVectorACos", "XMVectorASinEst", "XMVectorACosEst"} -> Four(UnitArg, k)
    [] o \in {"XMScalarASin", "XMScalarACos", "XMScalarASinEst", "XMScalarACosEst"} -> <<IF k % 6 = 0 THEN RndF(k, 77, 0, 8) ELSE UnitArg(k, 77)>>
    [] o \in {"XMVectorATan", "XMVectorATanEst", "XMVectorReciprocalEst"} -> Four(AnyArg, k)
    [] o \in {"XMVectorSqrtEst", "XMVectorReciprocalSqrtEst"} -> Pos1(AnyArg, k)
    [] o \in {"XMVectorATan2", "XMVectorATan2Est"} -> Pairs(Atan2Pair, k)
    [] o \in {"XMVectorExp2", "XMVectorExp"} -> Four(ExpArg, k)
    [] o \in {"XMVectorSinH", "XMVectorCosH", "XMVectorTanH"} -> Four(HypArg, k)
    [] o = "XMVectorPow" -> Pairs(PowPair, k)
    [] o = "XMVectorModAngles" -> Four(WideAngle, k)
    [] o = "XMScalarModAngle" -> <<WideAngle(k, 77)>>
    [] o \in {"XMVectorAddAngles", "XMVectorSubtractAngles"} -> Pairs(RedPair, k)
    [] o \in {"XMConvertToRadians", "XMConvertToDegrees"} -> <<DegArg(k, 77)>>
=============================================================================
