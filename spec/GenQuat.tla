------------------------------- MODULE GenQuat -------------------------------
EXTENDS GenBase, EGeom
With(ns, c) == [i \in 1..Len(ns) |-> <<ns[i], c>>]
Plan(p) ==
  LET m == 200 * GScale IN
  CASE p = "C23" -> With(<<"XMQuaternionMultiply", "XMQuaternionConjugate", "XMQuaternionInverse", "XMQuaternionRotationMatrix">>, 4 * m)
                    \o With(<<"XMQuaternionRotationRollPitchYaw", "XMQuaternionRotationRollPitchYawFromVector", "XMQuaternionRotationNormal", "XMQuaternionRotationAxis", "XMQuaternionToAxisAngle">>, 2 * m)
                    \o With(<<"XMQuaternionIdentity">>, 1)
    [] p = "C24" -> With(<<"XMQuaternionSlerp", "XMQuaternionSlerpV", "XMQuaternionLn", "XMQuaternionExp">>, 2 * m)
                    \o With(<<"XMQuaternionSquad", "XMQuaternionSquadV", "XMQuaternionBaryCentric", "XMQuaternionBaryCentricV", "XMQuaternionSquadSetup">>, m)
    [] p = "C12" -> With(<<"XMPlaneNormalizeEst">>, 2 * m)
    [] p = "C03" -> With(<<"XMPlaneNearEqual">>, 2 * m)
    [] p = "C26" -> With(<<"XMPlaneDot", "XMPlaneDotCoord", "XMPlaneDotNormal", "XMPlaneNormalize", "XMPlaneNormalizeEst", "XMPlaneTransform", "XMPlaneFromPointNormal", "XMPlaneNearEqual">>, 2 * m)
                    \o With(<<"XMPlaneIntersectLine", "XMPlaneIntersectPlane", "XMPlaneFromPoints">>, 4 * m)
Safe(v) == [i \in 1..Len(v) |-> IF IsFin(v[i]) /\ MagBits(v[i]) < F(1048576, 1) THEN v[i] ELSE OneB]
Mod(k, j) == LET c == Rnd(k, j) % 8
             IN  CASE c = 6 -> NearUnit(3, k, j) [] c = 7 -> NearUnit(4, k, j) [] OTHER -> Safe(VecM(<<"mod", "lat", "int", "mod", "dict", "msp">>[1 + c], k, j))
AnyV(k, j) == VecM(<<"mod", "lat", "int", "mix1", "dict", "wide", "fin", "mod">>[1 + (Rnd(k, j) % 8)], k, j)
J(v, n, k, j) == Junk(v, n, k, j)
NonZero3(v) == IF IsZero(v[1]) /\ IsZero(v[2]) /\ IsZero(v[3]) THEN <<OneB, v[2], v[3], v[4]>> ELSE v
Ang(k, j) == LET c == Rnd(k, j) % 8
                 b == CASE c = 0 -> F(Rnd(k, j + 1) % 33, 8)
                        [] c = 1 -> Nudge(Pick(<<1070141403, 1078530011, 1086918619, 1083624420, 1061752795>>, k, j + 1), k, j + 2)
                        [] c = 2 -> RndF(k, j + 1, -12, 0)
                        [] c = 3 -> RndF(k, j + 1, 2, 5)
                        [] c = 4 -> Safe(<<Lane("dict", k, j + 1)>>)[1]
                        [] OTHER -> RndF(k, j + 1, -2, 1)
                 d == IF MagBits(b) > F(64, 1) THEN OneB ELSE b
             IN  IF Rnd(k, j + 7) % 2 = 0 THEN d ELSE FNegBits(d)
UnitQ(k, j) == LET c == Rnd(k, j + 31) % 6
               IN  IF c = 0 THEN [i \in 1..4 |-> IF i = 1 + (Rnd(k, j + 32) % 4) THEN (IF Rnd(k, j + 33) % 2 = 0 THEN OneB ELSE FNegBits(OneB)) ELSE 0]
                   ELSE IF c = 1 THEN NormV([i \in 1..4 |-> IF Rnd(k, j + 33 + i) % 2 = 0 THEN 0 ELSE Lane("int", k, 16 * j + i)], 4)
                   ELSE UnitV(4, k, j)
\* a unit quaternion close to q (or its negative) at a chosen small angle
NearQ(q, k, j) == LET s == -1 - (Rnd(k, j + 1) % 14)
                      v == [i \in 1..4 |-> DF32(DAdd(DBits(q[i]), DMul(DBits(Lane("lat", k, 16 * j + i)), DPow2(s))))]
                      n == NormV(v, 4)
                  IN  IF Rnd(k, j + 2) % 2 = 0 THEN n ELSE [i \in 1..4 |-> FNegBits(n[i])]
RelQ(q, k, j) == LET c == Rnd(k, j + 40) % 8
                 IN  CASE c = 0 -> q [] c = 1 -> [i \in 1..4 |-> FNegBits(q[i])] [] c \in {2, 3, 4} -> NearQ(q, k, j) [] OTHER -> UnitQ(k, j)
Unit3(k, j) == IF Rnd(k, j + 31) % 6 = 0 THEN [i \in 1..4 |-> IF i = 1 + (Rnd(k, j + 32) % 3) THEN (IF Rnd(k, j + 33) % 2 = 0 THEN OneB ELSE FNegBits(OneB)) ELSE 0] ELSE UnitV(3, k, j)
T01(k, j) == LET c == Rnd(k, j) % 5 IN CASE c = 0 -> F(Rnd(k, j + 1) % 2, 1) [] c = 1 -> F(Rnd(k, j + 1) % 9, 8) [] OTHER -> F(Rnd(k, j + 1) % 10001, 10000)
TAny(k, j) == IF Rnd(k, j + 3) % 8 = 0 THEN Lane("unit", k, j) ELSE T01(k, j)
S4(x) == <<x, x, x, x>>
\* rotation matrix of a unit quaternion, rounded; 4th column and row arbitrary numbers
RotM(k, j) == LET q == EV(UnitQ(k, j))
                  n == EVal(EDot(q, q, 4))
                  m == EQMat(q)
                  R(i) == <<DF32(EVal(m[i][1])), DF32(EVal(m[i][2])), DF32(EVal(m[i][3])), 0>>
              IN  R(1) \o R(2) \o R(3) \o <<0, 0, 0, OneB>>
\* weights of a barycentric combination
FG(k) == LET c == Rnd(k, 90) % 8
             f == F(Rnd(k, 91) % 1001, 1000)
             g == F(Rnd(k, 92) % 1001, 1000)
         IN  CASE c = 0 -> <<0, 0>> [] c = 1 -> <<OneB, 0>> [] c = 2 -> <<0, OneB>> [] c = 3 -> <<f, FNegBits(f)>> [] OTHER -> <<f, g>>
Lerpv(x, y, n, d) == [i \in 1..4 |-> DF32(DAdd(DBits(x[i]), DMul(DSub(DBits(y[i]), DBits(x[i])), DDiv(DInt(n), DInt(d)))))]
\* plane normal perpendicular-ish to a given direction
Perp(d) == IF IsZero(d[1]) /\ IsZero(d[2]) THEN <<OneB, 0, 0, OneB>> ELSE <<FNegBits(d[2]), d[1], 0, OneB>>
Scen0(o, k) ==
  CASE o = "XMQuaternionMultiply" -> (IF k % 2 = 0 THEN UnitQ(k, 0) ELSE AnyV(k, 0)) \o (IF k % 2 = 0 THEN UnitQ(k, 1) ELSE AnyV(k, 1))
    [] o = "XMQuaternionConjugate" -> VecA(k, 0)
    [] o = "XMQuaternionInverse" -> IF k % 5 = 0 THEN VecM("spec", k, 0) ELSE IF k % 5 = 1 THEN [i \in 1..4 |-> RndF(k, i, -13, -11)] ELSE IF k % 5 = 2 THEN UnitQ(k, 0) ELSE AnyV(k, 0)
    [] o = "XMQuaternionIdentity" -> <<>>
    [] o = "XMQuaternionRotationMatrix" -> RotM(k, 0)
    [] o = "XMQuaternionRotationRollPitchYaw" -> <<Ang(k, 0), Ang(k, 10), Ang(k, 20)>>
    [] o = "XMQuaternionRotationRollPitchYawFromVector" -> J(<<Ang(k, 0), Ang(k, 10), Ang(k, 20), 0>>, 3, k, 3)
    [] o = "XMQuaternionRotationNormal" -> J(IF k % 4 = 0 THEN Mod(k, 1) ELSE Unit3(k, 1), 3, k, 1) \o <<Ang(k, 0)>>
    [] o = "XMQuaternionRotationAxis" -> J(NonZero3(IF k % 4 = 0 THEN Unit3(k, 1) ELSE Mod(k, 1)), 3, k, 1) \o <<Ang(k, 0)>>
    [] o = "XMQuaternionToAxisAngle" -> UnitQ(k, 0)
    [] o = "XMQuaternionSlerp" -> LET q == UnitQ(k, 0) IN q \o RelQ(q, k, 1) \o <<TAny(k, 2)>>
    [] o = "XMQuaternionSlerpV" -> LET q == UnitQ(k, 0) IN q \o RelQ(q, k, 1) \o S4(TAny(k, 2))
    [] o = "XMQuaternionLn" -> IF k % 3 = 0 THEN NearQ(<<0, 0, 0, OneB>>, k, 0) ELSE UnitQ(k, 0)
    [] o = "XMQuaternionExp" -> J(IF k % 3 = 0 THEN [i \in 1..4 |-> RndF(k, i, -16 - (k % 12), 0 - (k % 12))] ELSE IF k % 7 = 0 THEN <<0, 0, 0, 0>> ELSE Safe(VecM(IF k % 2 = 0 THEN "mod" ELSE "unit", k, 0)), 3, k, 0)
    [] o = "XMQuaternionSquad" -> LET q == UnitQ(k, 0) IN q \o RelQ(q, k, 1) \o UnitQ(k, 2) \o RelQ(q, k, 3) \o <<T01(k, 4)>>
    [] o = "XMQuaternionSquadV" -> LET q == UnitQ(k, 0) IN q \o RelQ(q, k, 1) \o UnitQ(k, 2) \o RelQ(q, k, 3) \o S4(T01(k, 4))
    [] o = "XMQuaternionBaryCentric" -> LET q == UnitQ(k, 0) IN q \o RelQ(q, k, 1) \o RelQ(q, k, 2) \o FG(k)
    [] o = "XMQuaternionBaryCentricV" -> LET q == UnitQ(k, 0)
                                             w == FG(k) IN q \o RelQ(q, k, 1) \o RelQ(q, k, 2) \o S4(w[1]) \o S4(w[2])
    [] o = "XMQuaternionSquadSetup" -> LET q == UnitQ(k, 0) IN q \o RelQ(q, k, 1) \o RelQ(q, k, 2) \o RelQ(q, k, 3)
    [] o = "XMPlaneDot" -> AnyV(k, 0) \o AnyV(k, 1)
    [] o \in {"XMPlaneDotCoord"} -> AnyV(k, 0) \o J(AnyV(k, 1), 3, k, 1)
    [] o = "XMPlaneDotNormal" -> J(AnyV(k, 0), 3, k, 0) \o J(AnyV(k, 1), 3, k, 1)
    [] o \in {"XMPlaneNormalize", "XMPlaneNormalizeEst"} -> AnyV(k, 0)
    [] o = "XMPlaneTransform" -> AnyV(k, 0) \o AnyV(k, 1) \o AnyV(k, 2) \o AnyV(k, 3) \o AnyV(k, 4)
    [] o = "XMPlaneFromPointNormal" -> J(AnyV(k, 0), 3, k, 0) \o J(VecM(IF k % 2 = 0 THEN "lat" ELSE "mod", k, 1), 3, k, 1)
    [] o = "XMPlaneNearEqual" ->
         LET p == NonZero3(Mod(k, 0))
             s == DPow2((Rnd(k, 1) % 5) - 2)
             sc == [i \in 1..4 |-> DF32(DMul(DBits(p[i]), s))]
             q == IF k % 4 = 0 THEN sc ELSE IF k % 4 = 1 THEN NudgeV(sc, k, 2) ELSE IF k % 4 = 2 THEN Lerpv(sc, NonZero3(Mod(k, 1)), 1, 100) ELSE NonZero3(Mod(k, 1))
         IN  p \o NonZero3(q) \o [i \in 1..4 |-> Pick(<<F(1, 1000), F(1, 100), F(1, 10), F(1, 100000), OneB>>, k, 7 + (k % 3) * i)]
    [] o = "XMPlaneIntersectLine" ->
         LET p == IF k % 3 = 0 THEN Unit3(k, 0) ELSE Mod(k, 0)
             x == Mod(k, 1)
             d == Mod(k, 2)
             y == IF k % 5 = 0 THEN [i \in 1..4 |-> DF32(DAdd(DBits(x[i]), DBits(Perp(p)[i])))] ELSE IF k % 17 = 0 THEN x ELSE d
         IN  <<p[1], p[2], p[3], Mod(k, 5)[1]>> \o J(x, 3, k, 1) \o J(y, 3, k, 2)
    [] o = "XMPlaneIntersectPlane" ->
         LET p == IF k % 3 = 0 THEN Unit3(k, 0) ELSE Mod(k, 0)
             q == IF k % 5 = 0 THEN [i \in 1..4 |-> DF32(DMul(DBits(p[i]), DInt((Rnd(k, 3) % 5) - 2)))] ELSE IF k % 5 = 1 THEN NudgeV(p, k, 1) ELSE IF k % 3 = 0 THEN Unit3(k, 1) ELSE Mod(k, 1)
         IN  <<p[1], p[2], p[3], Mod(k, 5)[1]>> \o <<q[1], q[2], q[3], Mod(k, 6)[2]>>
    [] o = "XMPlaneFromPoints" ->
         LET x == Mod(k, 0)
             y == Mod(k, 1)
             z == IF k % 11 = 0 THEN Lerpv(x, y, 1, 2) ELSE Mod(k, 2)
         IN  J(x, 3, k, 0) \o J(y, 3, k, 1) \o J(z, 3, k, 2)
KindOf(o) ==
  CASE o = "XMQuaternionRotationMatrix" -> <<0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0, -1, -1, -1, -1, -1>>
    [] o = "XMQuaternionRotationNormal" -> KV(3, 0) \o <<-1>>
    [] o = "XMQuaternionRotationAxis" -> KV(3, 1) \o <<-1>>
    [] o \in {"XMQuaternionToAxisAngle", "XMQuaternionLn"} -> KN(4, 0)
    [] o = "XMQuaternionExp" -> KV(3, 0)
    [] o = "XMQuaternionSlerp" -> KN(8, 0) \o <<0>>
    [] o = "XMQuaternionSlerpV" -> KN(8, 0) \o KN(4, 3)
    [] o = "XMQuaternionSquad" -> KN(16, 0) \o <<0>>
    [] o = "XMQuaternionSquadV" -> KN(16, 0) \o KN(4, 3)
    [] o = "XMQuaternionBaryCentric" -> KN(12, 0) \o <<3, 3>>
    [] o = "XMQuaternionBaryCentricV" -> KN(12, 0) \o KN(8, 3)
    [] o = "XMQuaternionSquadSetup" -> KN(16, 0)
    [] o = "XMPlaneFromPointNormal" -> KV(3, 0) \o KV(3, 1)
    [] o = "XMPlaneIntersectLine" -> <<0, 0, 0, 1>> \o KV(3, 1) \o KV(3, 1)
    [] o = "XMPlaneIntersectPlane" -> <<0, 0, 0, 1, 0, 0, 0, 1>>
    [] o = "XMPlaneFromPoints" -> KV(3, 1) \o KV(3, 1) \o KV(3, 1)
    [] o = "XMPlaneNearEqual" -> KN(8, 3) \o KN(4, -1)
    [] OTHER -> <<>>
Scen(o, k) == LET kd == KindOf(o)
                  a == Scen0(o, k) IN IF kd = <<>> THEN a ELSE Vary(a, kd, k, -14, 24)
=============================================================================
