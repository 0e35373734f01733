------------------------------- MODULE GenMat -------------------------------
EXTENDS GenBase, EGeom
With(ns, c) == [i \in 1..Len(ns) |-> <<ns[i], c>>]
Plan(p) ==
  LET m == 200 * GScale IN
  CASE p = "C20" -> With(<<"XMMatrixMultiply", "XMMatrixMultiplyTranspose", "XMMatrixTranspose", "XMMatrixSet", "XMMatrixDeterminant", "XMMatrixInverse", "XMMatrixVectorTensorProduct">>, 3 * m)
                    \o With(<<"XMMatrixInverse(None)">>, m) \o With(<<"XMMatrixIdentity">>, 1)
    [] p = "C21" -> With(<<"XMMatrixTranslation", "XMMatrixTranslationFromVector", "XMMatrixScaling", "XMMatrixScalingFromVector",
                           "XMMatrixRotationX", "XMMatrixRotationY", "XMMatrixRotationZ", "XMMatrixRotationRollPitchYaw", "XMMatrixRotationRollPitchYawFromVector",
                           "XMMatrixRotationNormal", "XMMatrixRotationAxis", "XMMatrixRotationQuaternion", "XMMatrixTransformation2D", "XMMatrixTransformation",
                           "XMMatrixAffineTransformation2D", "XMMatrixAffineTransformation", "XMMatrixReflect", "XMMatrixShadow">>, m)
    [] p = "C22" -> With(<<"XMMatrixLookToLH", "XMMatrixLookToRH", "XMMatrixLookAtLH", "XMMatrixLookAtRH", "XMMatrixPerspectiveLH", "XMMatrixPerspectiveRH",
                           "XMMatrixPerspectiveFovLH", "XMMatrixPerspectiveFovRH", "XMMatrixPerspectiveOffCenterLH", "XMMatrixPerspectiveOffCenterRH",
                           "XMMatrixOrthographicLH", "XMMatrixOrthographicRH">>, m)
    [] p = "C23" -> With(<<"XMMatrixRotationQuaternion", "XMMatrixRotationRollPitchYaw", "XMMatrixRotationRollPitchYawFromVector", "XMMatrixRotationNormal", "XMMatrixRotationAxis">>, m)
    [] p = "C25" -> With(<<"XMMatrixDecompose">>, 12 * m)

Rows(mode, k, j) == VecM(mode, k, j) \o VecM(mode, k, j + 1) \o VecM(mode, k, j + 2) \o VecM(mode, k, j + 3)
Affine(k, j) == LET m == <<"mod", "lat", "unit", "int">>[1 + (Rnd(k, j) % 4)]
                    A(i) == LET v == VecM(m, k, j + i) IN <<v[1], v[2], v[3], 0>>
                IN  A(0) \o A(1) \o A(2) \o (LET v == VecM(m, k, j + 3) IN <<v[1], v[2], v[3], OneB>>)
\* an integer matrix with a row (or column) repeated: singular
Singular(k, j) == LET m == Rows("int", k, j)
                      i == Rnd(k, j + 5) % 4
                      i2 == (i + 1 + (Rnd(k, j + 6) % 3)) % 4
                  IN  IF Rnd(k, j + 7) % 2 = 0 THEN [n \in 1..16 |-> IF (n - 1) \div 4 = i2 THEN m[4 * i + ((n - 1) % 4) + 1] ELSE m[n]]
                      ELSE [n \in 1..16 |-> IF (n - 1) % 4 = i2 THEN m[n - i2 + i] ELSE m[n]]
\* a sparse matrix: permutation-like, most entries zero
Sparse(k, j) == LET c == Rnd(k, j) % 4
                    m == Rows("int", k, j)
                IN  [n \in 1..16 |-> IF ((n - 1) % 4) = (((n - 1) \div 4) + c) % 4 \/ Rnd(k, 40 + n) % 5 = 0 THEN m[n] ELSE 0]
\* the whole matrix, or each row, scaled by a power of two
ScaledM(k, j) == LET m == Rows(IF Rnd(k, j + 90) % 2 = 0 THEN "int" ELSE "mod", k, j)
                     e == (Rnd(k, j + 91) % 41) - 20
                     R(i) == IF Rnd(k, j + 92) % 2 = 0 THEN e ELSE (Rnd(k, j + 92 + i) % 25) - 12
                 IN  [n \in 1..16 |-> DF32(DMul(DBits(m[n]), DPow2(R((n - 1) \div 4))))]
MatG(k, j) == LET c == Rnd(k, j) % 13
              IN  CASE c = 0 -> Affine(k, j) [] c = 1 -> Rows("lat", k, j) [] c = 2 -> Rows("int", k, j) [] c = 3 -> Rows("dict", k, j) [] c = 4 -> Sparse(k, j)
                    [] c = 5 -> Rows("mix1", k, j) [] c = 6 -> NearId(k, j) [] c = 7 -> JitV(NearId(k, j), k, j) [] c = 8 -> UnitRows(k, j) [] c = 9 -> ScaledM(k, j) [] OTHER -> Rows("mod", k, j)
Safe(v) == [i \in 1..Len(v) |-> IF IsFin(v[i]) /\ MagBits(v[i]) < F(1048576, 1) THEN v[i] ELSE OneB]
Mod(k, j) == LET c == Rnd(k, j) % 8
             IN  CASE c = 6 -> NearUnit(3, k, j) [] c = 7 -> NearUnit(4, k, j) [] OTHER -> Safe(VecM(<<"mod", "lat", "int", "mod", "dict", "msp">>[1 + c], k, j))
Angle(k, j) == LET c == Rnd(k, j) % 8
               IN  CASE c = 0 -> F((Rnd(k, j + 1) % 33) - 16, 8)
                     [] c = 1 -> Nudge(Pick(<<1070141403, 1078530011, 1086918619, 1083624420, 1061752795>>, k, j + 1), k, j + 2)      \* pi/2 pi 2pi 3pi/2 pi/4
                     [] c = 2 -> RndF(k, j + 1, -12, 0)
                     [] c = 3 -> RndF(k, j + 1, 2, 5)
                     [] c = 4 -> Safe(<<Lane("dict", k, j + 1)>>)[1]
                     [] OTHER -> RndF(k, j + 1, -2, 1)
NegAngle(b, k, j) == IF Rnd(k, j) % 2 = 0 THEN b ELSE FNegBits(b)
Ang(k, j) == LET b == Angle(k, j) IN IF MagBits(b) > F(64, 1) THEN OneB ELSE NegAngle(b, k, j + 7)
UnitQ(k, j) == LET c == Rnd(k, j + 31) % 6
               IN  IF c = 0 THEN [i \in 1..4 |-> IF i = 1 + (Rnd(k, j + 32) % 4) THEN (IF Rnd(k, j + 33) % 2 = 0 THEN OneB ELSE FNegBits(OneB)) ELSE 0] ELSE UnitV(4, k, j)
Unit3(k, j) == IF Rnd(k, j + 31) % 6 = 0 THEN [i \in 1..4 |-> IF i = 1 + (Rnd(k, j + 32) % 3) THEN (IF Rnd(k, j + 33) % 2 = 0 THEN OneB ELSE FNegBits(OneB)) ELSE 0] ELSE UnitV(3, k, j)
J(v, n, k, j) == Junk(v, n, k, j)
NonZero3(v) == IF IsZero(v[1]) /\ IsZero(v[2]) /\ IsZero(v[3]) THEN <<OneB, v[2], v[3], v[4]>> ELSE v
\* an up direction not parallel to d: take d's lanes rotated and nudged off
Up(d, k, j) == LET u == NonZero3(Mod(k, j)) IN IF Rnd(k, j + 9) % 4 = 0 THEN (IF IsZero(d[1]) /\ IsZero(d[3]) THEN <<0, 0, OneB, 0>> ELSE <<0, OneB, 0, 0>>) ELSE u
Pos(k, j) == MagBits(IF Rnd(k, j) % 2 = 0 THEN F(1 + (Rnd(k, j + 1) % 40), 8) ELSE RndF(k, j + 1, -3, 6))
Sgn(b, k, j) == IF Rnd(k, j) % 8 = 0 THEN FNegBits(b) ELSE b
\* near and far distances clearly apart, sometimes reversed
NF(k) == LET n == Pos(k, 60)
             f == DF32(DAdd(DBits(n), DBits(Pos(k, 62))))
         IN  IF Rnd(k, 64) % 5 = 0 THEN <<f, n>> ELSE <<n, f>>
DistinctTo(b, k, j) == DF32(DAdd(DBits(b), DBits(Sgn(Pos(k, j), k, j + 2))))

\* ---------------------------------------------------------------- matrices to decompose
\* scale * rotation * translation, rounded to floats
SRT(k, j) ==
  LET q == IF Rnd(k, j + 70) % 8 = 0 THEN <<0, 0, 0, OneB>> ELSE UnitQ(k, j)
      e == EV(q)
      rm == EQMat(e)
      nq == EVal(EDot(e, e, 4))
      mode == Rnd(k, j + 71) % 10
      Deg(i) == \/ mode = 0 /\ i = 1 + (Rnd(k, j + 72) % 3)
                \/ mode = 1 /\ i # 1 + (Rnd(k, j + 72) % 3)
                \/ mode = 2
      s == <<1, 2, 3>>
      Sc(i) == LET b == IF Deg(i) THEN (IF Rnd(k, j + 80 + i) % 2 = 0 THEN 0 ELSE MagBits(RndF(k, j + 85 + i, -30, -15)))
                        ELSE MagBits(IF Rnd(k, j + 75) % 3 = 0 THEN F(1 + (Rnd(k, j + 76 + i) % 8), 4) ELSE RndF(k, j + 90 + i, -4, 4))
               IN  IF Rnd(k, j + 95 + i) % 4 = 0 THEN FNegBits(b) ELSE b
      sc == <<Sc(1), Sc(2), Sc(3)>>
      R(i) == <<DF32(DMul(DBits(sc[i]), EVal(rm[i][1]))), DF32(DMul(DBits(sc[i]), EVal(rm[i][2]))), DF32(DMul(DBits(sc[i]), EVal(rm[i][3]))), 0>>
      t == Mod(k, j + 3)
  IN  R(1) \o R(2) \o R(3) \o <<t[1], t[2], t[3], OneB>>
Uniform(k, j) == LET m == SRT(k, j) IN m
DecM(k) == LET c == Rnd(k, 1) % 8
           IN  CASE c = 0 -> Affine(k, 20)                                     \* usually sheared
                 [] c = 1 -> LET m == SRT(k, 10) IN [n \in 1..16 |-> IF n = 1 + (Rnd(k, 2) % 11) /\ n % 4 # 0 THEN DF32(DMul(DBits(m[n]), DDiv(DInt(9), DInt(4)))) ELSE m[n]]
                 [] OTHER -> SRT(k, 10)

Scen0(o, k) ==
  CASE o \in {"XMMatrixMultiply", "XMMatrixMultiplyTranspose"} -> MatG(k, 0) \o MatG(k, 10)
    [] o \in {"XMMatrixTranspose", "XMMatrixSet"} -> Rows(IF k % 2 = 0 THEN "word" ELSE "spec", k, 0)
    [] o = "XMMatrixDeterminant" -> MatG(k, 0)
    [] o \in {"XMMatrixInverse", "XMMatrixInverse(None)"} -> IF k % 6 = 0 THEN Singular(k, 0) ELSE MatG(k, 0)
    [] o = "XMMatrixVectorTensorProduct" -> VecA(k, 0) \o VecA(k, 1)
    [] o = "XMMatrixIdentity" -> <<>>
    [] o = "XMMatrixDecompose" -> DecM(k)
    [] o \in {"XMMatrixTranslation", "XMMatrixScaling"} -> SubSeq(VecA(k, 0), 1, 3)
    [] o \in {"XMMatrixTranslationFromVector", "XMMatrixScalingFromVector"} -> J(VecA(k, 0), 3, k, 0)
    [] o \in {"XMMatrixRotationX", "XMMatrixRotationY", "XMMatrixRotationZ"} -> <<Ang(k, 0)>>
    [] o = "XMMatrixRotationRollPitchYaw" -> <<Ang(k, 0), Ang(k, 10), Ang(k, 20)>>
    [] o = "XMMatrixRotationRollPitchYawFromVector" -> J(<<Ang(k, 0), Ang(k, 10), Ang(k, 20), 0>>, 3, k, 3)
    [] o = "XMMatrixRotationNormal" -> J(IF k % 4 = 0 THEN Mod(k, 1) ELSE Unit3(k, 1), 3, k, 1) \o <<Ang(k, 0)>>
    [] o = "XMMatrixRotationAxis" -> J(NonZero3(IF k % 4 = 0 THEN Unit3(k, 1) ELSE Mod(k, 1)), 3, k, 1) \o <<Ang(k, 0)>>
    [] o = "XMMatrixRotationQuaternion" -> IF k % 4 = 0 THEN Mod(k, 0) ELSE UnitQ(k, 0)
    [] o = "XMMatrixTransformation2D" -> J(Mod(k, 0), 2, k, 0) \o <<Ang(k, 30)>> \o J(Mod(k, 1), 2, k, 1) \o J(Mod(k, 2), 2, k, 2) \o <<Ang(k, 40)>> \o J(Mod(k, 3), 2, k, 3)
    [] o = "XMMatrixTransformation" -> J(Mod(k, 0), 3, k, 0) \o UnitQ(k, 1) \o J(Mod(k, 2), 3, k, 2) \o J(Mod(k, 3), 3, k, 3) \o UnitQ(k, 4) \o J(Mod(k, 5), 3, k, 5)
    [] o = "XMMatrixAffineTransformation2D" -> J(Mod(k, 0), 2, k, 0) \o J(Mod(k, 1), 2, k, 1) \o <<Ang(k, 30)>> \o J(Mod(k, 2), 2, k, 2)
    [] o = "XMMatrixAffineTransformation" -> J(Mod(k, 0), 3, k, 0) \o J(Mod(k, 1), 3, k, 1) \o UnitQ(k, 2) \o J(Mod(k, 3), 3, k, 3)
    [] o = "XMMatrixReflect" -> NonZero3(Mod(k, 0))
    [] o = "XMMatrixShadow" -> NonZero3(Mod(k, 0)) \o Mod(k, 1)
    [] o \in {"XMMatrixLookToLH", "XMMatrixLookToRH"} -> LET d == NonZero3(Mod(k, 1)) IN J(Mod(k, 0), 3, k, 0) \o J(d, 3, k, 1) \o J(Up(d, k, 2), 3, k, 2)
    [] o \in {"XMMatrixLookAtLH", "XMMatrixLookAtRH"} ->
         LET e == Mod(k, 0)
             f == Mod(k, 1)
             g == IF \A i \in 1..3 : DEq(DBits(e[i]), DBits(f[i])) THEN <<DF32(DAdd(DBits(e[1]), DInt(1))), f[2], f[3], f[4]>> ELSE f
         IN  J(e, 3, k, 0) \o J(g, 3, k, 1) \o J(Up(<<OneB, OneB, 0, 0>>, k, 2), 3, k, 2)
    [] o \in {"XMMatrixPerspectiveLH", "XMMatrixPerspectiveRH"} -> <<Sgn(Pos(k, 1), k, 5), Sgn(Pos(k, 3), k, 6)>> \o NF(k)
    [] o \in {"XMMatrixOrthographicLH", "XMMatrixOrthographicRH"} -> LET q == NF(k) IN <<Sgn(Pos(k, 1), k, 5), Sgn(Pos(k, 3), k, 6), Sgn(q[1], k, 7), q[2]>>
    [] o \in {"XMMatrixPerspectiveFovLH", "XMMatrixPerspectiveFovRH"} -> <<F(1 + (Rnd(k, 1) % 100), 32), Sgn(Pos(k, 3), k, 6)>> \o NF(k)
    [] o \in {"XMMatrixPerspectiveOffCenterLH", "XMMatrixPerspectiveOffCenterRH"} ->
         LET l == Mod(k, 2)[1]
             b == Mod(k, 2)[2] IN <<l, DistinctTo(l, k, 30), b, DistinctTo(b, k, 40)>> \o NF(k)
\* precondition: widths and depth ranges above 1e-5
NotSmall == {"XMMatrixPerspectiveLH", "XMMatrixPerspectiveRH", "XMMatrixOrthographicLH", "XMMatrixOrthographicRH", "XMMatrixPerspectiveFovLH", "XMMatrixPerspectiveFovRH",
             "XMMatrixPerspectiveOffCenterLH", "XMMatrixPerspectiveOffCenterRH"}
KindOf(o) ==
  CASE o = "XMMatrixDecompose" -> <<0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0, -1, 1, 1, 1, -1>>
    [] o \in {"XMMatrixRotationNormal"} -> KV(3, 0) \o <<-1>>
    [] o \in {"XMMatrixRotationAxis"} -> KV(3, 1) \o <<-1>>
    [] o = "XMMatrixRotationQuaternion" -> KN(4, 0)
    [] o = "XMMatrixTransformation2D" -> KV(2, 1) \o <<-1>> \o KV(2, 0) \o KV(2, 1) \o <<-1>> \o KV(2, 1)
    [] o = "XMMatrixTransformation" -> KV(3, 1) \o KN(4, 0) \o KV(3, 0) \o KV(3, 1) \o KN(4, 0) \o KV(3, 1)
    [] o = "XMMatrixAffineTransformation2D" -> KV(2, 0) \o KV(2, 1) \o <<-1>> \o KV(2, 1)
    [] o = "XMMatrixAffineTransformation" -> KV(3, 0) \o KV(3, 1) \o KN(4, 0) \o KV(3, 1)
    [] o = "XMMatrixReflect" -> KN(4, 1)
    [] o = "XMMatrixShadow" -> <<0, 0, 0, 1, 1, 1, 1, 0>>
    [] o \in {"XMMatrixLookToLH", "XMMatrixLookToRH"} -> KV(3, 1) \o KV(3, 1) \o KV(3, 0)
    [] o \in {"XMMatrixLookAtLH", "XMMatrixLookAtRH"} -> KV(3, 1) \o KV(3, 1) \o KV(3, 0)
    [] o \in {"XMMatrixPerspectiveLH", "XMMatrixPerspectiveRH", "XMMatrixOrthographicLH", "XMMatrixOrthographicRH"} -> KN(4, 1)
    [] o \in {"XMMatrixPerspectiveFovLH", "XMMatrixPerspectiveFovRH"} -> <<-1, -1, 1, 1>>
    [] o \in {"XMMatrixPerspectiveOffCenterLH", "XMMatrixPerspectiveOffCenterRH"} -> KN(6, 1)
    [] OTHER -> <<>>
Scen(o, k) == LET kd == KindOf(o)
                  a == Scen0(o, k) IN IF kd = <<>> THEN a ELSE Vary(a, kd, k, IF o \in NotSmall THEN 0 ELSE -14, 24)
=============================================================================
