------------------------------- MODULE GenVec -------------------------------
EXTENDS GenBase
With(ns, c) == [i \in 1..Len(ns) |-> <<ns[i], c>>]
Plan(p) ==
  LET m == 250 * GScale IN
  CASE p = "C15" -> With(<<"XMVector2Dot", "XMVector3Dot", "XMVector4Dot", "XMVector2Cross", "XMVector3Cross", "XMVector4Cross">>, 3 * m)
                    \o With(<<"XMVector2LengthSq", "XMVector3LengthSq", "XMVector4LengthSq", "XMQuaternionLengthSq", "XMQuaternionDot", "XMVectorSum">>, 2 * m)
    [] p = "C16" -> With(<<"XMVector2Length", "XMVector3Length", "XMVector4Length", "XMVector2ReciprocalLength", "XMVector3ReciprocalLength", "XMVector4ReciprocalLength",
                           "XMVector2Normalize", "XMVector3Normalize", "XMVector4Normalize",
                           "XMVector2ClampLength", "XMVector3ClampLength", "XMVector4ClampLength", "XMVector2ClampLengthV", "XMVector3ClampLengthV", "XMVector4ClampLengthV">>, 2 * m)
                    \o With(<<"XMQuaternionLength", "XMQuaternionReciprocalLength", "XMQuaternionNormalize">>, m)
    [] p = "C12" -> With(<<"XMVector2LengthEst", "XMVector3LengthEst", "XMVector4LengthEst", "XMVector2ReciprocalLengthEst", "XMVector3ReciprocalLengthEst", "XMVector4ReciprocalLengthEst",
                           "XMVector2NormalizeEst", "XMVector3NormalizeEst", "XMVector4NormalizeEst", "XMQuaternionNormalizeEst",
                           "XMVector2AngleBetweenNormalsEst", "XMVector3AngleBetweenNormalsEst", "XMVector4AngleBetweenNormalsEst">>, m)
    [] p = "C23" -> With(<<"XMQuaternionNormalize", "XMVector3Rotate", "XMVector3InverseRotate">>, m)
    [] p = "C17" -> With(<<"XMVector2Reflect", "XMVector3Reflect", "XMVector4Reflect", "XMVector2Refract", "XMVector3Refract", "XMVector4Refract",
                           "XMVector2RefractV", "XMVector3RefractV", "XMVector4RefractV", "XMVector2Orthogonal", "XMVector3Orthogonal", "XMVector4Orthogonal",
                           "XMVector2AngleBetweenNormals", "XMVector3AngleBetweenNormals", "XMVector4AngleBetweenNormals",
                           "XMVector2AngleBetweenVectors", "XMVector3AngleBetweenVectors", "XMVector4AngleBetweenVectors",
                           "XMVector2LinePointDistance", "XMVector3LinePointDistance", "XMVector3ComponentsFromNormal", "XMFresnelTerm">>, m)
                    \o With(<<"XMVector2IntersectLine">>, 2 * m)
    [] p = "C18" -> With(<<"XMVectorLerp", "XMVectorLerpV", "XMVectorHermite", "XMVectorHermiteV", "XMVectorCatmullRom", "XMVectorCatmullRomV", "XMVectorBaryCentric", "XMVectorBaryCentricV">>, 3 * m)
    [] p = "C19" -> With(<<"XMVector2Transform", "XMVector3Transform", "XMVector4Transform", "XMVector2TransformCoord", "XMVector3TransformCoord",
                           "XMVector2TransformNormal", "XMVector3TransformNormal", "XMVector3Rotate", "XMVector3InverseRotate">>, 2 * m)
                    \o With(<<"XMVector3Project", "XMVector3Unproject">>, m)
\* a vector whose lanes share a magnitude 2^s, s drawn from a wide range
Scaled(v, k, j) == LET s == (Rnd(k, j) % 221) - 110 IN [i \in 1..4 |-> DF32(DMul(DBits(v[i]), DPow2(s)))]
Geo(k, j) == LET c == Rnd(k, j) % 15
             IN  CASE c \in {0, 1, 2} -> VecM("mod", k, j)
                   [] c \in {3, 4} -> VecM("lat", k, j)
                   [] c = 5 -> VecM("int", k, j)
                   [] c = 6 -> Scaled(VecM("mod", k, j), k, j + 5)
                   [] c = 7 -> VecM("wide", k, j)
                   [] c = 8 -> [i \in 1..4 |-> IF Rnd(k, j + 50 + i) % 2 = 0 THEN 0 ELSE Lane("lat", k, 16 * j + i)]      \* axis-like
                   [] c = 9 -> VecM("mix1", k, j)
                   [] c = 10 -> VecM("dict", k, j)
                   [] c = 11 -> VecM("fin", k, j)
                   [] OTHER -> NearUnit(c - 10, k, j)
Dim(o) == CASE o \in {"XMVector2Dot", "XMVector2Cross", "XMVector2LengthSq", "XMVector2Length", "XMVector2ReciprocalLength", "XMVector2LengthEst", "XMVector2ReciprocalLengthEst",
                      "XMVector2Normalize", "XMVector2NormalizeEst", "XMVector2ClampLength", "XMVector2ClampLengthV", "XMVector2Reflect", "XMVector2Refract", "XMVector2RefractV", "XMVector2Orthogonal",
                      "XMVector2AngleBetweenNormals", "XMVector2AngleBetweenNormalsEst", "XMVector2AngleBetweenVectors", "XMVector2LinePointDistance", "XMVector2IntersectLine",
                      "XMVector2Transform", "XMVector2TransformCoord", "XMVector2TransformNormal"} -> 2
            [] o \in {"XMVector3Dot", "XMVector3Cross", "XMVector3LengthSq", "XMVector3Length", "XMVector3ReciprocalLength", "XMVector3LengthEst", "XMVector3ReciprocalLengthEst",
                      "XMVector3Normalize", "XMVector3NormalizeEst", "XMVector3ClampLength", "XMVector3ClampLengthV", "XMVector3Reflect", "XMVector3Refract", "XMVector3RefractV", "XMVector3Orthogonal",
                      "XMVector3AngleBetweenNormals", "XMVector3AngleBetweenNormalsEst", "XMVector3AngleBetweenVectors", "XMVector3LinePointDistance", "XMVector3ComponentsFromNormal",
                      "XMVector3Transform", "XMVector3TransformCoord", "XMVector3TransformNormal", "XMVector3Rotate", "XMVector3InverseRotate", "XMVector3Project", "XMVector3Unproject"} -> 3
            [] OTHER -> 4
J(v, o, k, j) == Junk(v, Dim(o), k, j)
\* the second vector related to the first: equal, opposite, parallel, perpendicular-ish or independent
Rel(x, k, j) == LET c == Rnd(k, j + 3) % 9
                IN  CASE c = 0 -> x
                      [] c = 1 -> [i \in 1..4 |-> FNegBits(x[i])]
                      [] c = 2 -> NudgeV(x, k, j)
                      [] c = 4 -> JitV(x, k, j)
                      [] c = 5 -> JitV(<<FNegBits(x[2]), x[1], FNegBits(x[4]), x[3]>>, k, j)
                      [] c = 3 -> <<FNegBits(x[2]), x[1], FNegBits(x[4]), x[3]>>
                      [] OTHER -> Geo(k, j)
Mod(k, j) == VecM(<<"mod", "lat", "int", "mod", "dict", "msp">>[1 + (Rnd(k, j) % 6)], k, j)
Safe(v) == [i \in 1..4 |-> IF IsFin(v[i]) /\ MagBits(v[i]) < F(1048576, 1) THEN v[i] ELSE OneB]
ModS(k, j) == Safe(Mod(k, j))
Unit(n, k, j) == IF Rnd(k, j + 31) % 6 = 0 THEN [i \in 1..4 |-> IF i = 1 + (Rnd(k, j + 32) % n) THEN (IF Rnd(k, j + 33) % 2 = 0 THEN OneB ELSE FNegBits(OneB)) ELSE 0] ELSE UnitV(n, k, j)
Lims(v, n, k) ==                     \* limits around the vector's own length, or arbitrary
  LET s == NormV(v, n)
      c == Rnd(k, 41) % 8
      a == MagBits(Lane("mod", k, 42))
      b == MagBits(Lane(<<"mod", "lat", "wide">>[1 + (Rnd(k, 45) % 3)], k, 43))
      z == IF c = 0 THEN 0 ELSE a
      h == IF c = 1 THEN PInf ELSE b
  IN  IF z <= h THEN <<z, h>> ELSE <<h, z>>
FiniteV(v) == [i \in 1..4 |-> IF IsFin(v[i]) THEN v[i] ELSE 0]
TParam(k, j) == LET c == Rnd(k, j) % 10
                IN  CASE c = 0 -> 0 [] c = 1 -> OneB [] c = 2 -> Lane("unit", k, j) [] c = 3 -> Lane("lat", k, j) [] c = 4 -> Lane("mod", k, j) [] c = 5 -> F(Rnd(k, j + 1) % 100, 100) [] c = 6 -> Nudge(Lane("unit", k, j), k, j)
                      [] c = 7 -> JitF(JitE(k, j), Rnd(k, j + 1) % 2) [] c = 8 -> F(IF Rnd(k, j + 1) % 2 = 0 THEN 1 ELSE -1, 2 ^ JitE(k, j))
                      [] c = 9 -> Pick(<<FNegBits(0), 1, 562036736, F(1048576, 1), F(-1048576, 1), F(1001, 1), FNegBits(OneB), 8388608>>, k, j + 1)
TVec(k) == [i \in 1..4 |-> TParam(k, 600 + 20 * i)]
Rows(mode, k, j) == VecM(mode, k, j) \o VecM(mode, k, j + 1) \o VecM(mode, k, j + 2) \o VecM(mode, k, j + 3)
Zs == <<0, 0, 0, 0>>
\* affine matrix: last column 0 0 0 1
Affine(k, j) == LET m == <<"mod", "lat", "unit", "int">>[1 + (Rnd(k, j) % 4)]
                    A(i) == LET v == VecM(m, k, j + i) IN <<v[1], v[2], v[3], 0>>
                IN  A(0) \o A(1) \o A(2) \o (LET v == VecM(m, k, j + 3) IN <<v[1], v[2], v[3], OneB>>)
MatG(k, j) == LET c == Rnd(k, j) % 9
              IN  CASE c = 0 -> Affine(k, j) [] c = 1 -> Rows("lat", k, j) [] c = 2 -> Rows("int", k, j) [] c = 3 -> Rows("dict", k, j) [] c = 4 -> NearId(k, j) [] c = 5 -> JitV(NearId(k, j), k, j) [] c = 6 -> UnitRows(k, j) [] OTHER -> Rows("mod", k, j)
JunkRow(k, j) == VecM(IF k % 2 = 0 THEN "spec" ELSE "word", k, j)
\* matrix with unread rows filled with junk
MatFor(o, k) == LET m == MatG(k, 20)
                    r1 == SubSeq(m, 1, 4)
                    r2 == SubSeq(m, 5, 8)
                    r3 == SubSeq(m, 9, 12)
                    r4 == SubSeq(m, 13, 16)
                IN  CASE o \in {"XMVector2Transform", "XMVector2TransformCoord"} -> r1 \o r2 \o JunkRow(k, 33) \o r4
                      [] o = "XMVector2TransformNormal" -> r1 \o r2 \o JunkRow(k, 33) \o JunkRow(k, 34)
                      [] o = "XMVector3TransformNormal" -> r1 \o r2 \o r3 \o JunkRow(k, 34)
                      [] OTHER -> m
\* a well-behaved world or view matrix: scaled axes, sheared a little, translated
Nice(k, j) == LET s == [i \in 1..3 |-> F(1 + (Rnd(k, j + i) % 8), 2)]
                  g == [i \in 1..3 |-> IF Rnd(k, j + 10 + i) % 2 = 0 THEN s[i] ELSE FNegBits(s[i])]
                  h == F((Rnd(k, j + 20) % 9) - 4, 4)
                  t == VecM("lat", k, j)
              IN  (IF Rnd(k, j + 30) % 2 = 0 THEN <<g[1], h, 0, 0>> \o <<0, g[2], 0, 0>> \o <<0, 0, g[3], 0>> ELSE <<0, g[1], 0, 0>> \o <<0, h, g[2], 0>> \o <<g[3], 0, 0, 0>>)
                  \o <<t[1], t[2], t[3], OneB>>
Persp(k, j) == LET w == F(1 + (Rnd(k, j) % 6), 2)
                   h == F(1 + (Rnd(k, j + 1) % 6), 2)
                   q == F(5 + (Rnd(k, j + 2) % 8), 4)
                   n == F(1 + (Rnd(k, j + 3) % 8), 4)
               IN  IF Rnd(k, j + 4) % 4 = 0 THEN Nice(k, j)
                   ELSE <<w, 0, 0, 0>> \o <<0, h, 0, 0>> \o <<0, 0, q, OneB>> \o <<0, 0, FNegBits(n), 0>>
\* identities, scales and translations keep the bounds of a projection tight
Plain(k, j) == LET x == [i \in 1..3 |-> F(1 + (Rnd(k, j + i) % 4), 2)]
                   t == IF Rnd(k, j + 5) % 2 = 0 THEN <<0, 0, 0>> ELSE [i \in 1..3 |-> F((Rnd(k, j + 6 + i) % 33) - 16, 4)]
               IN  IF Rnd(k, j + 4) % 3 = 0 THEN <<OneB, 0, 0, 0, 0, OneB, 0, 0, 0, 0, OneB, 0, 0, 0, 0, OneB>>
                   ELSE <<x[1], 0, 0, 0, 0, x[2], 0, 0, 0, 0, x[3], 0, t[1], t[2], t[3], OneB>>
PVW(k) == IF k % 3 = 0 THEN (IF k % 2 = 0 THEN Plain(k, 10) ELSE Persp(k, 10)) \o Plain(k, 40) \o Plain(k, 60) ELSE Persp(k, 10) \o Nice(k, 15) \o Nice(k, 25)
View6(k) == <<F((Rnd(k, 1) % 200) - 100, 1), F((Rnd(k, 2) % 200) - 100, 1), F(1 + (Rnd(k, 3) % 1920), 1), F(1 + (Rnd(k, 4) % 1080), 1), F(Rnd(k, 5) % 3, 4), F(3 + (Rnd(k, 6) % 3), 4)>>
Line(k) ==                            \* four points of two lines: generic, parallel, coincident
  LET p == Safe(VecM(<<"lat", "int", "mod">>[1 + (k % 3)], k, 1))
      d == Safe(VecM(<<"int", "int", "mod">>[1 + (k % 3)], k, 2))
      q == Safe(VecM(<<"lat", "int", "mod">>[1 + (k % 3)], k, 3))
      A(u, w) == [i \in 1..4 |-> DF32(DAdd(DBits(u[i]), DBits(w[i])))]
      S(u, n) == [i \in 1..4 |-> DF32(DMul(DBits(u[i]), DInt(n)))]
      c == Rnd(k, 4) % 4
      n1 == 1 + (Rnd(k, 5) % 3)
      n2 == (Rnd(k, 6) % 7) - 3
  IN  CASE c = 0 -> <<p, A(p, d), q, A(q, S(d, n1))>>
        [] c = 1 -> <<p, A(p, d), A(p, S(d, n2)), A(p, S(d, n2 + n1))>>
        [] OTHER -> <<p, A(p, d), q, Safe(VecM("lat", k, 9))>>

Scen0(o, k) ==
  CASE o \in {"XMVector2Dot", "XMVector3Dot", "XMVector4Dot", "XMVector2Cross", "XMVector3Cross", "XMQuaternionDot"} -> LET x == Geo(k, 0) IN J(x, o, k, 0) \o J(Rel(x, k, 1), o, k, 1)
    [] o = "XMVector4Cross" -> LET x == Geo(k, 0) IN x \o Rel(x, k, 1) \o Geo(k, 2)
    [] o = "XMVectorSum" -> Geo(k, 0)
    [] o \in {"XMVector2LengthSq", "XMVector3LengthSq", "XMVector4LengthSq", "XMQuaternionLengthSq", "XMVector2Length", "XMVector3Length", "XMVector4Length", "XMQuaternionLength",
              "XMVector2ReciprocalLength", "XMVector3ReciprocalLength", "XMVector4ReciprocalLength", "XMQuaternionReciprocalLength",
              "XMVector2Normalize", "XMVector3Normalize", "XMVector4Normalize", "XMQuaternionNormalize",
              "XMVector2LengthEst", "XMVector3LengthEst", "XMVector4LengthEst", "XMVector2ReciprocalLengthEst", "XMVector3ReciprocalLengthEst", "XMVector4ReciprocalLengthEst",
              "XMVector2NormalizeEst", "XMVector3NormalizeEst", "XMVector4NormalizeEst", "XMQuaternionNormalizeEst"} ->
         J(IF k % 17 = 0 THEN Zs ELSE Geo(k, 0), o, k, 0)
    [] o \in {"XMVector2Orthogonal", "XMVector3Orthogonal", "XMVector4Orthogonal"} -> J(Geo(k, 0), o, k, 0)
    [] o \in {"XMVector2ClampLength", "XMVector3ClampLength", "XMVector4ClampLength", "XMVector2ClampLengthV", "XMVector3ClampLengthV", "XMVector4ClampLengthV"} ->
         LET n == Dim(o)
             v == FiniteV(IF k % 19 = 0 THEN Zs ELSE Geo(k, 0))
             b == Lims(v, n, k)
             \* sometimes limits right next to the length
             q == [i \in 1..4 |-> DBits(v[i])]
             s == DAdd(DAdd(DMul(q[1], q[1]), DMul(q[2], q[2])), DAdd(IF n >= 3 THEN DMul(q[3], q[3]) ELSE DInt(0), IF n >= 4 THEN DMul(q[4], q[4]) ELSE DInt(0)))
             l == MagBits(DF32(DSqrt(s)))
             near == IF l > 100 /\ l < FltMaxBits - 100 THEN (IF Rnd(k, 47) % 2 = 0 THEN <<0, l + (Rnd(k, 48) % 41) - 20>> ELSE <<l + (Rnd(k, 48) % 41) - 20, PInf>>) ELSE b
             lm == IF k % 5 = 0 THEN near ELSE b
         IN  IF o \in {"XMVector2ClampLength", "XMVector3ClampLength", "XMVector4ClampLength"} THEN J(v, o, k, 0) \o lm
             ELSE J(v, o, k, 0) \o <<lm[1], lm[1], lm[1], lm[1]>> \o <<lm[2], lm[2], lm[2], lm[2]>>
    [] o \in {"XMVector2Reflect", "XMVector3Reflect", "XMVector4Reflect", "XMVector3ComponentsFromNormal"} ->
         J(ModS(k, 0), o, k, 0) \o J(IF k % 3 = 0 THEN ModS(k, 1) ELSE Unit(Dim(o), k, 1), o, k, 1)
    [] o \in {"XMVector3Refract", "XMVector4Refract", "XMVector3RefractV", "XMVector4RefractV"} /\ k % 11 = 5 ->
         LET c == Rnd(k, 71) % 3
             I(j) == IF j = 1 + c THEN (IF Rnd(k, 72) % 2 = 0 THEN OneB ELSE FNegBits(OneB)) ELSE IF j > Dim(o) THEN 0 ELSE (IF Rnd(k, 73) % 2 = 0 THEN 0 ELSE FNegBits(0))
             N(j) == IF j = 1 + ((c + 1) % 3) THEN (IF Rnd(k, 74) % 2 = 0 THEN OneB ELSE FNegBits(OneB)) ELSE 0
         IN  J(<<I(1), I(2), I(3), I(4)>>, o, k, 0) \o J(<<N(1), N(2), N(3), N(4)>>, o, k, 1) \o (IF o \in {"XMVector3RefractV", "XMVector4RefractV"} THEN <<OneB, OneB, OneB, OneB>> ELSE <<OneB>>)
    [] o \in {"XMVector2Refract", "XMVector3Refract", "XMVector4Refract"} -> J(Unit(Dim(o), k, 0), o, k, 0) \o J(Unit(Dim(o), k, 1), o, k, 1) \o <<F(1 + (Rnd(k, 7) % 40), 16)>>
    [] o \in {"XMVector2RefractV", "XMVector3RefractV", "XMVector4RefractV"} ->
         LET x == F(1 + (Rnd(k, 7) % 40), 16)
             E(i) == IF k % 2 = 0 THEN x ELSE F(1 + (Rnd(k, 70 + i) % 40), 16)
         IN  J(Unit(Dim(o), k, 0), o, k, 0) \o J(Unit(Dim(o), k, 1), o, k, 1) \o <<E(1), E(2), E(3), E(4)>>
    [] o \in {"XMVector2AngleBetweenNormals", "XMVector3AngleBetweenNormals", "XMVector4AngleBetweenNormals",
              "XMVector2AngleBetweenNormalsEst", "XMVector3AngleBetweenNormalsEst", "XMVector4AngleBetweenNormalsEst"} ->
         LET x == Unit(Dim(o), k, 0) IN J(x, o, k, 0) \o J(IF k % 4 = 0 THEN Rel(x, k, 1) ELSE Unit(Dim(o), k, 1), o, k, 1)
    [] o \in {"XMVector2AngleBetweenVectors", "XMVector3AngleBetweenVectors", "XMVector4AngleBetweenVectors"} -> LET x == ModS(k, 0) IN J(x, o, k, 0) \o J(IF k % 3 = 0 THEN Rel(x, k, 1) ELSE ModS(k, 1), o, k, 1)
    [] o \in {"XMVector2LinePointDistance", "XMVector3LinePointDistance"} -> J(ModS(k, 0), o, k, 0) \o J(ModS(k, 1), o, k, 1) \o J(ModS(k, 2), o, k, 2)
    [] o = "XMVector2IntersectLine" -> LET l == Line(k) IN J(l[1], o, k, 0) \o J(l[2], o, k, 1) \o J(l[3], o, k, 2) \o J(l[4], o, k, 3)
    [] o = "XMFresnelTerm" -> [i \in 1..4 |-> MagBits(Lane("unit", k, i))] \o [i \in 1..4 |-> F(16 + (Rnd(k, 30 + i) % 40), 16)]
    [] o = "XMVectorLerp" -> LET x == Geo(k, 0) IN x \o Rel(x, k, 1) \o <<TParam(k, 9)>>
    [] o = "XMVectorLerpV" -> LET x == Geo(k, 0) IN x \o Rel(x, k, 1) \o TVec(k)
    [] o \in {"XMVectorHermite", "XMVectorCatmullRom"} -> Mod(k, 0) \o Mod(k, 1) \o Mod(k, 2) \o Mod(k, 3) \o <<TParam(k, 9)>>
    [] o \in {"XMVectorHermiteV", "XMVectorCatmullRomV"} -> Mod(k, 0) \o Mod(k, 1) \o Mod(k, 2) \o Mod(k, 3) \o TVec(k)
    [] o = "XMVectorBaryCentric" -> Mod(k, 0) \o Mod(k, 1) \o Mod(k, 2) \o <<TParam(k, 9), TParam(k, 29)>>
    [] o = "XMVectorBaryCentricV" -> Mod(k, 0) \o Mod(k, 1) \o Mod(k, 2) \o TVec(k) \o TVec(k + 7)
    [] o \in {"XMVector2Transform", "XMVector3Transform", "XMVector2TransformCoord", "XMVector3TransformCoord", "XMVector2TransformNormal", "XMVector3TransformNormal"} ->
         J(Mod(k, 0), o, k, 0) \o MatFor(o, k)
    [] o = "XMVector4Transform" -> Mod(k, 0) \o MatG(k, 20)
    [] o \in {"XMVector3Rotate", "XMVector3InverseRotate"} -> J(Mod(k, 0), o, k, 0) \o (IF k % 5 = 0 THEN Mod(k, 1) ELSE UnitV(4, k, 1))
    [] o = "XMVector3Project" -> J(ModS(k, 0), o, k, 0) \o View6(k) \o PVW(k)
    [] o = "XMVector3Unproject" -> J([i \in 1..4 |-> F((Rnd(k, 70 + i) % 2000) - 200, IF i = 3 THEN 1600 ELSE 1)], o, k, 0) \o View6(k) \o PVW(k)
KindOf(o) ==
  LET d == Dim(o) IN
  CASE o \in {"XMVector2Reflect", "XMVector3Reflect", "XMVector4Reflect", "XMVector3ComponentsFromNormal"} -> KV(d, 1) \o KV(d, 0)
    [] o \in {"XMVector2AngleBetweenVectors", "XMVector3AngleBetweenVectors", "XMVector4AngleBetweenVectors"} -> KV(d, 1) \o KV(d, 1)
    [] o \in {"XMVector2Refract", "XMVector3Refract", "XMVector4Refract"} -> KV(d, 0) \o KV(d, 0) \o <<-1>>
    [] o \in {"XMVector2RefractV", "XMVector3RefractV", "XMVector4RefractV"} -> KV(d, 0) \o KV(d, 0) \o KV(0, 0)
    [] o \in {"XMVector2AngleBetweenNormals", "XMVector3AngleBetweenNormals", "XMVector4AngleBetweenNormals",
              "XMVector2AngleBetweenNormalsEst", "XMVector3AngleBetweenNormalsEst", "XMVector4AngleBetweenNormalsEst"} -> KV(d, 0) \o KV(d, 0)
    [] o \in {"XMVector2LinePointDistance", "XMVector3LinePointDistance"} -> KV(d, 1) \o KV(d, 1) \o KV(d, 1)
    [] o = "XMVector2IntersectLine" -> KV(2, 1) \o KV(2, 1) \o KV(2, 1) \o KV(2, 1)
    [] o \in {"XMVector3Project", "XMVector3Unproject"} -> KV(3, 0) \o KN(6, -1) \o KN(48, 0)
    [] OTHER -> <<>>
Scen(o, k) == LET kd == KindOf(o)
                  a == Scen0(o, k) IN IF kd = <<>> THEN a ELSE Vary(a, kd, k, -24, 24)
=============================================================================
