-------------------------------- MODULE Vec --------------------------------
(***************************************************************************)
(* Geometry of 2D, 3D and 4D vectors: products, lengths, normalization,    *)
(* reflection and refraction, angles, lines, interpolation, transforms.    *)
(***************************************************************************)
EXTENDS EGeom, Elem

K == 4                        \* running-error multiples allowed
\* the dimension an operation works in
Dim(o) == CASE o \in {"XMVector2Dot", "XMVector2LengthSq", "XMVector2Length", "XMVector2ReciprocalLength", "XMVector2LengthEst", "XMVector2ReciprocalLengthEst",
                      "XMVector2Normalize", "XMVector2NormalizeEst", "XMVector2ClampLength", "XMVector2ClampLengthV", "XMVector2Reflect", "XMVector2Refract", "XMVector2RefractV",
                      "XMVector2AngleBetweenNormals", "XMVector2AngleBetweenNormalsEst", "XMVector2AngleBetweenVectors", "XMVector2LinePointDistance"} -> 2
            [] o \in {"XMVector3Dot", "XMVector3LengthSq", "XMVector3Length", "XMVector3ReciprocalLength", "XMVector3LengthEst", "XMVector3ReciprocalLengthEst",
                      "XMVector3Normalize", "XMVector3NormalizeEst", "XMVector3ClampLength", "XMVector3ClampLengthV", "XMVector3Reflect", "XMVector3Refract", "XMVector3RefractV",
                      "XMVector3AngleBetweenNormals", "XMVector3AngleBetweenNormalsEst", "XMVector3AngleBetweenVectors", "XMVector3LinePointDistance"} -> 3
            [] OTHER -> 4
Same4(r) == \A i \in 2..4 : r[i] = r[1] \/ (IsNaN(r[i]) /\ IsNaN(r[1]))
Splatted(r, x) == Same4(r) /\ EOk(r[1], x, K)
LanesOk(r, x, n) == \A i \in 1..n : EOk(r[i], x[i], K)
AllZero(v, n) == \A i \in 1..n : IsZero(v[i])
SomeNaN(v, n) == \E i \in 1..n : IsNaN(v[i])
SomeInf(v, n) == \E i \in 1..n : IsInf(v[i])
Same3(x) == x
\* length squared comfortably inside the float range
Comfy(x, n) == LET d == EDot(x, x, n) IN EIsNum(d) /\ DLt(DPow2(-100), EVal(d)) /\ DLt(EVal(d), DPow2(100))
EstRel == DDiv(DInt(3), DInt(8192))            \* 1.5 * 2^-12

LengthOk(r, v, n) ==
  IF SomeNaN(v, n) THEN Same4(r) /\ IsNaN(r[1])
  ELSE IF SomeInf(v, n) THEN Same4(r) /\ r[1] = PInf
  ELSE IF AllZero(v, n) THEN Same4(r) /\ IsZero(r[1])
  ELSE Splatted(r, ELen(EV(v), n))
RecipOk(r, v, n) ==
  IF SomeNaN(v, n) THEN Same4(r) /\ IsNaN(r[1])
  ELSE IF SomeInf(v, n) THEN Same4(r) /\ IsZero(r[1])
  ELSE IF AllZero(v, n) THEN Same4(r) /\ r[1] = PInf
  ELSE Splatted(r, EDiv(EOne, ELen(EV(v), n)))
NormalizeOk(r, v, n) ==
  IF SomeNaN(v, n) \/ SomeInf(v, n) THEN \A i \in 1..n : IsNaN(r[i])
  ELSE IF AllZero(v, n) THEN AllZero(r, n)
  ELSE LET x == EV(v)
           l == ELen(x, n)
       IN  \A i \in 1..n : EOk(r[i], EDiv(x[i], l), K)
Widen(x, rel) == IF EIsNum(x) THEN EWiden(x, DMul(EVal(x), rel)) ELSE x
LengthEstOk(r, v, n) == LET x == EV(v) IN Comfy(x, n) => Splatted(r, Widen(ELen(x, n), EstRel))
RecipEstOk(r, v, n) == LET x == EV(v) IN Comfy(x, n) => Splatted(r, Widen(EDiv(EOne, ELen(x, n)), EstRel))
NormEstOk(r, v, n) == LET x == EV(v)
                          l == ELen(x, n)
                      IN  Comfy(x, n) => \A i \in 1..n : EOk(r[i], Widen(EDiv(x[i], l), EstRel), K)
\* limits lo <= hi (hi may be infinite)
ClampLenOk(r, v, lo, hi, n) ==
  IF SomeNaN(v, n) \/ SomeInf(v, n) THEN TRUE
  ELSE IF AllZero(v, n) THEN AllZero(r, n)
  ELSE LET x == EV(v)
           l == ELen(x, n)
           e == DMul(DInt(4), EErr(l))
           Keep == \A i \in 1..n : r[i] = v[i]
           To(b) == \A i \in 1..n : EOk(r[i], EMul(EDiv(x[i], l), EBits(b)), K)
           Below(b) == b # PInf /\ DLt(DAdd(DBits(b), e), EVal(l))      \* clearly longer than b
           Above(b) == b = PInf \/ DLt(DAdd(EVal(l), e), DBits(b))      \* clearly shorter than b
       IN  IF ~EIsNum(l) THEN TRUE
           ELSE IF Below(hi) THEN To(hi)
           ELSE IF lo = PInf THEN TRUE
           ELSE IF Above(lo) /\ ~IsZero(lo) THEN To(lo)
           ELSE IF Above(hi) /\ (IsZero(lo) \/ Below(lo)) THEN Keep
           ELSE Keep \/ To(lo) \/ To(hi)
ReflectOk(r, a, n) == LET i == EV(V(a, 0))
                          m == EV(V(a, 1))
                          d == EMul(ETwo, EDot(i, m, n))
                      IN  \A j \in 1..n : EOk(r[j], ESub(i[j], EMul(d, m[j])), K)
\* one refraction index per lane; a lane that reflects totally gives zero, in three and four dimensions only
\* when every lane does (a mixture leaves the reflecting lanes undefined)
RefractOk(r, iv, nv, xv, n) ==
  LET i == EV(iv)
      m == EV(nv)
      d == EDot(i, m, n)
      x == T4(LAMBDA j : EBits(xv[j]))
      q == T4(LAMBDA j : ESub(EOne, EMul(EMul(x[j], x[j]), ESub(EOne, EMul(d, d)))))
      Tir(j) == EIsNum(q[j]) /\ DSign(EVal(q[j])) < 0 /\ DLt(DMul(DInt(4), EErr(q[j])), DNeg(EVal(q[j])))
      Pos(j) == EIsNum(q[j]) /\ DLt(DMul(DInt(4), EErr(q[j])), EVal(q[j]))
      AllTir == \A j \in 1..4 : Tir(j)
      \* exactly grazing at index one: nothing is refracted (two dimensions: either answer)
      Grazing == n > 2 /\ (\A j \in 1..4 : xv[j] = OneB) /\ \A j \in 1..n : IsZero(iv[j]) \/ IsZero(nv[j])
  IN  (Grazing => \A j \in 1..n : IsZero(r[j])) /\
      \A j \in 1..n : IF Tir(j) THEN (n = 2 \/ AllTir) => IsZero(r[j])
                     ELSE Pos(j) => EOk(r[j], ESub(EMul(x[j], i[j]), EMul(m[j], EAdd(EMul(x[j], d), ESqrt(q[j])))), K)
\* r is an angle in [0, pi] whose cosine is c (clamped to [-1, 1]), up to slack e on the cosine and on the range
AngleOk(r, c, e) ==
  IF ~EIsNum(c) THEN TRUE
  ELSE /\ Same4(r) /\ IsFin(r[1])
       /\ LET x == DBits(r[1])
              v == DMax(DInt(-1), DMin(DInt(1), EVal(c)))
          IN  /\ DLe(DNeg(e), x) /\ DLe(x, DAdd(Pi, e))
              /\ DLe(DAbs(DSub(Cos(x), v)), DAdd(e, DMul(DInt(4), EErr(c))))
CosBetween(x, y, n) == EMul(EDot(x, y, n), EMul(EDiv(EOne, ELen(x, n)), EDiv(EOne, ELen(y, n))))
LineDistOk(r, a, n) ==
  LET p == EV(V(a, 0))
      l == EVSub(EV(V(a, 1)), p)
      w == EVSub(EV(V(a, 2)), p)
      t == EDiv(EDot(w, l, n), EDot(l, l, n))
      d == EVSub(w, EVScale(l, t))
      q == EDot(d, d, n)
      tol == DMul(DInt(8), EErr(q))
  IN  IF ~EIsNum(q) THEN TRUE
      ELSE Same4(r) /\ IsFin(r[1]) /\ ~IsNeg(r[1]) /\ DLe(DAbs(DSub(DMul(DBits(r[1]), DBits(r[1])), EVal(q))), DAdd(tol, DMul(EVal(q), DPow2(-20))))
Eps2 == DPow2(-22)
IntersectOk(r, a) ==
  LET p == EV(V(a, 0))
      v1 == EVSub(EV(V(a, 1)), p)
      v2 == EVSub(EV(V(a, 3)), EV(V(a, 2)))
      v3 == EVSub(p, EV(V(a, 2)))
      c1 == ECross2(v1, v2)
      c2 == ECross2(v2, v3)
      Clear(c) == DLt(DAdd(Eps2, DMul(DInt(4), EErr(c))), DAbs(EVal(c)))
      Null(c) == DSign(EVal(c)) = 0 /\ DLt(EErr(c), DPow2(-25))
  IN  IF ~EIsNum(c1) \/ ~EIsNum(c2) THEN TRUE
      ELSE IF Clear(c1) THEN LET s == EDiv(c2, c1) IN \A j \in 1..2 : EOk(r[j], EAdd(p[j], EMul(v1[j], s)), 2 * K)
      ELSE IF Null(c1) /\ Null(c2) THEN r[1] = PInf /\ r[2] = PInf
      ELSE IF Null(c1) /\ Clear(c2) THEN IsNaN(r[1]) /\ IsNaN(r[2])
      ELSE TRUE
\* the generalized 4D cross product: cofactor expansion of | e ; v1 ; v2 ; v3 |
Cross4Val(x, y, z) == <<EDet3(x, y, z, 2, 3, 4), ENeg(EDet3(x, y, z, 1, 3, 4)), EDet3(x, y, z, 1, 2, 4), ENeg(EDet3(x, y, z, 1, 2, 3))>>
Orth3Ok(r, v) ==
  LET x == EV(v)
      y == EV(r)
      q == EDot(x, x, 3)
      d == EDot(x, y, 3)
  IN  IF ~EIsNum(q) \/ DLt(DPow2(120), EVal(q)) \/ DLt(EVal(q), DPow2(-80)) THEN TRUE
      ELSE /\ \A i \in 1..3 : IsFin(r[i])
           /\ DLe(DAbs(EVal(d)), DMul(EVal(q), DPow2(-21)))
           /\ DLe(DMul(EVal(q), DPow2(-2)), EVal(EDot(y, y, 3)))
FresnelLane(r, cb, nb) ==
  LET c == EBits(cb)
      n == EBits(nb)
      g == ESqrt(ESum3(EMul(n, n), ENeg(EOne), EMul(c, c)))
      s == EAdd(g, c)
      d == ESub(g, c)
      t1 == EDiv(EHalf(ESq(d)), ESq(s))
      t2 == EAdd(EDiv(ESq(ESub(EMul(c, s), EOne)), ESq(EAdd(EMul(c, d), EOne))), EOne)
      f == EMul(t1, t2)
  IN  IF EIsNum(f) THEN EOk(r, EMk(DMax(DInt(0), DMin(DInt(1), EVal(f))), EErr(f)), K) ELSE IsNaN(r) \/ (IsFin(r) /\ DLe(DInt(0), DBits(r)) /\ DLe(DBits(r), DInt(1)))

\* ---------------------------------------------------------------- interpolation
LerpL(p, q, t) == EAdd(p, EMul(t, ESub(q, p)))
T2(t) == EMul(t, t)
T3(t) == EMul(t, EMul(t, t))
N(k) == EInt(k)
H0(t) == ESum3(EMul(N(2), T3(t)), EMul(N(-3), T2(t)), EOne)
H1(t) == ESum3(T3(t), EMul(N(-2), T2(t)), t)
H2(t) == ESum2(EMul(N(-2), T3(t)), EMul(N(3), T2(t)))
H3(t) == ESum2(T3(t), ENeg(T2(t)))
HermL(p0, t0, p1, t1, x, y, z, w) == ESum4(EMul(H0(x), p0), EMul(H1(y), t0), EMul(H2(z), p1), EMul(H3(w), t1))
CatmL(p0, p1, p2, p3, t) == EHalf(ESum4(EMul(ESum3(ENeg(T3(t)), EMul(N(2), T2(t)), ENeg(t)), p0), EMul(ESum3(EMul(N(3), T3(t)), EMul(N(-5), T2(t)), N(2)), p1),
                                        EMul(ESum3(EMul(N(-3), T3(t)), EMul(N(4), T2(t)), t), p2), EMul(ESum2(T3(t), ENeg(T2(t))), p3)))
BaryL(p0, p1, p2, f, g) == ESum3(p0, EMul(f, ESub(p1, p0)), EMul(g, ESub(p2, p0)))
E4(a, n, i) == EBits(a[4 * n + i])

\* ---------------------------------------------------------------- transforms
\* viewport transform of a projected point; vp = <<x, y, w, h, minz, maxz>>
ProjVal(v, vp, m) ==
  LET c == EDivW(EPoint3(v, m))
      hw == EHalf(vp[3])
      hh == EHalf(vp[4])
  IN  <<EAdd(EMul(c[1], hw), EAdd(vp[1], hw)), EAdd(EMul(c[2], ENeg(hh)), EAdd(vp[2], hh)), EAdd(EMul(c[3], ESub(vp[6], vp[5])), vp[5])>>
UnprojVal(v, vp, m) ==
  LET sx == EDiv(EOne, EHalf(vp[3]))
      sy == EDiv(EOne, ENeg(EHalf(vp[4])))
      sz == EDiv(EOne, ESub(vp[6], vp[5]))
      q == <<ESum2(EMul(ESub(v[1], vp[1]), sx), N(-1)), ESum2(EMul(ESub(v[2], vp[2]), sy), EOne), EMul(ESub(v[3], vp[5]), sz), EOne>>
      \* the code multiplies out v*s - x*s - 1: charge the cancellation
      w == <<ESum3(EMul(v[1], sx), ENeg(EMul(vp[1], sx)), N(-1)), ESum3(EMul(v[2], sy), ENeg(EMul(vp[2], sy)), EOne), ESum2(EMul(v[3], sz), ENeg(EMul(vp[5], sz))), EOne>>
  IN  EDivW(EPoint3(w, EInvM(m)))
VP(a) == <<EBits(a[5]), EBits(a[6]), EBits(a[7]), EBits(a[8]), EBits(a[9]), EBits(a[10])>>
\* arguments: projection at 11, view at 27, world at 43
WVP(a) == EMatMul(EMatMul(EM(a, 43), EM(a, 27)), EM(a, 11))

Dots == {"XMVector2Dot", "XMVector3Dot", "XMVector4Dot", "XMQuaternionDot"}
LenSqs == {"XMVector2LengthSq", "XMVector3LengthSq", "XMVector4LengthSq", "XMQuaternionLengthSq"}
Lens == {"XMVector2Length", "XMVector3Length", "XMVector4Length", "XMQuaternionLength"}
Recips == {"XMVector2ReciprocalLength", "XMVector3ReciprocalLength", "XMVector4ReciprocalLength", "XMQuaternionReciprocalLength"}
Norms == {"XMVector2Normalize", "XMVector3Normalize", "XMVector4Normalize", "XMQuaternionNormalize"}
LenEsts == {"XMVector2LengthEst", "XMVector3LengthEst", "XMVector4LengthEst"}
RecipEsts == {"XMVector2ReciprocalLengthEst", "XMVector3ReciprocalLengthEst", "XMVector4ReciprocalLengthEst"}
NormEsts == {"XMVector2NormalizeEst", "XMVector3NormalizeEst", "XMVector4NormalizeEst", "XMQuaternionNormalizeEst"}
Ok(o, a, r) ==
  CASE o \in Dots -> Splatted(r, EDot(EV(V(a, 0)), EV(V(a, 1)), Dim(o)))
    [] o \in LenSqs -> LET x == EV(V(a, 0)) IN Splatted(r, EDot(x, x, Dim(o)))
    [] o = "XMVectorSum" -> Splatted(r, ESum(EV(V(a, 0))))
    [] o = "XMVector2Cross" -> Splatted(r, ECross2(EV(V(a, 0)), EV(V(a, 1))))
    [] o = "XMVector3Cross" -> LanesOk(r, ECross3(EV(V(a, 0)), EV(V(a, 1))), 3) /\ IsZero(r[4])
    [] o = "XMVector4Cross" -> LanesOk(r, Cross4Val(EV(V(a, 0)), EV(V(a, 1)), EV(V(a, 2))), 4)
    [] o \in Lens -> LengthOk(r, V(a, 0), Dim(o))
    [] o \in Recips -> RecipOk(r, V(a, 0), Dim(o))
    [] o \in Norms -> NormalizeOk(r, V(a, 0), Dim(o))
    [] o \in LenEsts -> LengthEstOk(r, V(a, 0), Dim(o))
    [] o \in RecipEsts -> RecipEstOk(r, V(a, 0), Dim(o))
    [] o \in NormEsts -> NormEstOk(r, V(a, 0), Dim(o))
    [] o \in {"XMVector2ClampLength", "XMVector3ClampLength", "XMVector4ClampLength"} -> ClampLenOk(r, V(a, 0), a[5], a[6], Dim(o))
    [] o \in {"XMVector2ClampLengthV", "XMVector3ClampLengthV", "XMVector4ClampLengthV"} -> ClampLenOk(r, V(a, 0), a[5], a[9], Dim(o))
    [] o \in {"XMVector2Reflect", "XMVector3Reflect", "XMVector4Reflect"} -> ReflectOk(r, a, Dim(o))
    [] o \in {"XMVector2Refract", "XMVector3Refract", "XMVector4Refract", "XMVector2RefractV", "XMVector3RefractV", "XMVector4RefractV"} -> RefractOk(r, V(a, 0), V(a, 1), IF Len(a) = 9 THEN T4(LAMBDA j : a[9]) ELSE V(a, 2), Dim(o))
    [] o = "XMVector2Orthogonal" -> \A i \in 1..2 : LET e == <<FNegBits(a[2]), a[1]>>[i] IN IF IsNaN(e) THEN IsNaN(r[i]) ELSE r[i] = e
    [] o = "XMVector4Orthogonal" -> \A i \in 1..4 : LET e == <<a[3], a[4], FNegBits(a[1]), FNegBits(a[2])>>[i] IN IF IsNaN(e) THEN IsNaN(r[i]) ELSE r[i] = e
    [] o = "XMVector3Orthogonal" -> Orth3Ok(r, V(a, 0))
    [] o \in {"XMVector2AngleBetweenNormals", "XMVector3AngleBetweenNormals", "XMVector4AngleBetweenNormals"} ->
         AngleOk(r, EDot(EV(V(a, 0)), EV(V(a, 1)), Dim(o)), DPow2(-20))
    [] o \in {"XMVector2AngleBetweenNormalsEst", "XMVector3AngleBetweenNormalsEst", "XMVector4AngleBetweenNormalsEst"} ->
         AngleOk(r, EDot(EV(V(a, 0)), EV(V(a, 1)), Dim(o)), DDiv(DInt(1), DInt(10000)))
    [] o \in {"XMVector2AngleBetweenVectors", "XMVector3AngleBetweenVectors", "XMVector4AngleBetweenVectors"} ->
         LET n == Dim(o)
             x == EV(V(a, 0))
             y == EV(V(a, 1))
         IN  (Comfy(x, n) /\ Comfy(y, n)) => AngleOk(r, CosBetween(x, y, n), DPow2(-20))
    [] o \in {"XMVector2LinePointDistance", "XMVector3LinePointDistance"} -> LineDistOk(r, a, Dim(o))
    [] o = "XMVector2IntersectLine" -> IntersectOk(r, a)
    [] o = "XMVector3ComponentsFromNormal" ->
         LET v == EV(V(a, 0))
             n == EV(V(a, 1))
             p == EVScale(n, EDot(v, n, 3))
         IN  \A i \in 1..3 : EOk(r[i], p[i], K) /\ EOk(r[4 + i], ESub(v[i], p[i]), K)
    [] o = "XMFresnelTerm" -> \A i \in 1..4 : FresnelLane(r[i], a[i], a[i + 4])
    [] o = "XMVectorLerp" -> \A i \in 1..4 : EOk(r[i], LerpL(E4(a, 0, i), E4(a, 1, i), EBits(a[9])), K)
    [] o = "XMVectorLerpV" -> \A i \in 1..4 : EOk(r[i], LerpL(E4(a, 0, i), E4(a, 1, i), E4(a, 2, i)), K)
    [] o = "XMVectorHermite" -> LET t == EBits(a[17]) IN \A i \in 1..4 : EOk(r[i], HermL(E4(a, 0, i), E4(a, 1, i), E4(a, 2, i), E4(a, 3, i), t, t, t, t), K)
    [] o = "XMVectorHermiteV" -> \A i \in 1..4 : EOk(r[i], HermL(E4(a, 0, i), E4(a, 1, i), E4(a, 2, i), E4(a, 3, i), E4(a, 4, 1), E4(a, 4, 2), E4(a, 4, 3), E4(a, 4, 4)), K)
    [] o = "XMVectorCatmullRom" -> \A i \in 1..4 : EOk(r[i], CatmL(E4(a, 0, i), E4(a, 1, i), E4(a, 2, i), E4(a, 3, i), EBits(a[17])), K)
    [] o = "XMVectorCatmullRomV" -> \A i \in 1..4 : EOk(r[i], CatmL(E4(a, 0, i), E4(a, 1, i), E4(a, 2, i), E4(a, 3, i), E4(a, 4, i)), K)
    [] o = "XMVectorBaryCentric" -> \A i \in 1..4 : EOk(r[i], BaryL(E4(a, 0, i), E4(a, 1, i), E4(a, 2, i), EBits(a[13]), EBits(a[14])), K)
    [] o = "XMVectorBaryCentricV" -> \A i \in 1..4 : EOk(r[i], BaryL(E4(a, 0, i), E4(a, 1, i), E4(a, 2, i), E4(a, 3, i), E4(a, 4, i)), K)
    [] o = "XMVector2Transform" -> LanesOk(r, EPoint2(EV(V(a, 0)), EM(a, 5)), 4)
    [] o = "XMVector3Transform" -> LanesOk(r, EPoint3(EV(V(a, 0)), EM(a, 5)), 4)
    [] o = "XMVector4Transform" -> LanesOk(r, EVecMat4(EV(V(a, 0)), EM(a, 5)), 4)
    [] o = "XMVector2TransformCoord" -> LanesOk(r, EDivW(EPoint2(EV(V(a, 0)), EM(a, 5))), 4)
    [] o = "XMVector3TransformCoord" -> LanesOk(r, EDivW(EPoint3(EV(V(a, 0)), EM(a, 5))), 4)
    [] o = "XMVector2TransformNormal" -> LanesOk(r, EDir2(EV(V(a, 0)), EM(a, 5)), 4)
    [] o = "XMVector3TransformNormal" -> LanesOk(r, EDir3(EV(V(a, 0)), EM(a, 5)), 4)
    [] o = "XMVector3Rotate" -> LanesOk(r, EQRot(EV(V(a, 0)), EV(V(a, 1))), 3)
    [] o = "XMVector3InverseRotate" -> LanesOk(r, EQRot(EV(V(a, 0)), EQConj(EV(V(a, 1)))), 3)
    [] o = "XMVector3Project" -> LanesOk(r, ProjVal(EV(V(a, 0)), VP(a), WVP(a)), 3)
    [] o = "XMVector3Unproject" -> LanesOk(r, UnprojVal(EV(V(a, 0)), VP(a), WVP(a)), 3)
=============================================================================
