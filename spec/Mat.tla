-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* Matrices (row-vector convention): linear algebra, affine and composite  *)
(* transforms, view and projection matrices, decomposition.                *)
(***************************************************************************)
EXTENDS EGeom, Elem

K == 4
SameBits(r, w) == \A i \in 1..Len(w) : r[i] = w[i]
MBits(m) == m[1] \o m[2] \o m[3] \o m[4]
Transposed(w) == [n \in 1..16 |-> w[4 * ((n - 1) % 4) + ((n - 1) \div 4) + 1]]

\* ---------------------------------------------------------------- building blocks
Rows3(x, y, z) == <<x, y, z, <<EZero, EZero, EZero, EOne>> >>
TransM(t) == << <<EOne, EZero, EZero, EZero>>, <<EZero, EOne, EZero, EZero>>, <<EZero, EZero, EOne, EZero>>, <<t[1], t[2], t[3], EOne>> >>
ScaleM(s) == Rows3(<<s[1], EZero, EZero, EZero>>, <<EZero, s[2], EZero, EZero>>, <<EZero, EZero, s[3], EZero>>)
\* sine and cosine of a float angle, as well as single precision argument reduction can know them
AngSlack(x) == DAdd(DPow2(-20), DMul(DAbs(x), DPow2(-22)))
EAng(b) == LET x == DBits(b)
               sc == SinCos(x)
               e == AngSlack(x)
           IN  <<EWiden(EOfDy(sc[1]), e), EWiden(EOfDy(sc[2]), e)>>
RotXM(b) == LET q == EAng(b) IN Rows3(<<EOne, EZero, EZero, EZero>>, <<EZero, q[2], q[1], EZero>>, <<EZero, ENeg(q[1]), q[2], EZero>>)
RotYM(b) == LET q == EAng(b) IN Rows3(<<q[2], EZero, ENeg(q[1]), EZero>>, <<EZero, EOne, EZero, EZero>>, <<q[1], EZero, q[2], EZero>>)
RotZM(b) == LET q == EAng(b) IN Rows3(<<q[2], q[1], EZero, EZero>>, <<ENeg(q[1]), q[2], EZero, EZero>>, <<EZero, EZero, EOne, EZero>>)
\* roll about z, then pitch about x, then yaw about y
\* (computed through a quaternion: absolute error of the order of the rounding of 1 in every rotation entry)
RPYM(p, y, r) == LET m == EMatMul(EMatMul(RotZM(r), RotXM(p)), RotYM(y))
                 IN  T4(LAMBDA i : T4(LAMBDA j : IF i = 4 \/ j = 4 THEN m[i][j] ELSE EWiden(m[i][j], DPow2(-20))))
\* rotation about the (unit) axis n: cos I + (1 - cos) n n^T + sin [n]x
AxisM(n, b) ==
  LET q == EAng(b)
      s == q[1]
      c == q[2]
      v == ESub(EOne, c)
      D(i) == EAdd(c, EMul(v, EMul(n[i], n[i])))
      P(i, j, k) == EAdd(EMul(v, EMul(n[i], n[j])), EMul(s, n[k]))
      M(i, j, k) == ESub(EMul(v, EMul(n[i], n[j])), EMul(s, n[k]))
  IN  Rows3(<<D(1), P(1, 2, 3), M(1, 3, 2), EZero>>, <<M(1, 2, 3), D(2), P(2, 3, 1), EZero>>, <<P(1, 3, 2), M(2, 3, 1), D(3), EZero>>)
ENorm3(x) == LET l == ELen(x, 3) IN <<EDiv(x[1], l), EDiv(x[2], l), EDiv(x[3], l), EZero>>
ENormPlane(x) == LET l == ELen(x, 3) IN T4(LAMBDA i : EDiv(x[i], l))
Vec2(x) == <<x[1], x[2], EZero, EZero>>
\* origin shift: translate by -o, apply m, translate back
About(o, m) == EMatMul(EMatMul(TransM(EVNeg(o)), m), TransM(o))
ReflectM(pl) == LET p == ENormPlane(pl)
                    d == T4(LAMBDA i : IF i = 4 THEN EZero ELSE EMul(EInt(-2), p[i]))
                IN  T4(LAMBDA i : T4(LAMBDA j : EAdd(EMul(p[i], d[j]), EMId[i][j])))
ShadowM(pl, l) == LET p == ENormPlane(pl)
                      d == EDot(p, l, 4)
                  IN  T4(LAMBDA i : T4(LAMBDA j : ESub(EMul(d, EMId[i][j]), EMul(p[i], l[j]))))
\* eye at e, looking along d, with up direction u; rows of the inverse frame become columns
LookM(e, d, u) ==
  LET z == ENorm3(d)
      x == ENorm3(ECross3(u, z))
      y == ECross3(z, x)
      D(v) == ENeg(EDot(v, e, 3))
  IN  << <<x[1], y[1], z[1], EZero>>, <<x[2], y[2], z[2], EZero>>, <<x[3], y[3], z[3], EZero>>, <<D(x), D(y), D(z), EOne>> >>
\* perspective with x and y scales and offsets; h = 1 left-handed, -1 right-handed
PerspM(sx, sy, ox, oy, n, f, h) ==
  LET q == EDiv(f, ESub(f, n))
      s == EInt(h)
  IN  << <<sx, EZero, EZero, EZero>>, <<EZero, sy, EZero, EZero>>, <<ox, oy, EMul(s, q), s>>, <<EZero, EZero, ENeg(EMul(q, n)), EZero>> >>
OrthoM(w, hh, n, f, h) ==
  LET q == EDiv(EOne, ESub(f, n))
  IN  << <<EDiv(ETwo, w), EZero, EZero, EZero>>, <<EZero, EDiv(ETwo, hh), EZero, EZero>>, <<EZero, EZero, EMul(EInt(h), q), EZero>>, <<EZero, EZero, ENeg(EMul(q, n)), EOne>> >>
FovM(a, h) == LET q == EAng(DF32(DMul(DBits(a[1]), DPow2(-1))))
                  sy == EDiv(q[2], q[1])
              IN  PerspM(EDiv(sy, EBits(a[2])), sy, EZero, EZero, EBits(a[3]), EBits(a[4]), h)
OffM(a, h) == LET w == ESub(EBits(a[2]), EBits(a[1]))
                  t == ESub(EBits(a[4]), EBits(a[3]))
                  n2 == EMul(ETwo, EBits(a[5]))
                  sg == EInt(-h)
              IN  PerspM(EDiv(n2, w), EDiv(n2, t), EMul(sg, EDiv(EAdd(EBits(a[1]), EBits(a[2])), w)), EMul(sg, EDiv(EAdd(EBits(a[3]), EBits(a[4])), t)), EBits(a[5]), EBits(a[6]), h)

\* ---------------------------------------------------------------- inverse
SmallInts(a) == \A i \in 1..16 : IsFin(a[i]) /\ DLe(DAbs(DBits(a[i])), DInt(8)) /\ DEq(DFloor(DBits(a[i])), DBits(a[i]))
\* products of four entries stay in range
Tame(a) == \A i \in 1..16 : IsNaN(a[i]) \/ (IsFin(a[i]) /\ DLt(DAbs(DBits(a[i])), DPow2(30)))
\* the association of the products is free, so any partial product may underflow before it is multiplied by another entry
RECURSIVE BigE(_, _)
BigE(a, i) == IF i > 16 THEN DInt(1) ELSE IF IsFin(a[i]) THEN DMax(DAbs(DBits(a[i])), BigE(a, i + 1)) ELSE BigE(a, i + 1)
DetOf(a) == EWiden(EDetM(EM(a, 1)), DMul(DPow2(-142), DMul(BigE(a, 1), BigE(a, 1))))
InvOf(a, d) == LET m == EM(a, 1)
                   u == DMul(DPow2(-142), BigE(a, 1))
               IN  T4(LAMBDA i : T4(LAMBDA j : EDiv(EWiden(ECof(m, j, i), u), d)))
InverseOk(a, r, det) ==
  ~Tame(a) \/
  LET d == DetOf(a)
  IN  /\ det => \A i \in 17..20 : (r[i] = r[17] \/ (IsNaN(r[i]) /\ IsNaN(r[17]))) /\ EOk(r[i], d, 2 * K)
      /\ IF EIsNum(d) /\ DSign(EVal(d)) = 0 /\ SmallInts(a)
         THEN (det => IsZero(r[17])) /\ \A i \in 1..16 : ~IsFin(r[i])                \* no inverse
         ELSE EOkM(r, 1, InvOf(a, d), 2 * K)

\* ---------------------------------------------------------------- decomposition
DecEps == DDiv(DInt(1), DInt(10000))
DecomposeOk(a, r) ==
  LET m == EM(a, 1)
      len == <<ELen(m[1], 3), ELen(m[2], 3), ELen(m[3], 3)>>
      l(i) == EVal(len[i])
      s == At4(r, 2)
      q == At4(r, 6)
      big(i) == DLt(DecEps, l(i))
      ortho == \A i, j \in 1..3 : (i < j /\ big(i) /\ big(j)) => DLe(DAbs(EVal(EDot(m[i], m[j], 3))), DMul(DPow2(-16), DMul(l(i), l(j))))
      D3 == EVal(EDet3(m[1], m[2], m[3], 1, 2, 3))
      vol == DMul(l(1), DMul(l(2), l(3)))
      clearbig == \A i \in 1..3 : DLt(DPow2(-10), l(i))
      sheared == clearbig /\ DLt(DAbs(D3), DMul(vol, DDiv(DInt(98), DInt(100))))
      rot == EQMat(EV(q))
      qn == EVal(EDot(EV(q), EV(q), 4))
      tol(i) == DAdd(DMul(l(i), DPow2(-14)), IF DLt(l(i), DMul(DecEps, DAdd(DInt(1), DPow2(-10)))) THEN DMul(DInt(3), DecEps) ELSE DInt(0))
  IN  IF \E i \in 1..3 : ~EIsNum(len[i]) THEN TRUE
      ELSE /\ SameBits(At4(r, 10), At4(a, 13))                                              \* the translation is the last row
           /\ IsZero(s[4])
           /\ \A i \in 1..3 : EOk(MagBits(s[i]), len[i], K)                                  \* scales are the row lengths up to sign
           /\ sheared => r[1] = 0
           /\ ortho => /\ r[1] = 1
                       /\ \A i \in 1..4 : IsFin(q[i])
                       /\ DLe(DAbs(DSub(qn, DInt(1))), DPow2(-12))
                       /\ \A i, j \in 1..3 : DLe(DAbs(DSub(DMul(DBits(s[i]), EVal(rot[i][j])), EVal(m[i][j]))), tol(i))

\* the angles the library's range reduction is meant for
Angles(a, n) == \A i \in 1..n : IsFin(a[i]) /\ DLe(DAbs(DBits(a[i])), DInt(65536))

Ok(o, a, r) ==
  CASE o = "XMMatrixMultiply" -> EOkM(r, 1, EMatMul(EM(a, 1), EM(a, 17)), K)
    [] o = "XMMatrixMultiplyTranspose" -> EOkM(r, 1, EMatT(EMatMul(EM(a, 1), EM(a, 17))), K)
    [] o = "XMMatrixTranspose" -> SameBits(r, Transposed(a))
    [] o = "XMMatrixSet" -> SameBits(r, a)
    [] o = "XMMatrixIdentity" -> SameBits(r, [n \in 1..16 |-> IF n \in {1, 6, 11, 16} THEN OneB ELSE 0])
    [] o = "XMMatrixDeterminant" -> ~Tame(a) \/ LET d == DetOf(a) IN \A i \in 1..4 : (r[i] = r[1] \/ (IsNaN(r[i]) /\ IsNaN(r[1]))) /\ EOk(r[i], d, 2 * K)
    [] o = "XMMatrixInverse" -> InverseOk(a, r, TRUE)
    [] o = "XMMatrixInverse(None)" -> InverseOk(a, r, FALSE)
    [] o = "XMMatrixVectorTensorProduct" -> LET x == EV(V(a, 0))
                                                y == EV(V(a, 1)) IN EOkM(r, 1, T4(LAMBDA i : T4(LAMBDA j : EMul(x[i], y[j]))), 1)
    [] o = "XMMatrixDecompose" -> DecomposeOk(a, r)
    [] o = "XMMatrixTranslation" -> SameBits(r, <<OneB, 0, 0, 0, 0, OneB, 0, 0, 0, 0, OneB, 0, a[1], a[2], a[3], OneB>>)
    [] o = "XMMatrixTranslationFromVector" -> SameBits(r, <<OneB, 0, 0, 0, 0, OneB, 0, 0, 0, 0, OneB, 0, a[1], a[2], a[3], OneB>>)
    [] o \in {"XMMatrixScaling", "XMMatrixScalingFromVector"} -> SameBits(r, <<a[1], 0, 0, 0, 0, a[2], 0, 0, 0, 0, a[3], 0, 0, 0, 0, OneB>>)
    [] o = "XMMatrixRotationX" -> Angles(a, 1) => EOkM(r, 1, RotXM(a[1]), K)
    [] o = "XMMatrixRotationY" -> Angles(a, 1) => EOkM(r, 1, RotYM(a[1]), K)
    [] o = "XMMatrixRotationZ" -> Angles(a, 1) => EOkM(r, 1, RotZM(a[1]), K)
    [] o \in {"XMMatrixRotationRollPitchYaw", "XMMatrixRotationRollPitchYawFromVector"} -> Angles(a, 3) => EOkM(r, 1, RPYM(a[1], a[2], a[3]), K)
    [] o = "XMMatrixRotationNormal" -> EOkM(r, 1, AxisM(EV(V(a, 0)), a[5]), K)
    [] o = "XMMatrixRotationAxis" -> EOkM(r, 1, AxisM(ENorm3(EV(V(a, 0))), a[5]), K)
    [] o = "XMMatrixRotationQuaternion" -> EOkM(r, 1, EQMat(EV(V(a, 0))), K)
    [] o = "XMMatrixTransformation2D" ->
         LET so == Vec2(EV(V(a, 0)))
             rs == RotZM(a[5])
             s == EV(At4(a, 6))
             ro == Vec2(EV(At4(a, 10)))
             sm == EMatMul(EMatMul(EMatT(rs), ScaleM(<<s[1], s[2], EOne, EOne>>)), rs)
         IN  EOkM(r, 1, EMatMul(EMatMul(About(so, sm), About(ro, RotZM(a[14]))), TransM(Vec2(EV(At4(a, 15))))), 2 * K)
    [] o = "XMMatrixTransformation" ->
         LET rs == EQMat(EV(V(a, 1)))
             sm == EMatMul(EMatMul(EMatT(rs), ScaleM(EV(V(a, 2)))), rs)
         IN  EOkM(r, 1, EMatMul(EMatMul(About(EV(V(a, 0)), sm), About(EV(V(a, 3)), EQMat(EV(V(a, 4))))), TransM(EV(V(a, 5)))), 2 * K)
    [] o = "XMMatrixAffineTransformation2D" ->
         LET s == EV(V(a, 0))
         IN  EOkM(r, 1, EMatMul(EMatMul(ScaleM(<<s[1], s[2], EOne, EOne>>), About(Vec2(EV(V(a, 1))), RotZM(a[9]))), TransM(Vec2(EV(At4(a, 10))))), 2 * K)
    [] o = "XMMatrixAffineTransformation" ->
         EOkM(r, 1, EMatMul(EMatMul(ScaleM(EV(V(a, 0))), About(EV(V(a, 1)), EQMat(EV(V(a, 2))))), TransM(EV(V(a, 3)))), 2 * K)
    [] o = "XMMatrixReflect" -> EOkM(r, 1, ReflectM(EV(V(a, 0))), 2 * K)
    [] o = "XMMatrixShadow" -> EOkM(r, 1, ShadowM(EV(V(a, 0)), EV(V(a, 1))), 2 * K)
    [] o = "XMMatrixLookToLH" -> EOkM(r, 1, LookM(EV(V(a, 0)), EV(V(a, 1)), EV(V(a, 2))), 2 * K)
    [] o = "XMMatrixLookToRH" -> EOkM(r, 1, LookM(EV(V(a, 0)), EVNeg(EV(V(a, 1))), EV(V(a, 2))), 2 * K)
    [] o = "XMMatrixLookAtLH" -> EOkM(r, 1, LookM(EV(V(a, 0)), EVSub(EV(V(a, 1)), EV(V(a, 0))), EV(V(a, 2))), 2 * K)
    [] o = "XMMatrixLookAtRH" -> EOkM(r, 1, LookM(EV(V(a, 0)), EVSub(EV(V(a, 0)), EV(V(a, 1))), EV(V(a, 2))), 2 * K)
    [] o \in {"XMMatrixPerspectiveLH", "XMMatrixPerspectiveRH"} ->
         LET n2 == EMul(ETwo, EBits(a[3]))
         IN  EOkM(r, 1, PerspM(EDiv(n2, EBits(a[1])), EDiv(n2, EBits(a[2])), EZero, EZero, EBits(a[3]), EBits(a[4]), IF o = "XMMatrixPerspectiveLH" THEN 1 ELSE -1), K)
    [] o \in {"XMMatrixPerspectiveFovLH", "XMMatrixPerspectiveFovRH"} -> EOkM(r, 1, FovM(a, IF o = "XMMatrixPerspectiveFovLH" THEN 1 ELSE -1), K)
    [] o \in {"XMMatrixPerspectiveOffCenterLH", "XMMatrixPerspectiveOffCenterRH"} -> EOkM(r, 1, OffM(a, IF o = "XMMatrixPerspectiveOffCenterLH" THEN 1 ELSE -1), K)
    [] o = "XMMatrixOrthographicLH" -> EOkM(r, 1, OrthoM(EBits(a[1]), EBits(a[2]), EBits(a[3]), EBits(a[4]), 1), K)
    [] o = "XMMatrixOrthographicRH" -> EOkM(r, 1, OrthoM(EBits(a[1]), EBits(a[2]), EBits(a[3]), EBits(a[4]), -1), K)
=============================================================================
