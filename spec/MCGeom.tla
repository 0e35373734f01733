------------------------------- MODULE MCGeom -------------------------------
(***************************************************************************)
(* Design-level model check of the linear algebra the trace specification  *)
(* judges the implementation by: the definitions have to satisfy the laws  *)
(* that make them rotations, inverses, projections, reflections.           *)
(*   quaternions: all pairs of the 24 Hurwitz units (the rotation group of *)
(*   the tetrahedron) and all small integer quaternions                    *)
(*   matrices: pseudo-random small integer matrices                        *)
(***************************************************************************)
EXTENDS Mat, TLC
VARIABLE s
Eq(a, b) == EIsNum(a) /\ EIsNum(b) /\ DLe(DAbs(DSub(EVal(a), EVal(b))), DAdd(DPow2(-100), DMul(DInt(2), DAdd(EErr(a), EErr(b)))))
\* exact up to the chop of the division and square root of the number tower
Near(a, b) == EIsNum(a) /\ EIsNum(b) /\ DLe(DAbs(DSub(EVal(a), EVal(b))), DPow2(-80))
EqV(x, y, n) == \A i \in 1..n : Near(x[i], y[i])
EqM(x, y) == \A i, j \in 1..4 : Near(x[i][j], y[i][j])
H(n) == EOfDy(DMul(DInt(n), DPow2(-1)))
Sg(n, b) == IF (n \div b) % 2 = 0 THEN 1 ELSE -1
\* 1..8: +-1, +-i, +-j, +-k; 9..24: (+-1 +-i +-j +-k)/2
Hurwitz(n) == IF n <= 8 THEN LET k == 1 + ((n - 1) % 4)
                                 g == IF n <= 4 THEN 1 ELSE -1
                             IN  T4(LAMBDA i : EInt(IF i = k THEN g ELSE 0))
              ELSE LET m == n - 9 IN <<H(Sg(m, 1)), H(Sg(m, 2)), H(Sg(m, 4)), H(Sg(m, 8))>>
\* small pseudo-random integers
Rnd(k, i) == (((((k * 1103) + (i * 7919) + ((k * i) % 101)) * 331 + 17) % 1009) % 9) - 4
RV(k) == <<EInt(Rnd(k, 1)), EInt(Rnd(k, 2)), EInt(Rnd(k, 3)), EInt(Rnd(k, 4))>>
RM(k) == << <<EInt(Rnd(k, 5)), EInt(Rnd(k, 6)), EInt(Rnd(k, 7)), EInt(Rnd(k, 8))>>, <<EInt(Rnd(k, 9)), EInt(Rnd(k, 10)), EInt(Rnd(k, 11)), EInt(Rnd(k, 12))>>,
            <<EInt(Rnd(k, 13)), EInt(Rnd(k, 14)), EInt(Rnd(k, 15)), EInt(Rnd(k, 16))>>, <<EInt(Rnd(k, 17)), EInt(Rnd(k, 18)), EInt(Rnd(k, 19)), EInt(Rnd(k, 20))>> >>
Nz3(v) == \E i \in 1..3 : ~Near(v[i], EZero)
Init == s \in ({"quat"} \X (1..24) \X (1..24)) \cup ({"mat"} \X (1..40) \X (1..8)) \cup ({"plane"} \X (1..120) \X {0}) \cup ({"view"} \X (1..120) \X {1, -1})
        \cup ({"axis"} \X (1..60) \X (1..6))
Next == UNCHANGED s

\* XMQuaternionMultiply(p, q) is "first p, then q": the Hamilton product q p
QuatLaws(p, q) ==
  LET pq == EQMul(q, p)
      v == <<EInt(3), EInt(-5), EInt(7), EZero>>
  IN  /\ EqM(EQMat(pq), EMatMul(EQMat(p), EQMat(q)))
      /\ EqV(EQRot(v, pq), EQRot(EQRot(v, p), q), 3)
      /\ EqV(EQRot(v, p), EDir3(v, EQMat(p)), 3)
      /\ EqM(EMatMul(EQMat(p), EMatT(EQMat(p))), EMId) /\ Near(EDetM(EQMat(p)), EOne)
      /\ EqV(EQMul(p, EQConj(p)), <<EZero, EZero, EZero, EOne>>, 4)
      /\ EqM(EQMat(EQConj(p)), EMatT(EQMat(p)))
      /\ EqM(EQMat(EVNeg(p)), EQMat(p))
MatLaws(k, l) ==
  LET a == RM(k)
      b == RM(k + 41 * l)
      v == RV(k + l)
      d == EDetM(a)
  IN  /\ Near(EDetM(EMatMul(a, b)), EMul(d, EDetM(b)))
      /\ Near(EDetM(EMatT(a)), d)
      /\ EqM(EMatT(EMatMul(a, b)), EMatMul(EMatT(b), EMatT(a)))
      /\ EqV(EVecMat4(EVecMat4(v, a), b), EVecMat4(v, EMatMul(a, b)), 4)
      /\ Near(d, EZero) \/ EqM(EMatMul(a, EInvM(a)), EMId)
      /\ EqV(EPoint3(v, a), EVecMat4(<<v[1], v[2], v[3], EOne>>, a), 4)
      /\ EqV(EDir3(v, a), EVecMat4(<<v[1], v[2], v[3], EZero>>, a), 4)
      /\ EqV(EPoint3(v, About(RV(l), EMId)), v, 3)
      /\ EqV(EPoint3(RV(l), About(RV(l), <<a[1], a[2], a[3], <<EZero, EZero, EZero, EOne>> >>)), <<RV(l)[1], RV(l)[2], RV(l)[3]>>, 3) \/ \E i \in 1..3 : ~Near(a[i][4], EZero)
      /\ EqV(ECross3(a[1], a[1]), <<EZero, EZero, EZero>>, 3)
      /\ Near(EDot(ECross3(a[1], a[2]), a[1], 3), EZero)
      /\ Near(EDot(ECross3(a[1], a[2]), a[3], 3), EDet3(a[1], a[2], a[3], 1, 2, 3))
PlaneLaws(k) ==
  LET p == RV(k)
      x == RV(k + 500)
      l == RV(k + 900)
      n == ENormPlane(p)
      D(y) == ESum2(EDot(n, y, 3), n[4])
      m == ReflectM(p)
      y == EPoint3(x, m)
      sh == EVecMat4(<<x[1], x[2], x[3], EOne>>, ShadowM(p, l))
  IN  ~Nz3(p) \/
      (/\ EqM(EMatMul(m, m), EMId) /\ Near(EDetM(m), EInt(-1))
       /\ Near(D(y), ENeg(D(x)))                                           \* the mirror image lies as far on the other side
       /\ Near(EDot(EVSub(y, x), EVSub(y, x), 3), EMul(EInt(4), ESq(D(x))))
       \* the shadow lies on the plane, on the line through the point towards the light
       /\ Near(ESum2(EDot(n, sh, 3), EMul(n[4], sh[4])), EZero)
       /\ \A i \in 1..4 : LET c == EDot(n, l, 4) IN Near(ESub(sh[i], EMul(c, <<x[1], x[2], x[3], EOne>>[i])), ENeg(EMul(D(x), l[i]))))
ViewLaws(k, h) ==
  LET e == RV(k)
      d == RV(k + 300)
      u == RV(k + 700)
      m == LookM(e, d, u)
      n == EInt(1 + (k % 5))
      f == EInt(7 + (k % 11))
      per == PerspM(EInt(2), EInt(3), EZero, EZero, n, f, h)
      ort == OrthoM(EInt(4), EInt(6), n, f, h)
      at(z, w) == EVecMat4(<<EZero, EZero, EMul(EInt(h), z), EOne>>, w)
  IN  /\ ~Nz3(d) \/ ~Nz3(ECross3(u, d)) \/
         (/\ EqV(EPoint3(e, m), <<EZero, EZero, EZero, EOne>>, 4)
          /\ EqV(EDir3(d, m), <<EZero, EZero, ELen(d, 3)>>, 3)              \* the view direction becomes +z
          /\ Near(EDir3(u, m)[1], EZero) /\ DSign(EVal(EDir3(u, m)[2])) > 0 \* up stays in the yz plane, pointing up
          /\ Near(EDetM(m), EOne))
      \* the near plane maps to depth 0 and the far plane to depth 1, w being the distance
      /\ Near(at(n, per)[3], EZero) /\ Near(at(f, per)[3], at(f, per)[4]) /\ Near(at(n, per)[4], n) /\ Near(at(f, per)[4], f)
      /\ Near(at(n, ort)[3], EZero) /\ Near(at(f, ort)[3], EOne) /\ Near(at(f, ort)[4], EOne)
      /\ Near(EVecMat4(<<EInt(2), EInt(3), EZero, EOne>>, ort)[1], EOne) /\ Near(EVecMat4(<<EInt(2), EInt(-3), EZero, EOne>>, ort)[2], EInt(-1))
\* rotation about an axis: fixes the axis, is orthogonal, agrees with the coordinate rotations and the quaternion
Small(a, b) == EIsNum(a) /\ EIsNum(b) /\ DLe(DAbs(DSub(EVal(a), EVal(b))), DPow2(-40))
SmallM(x, y) == \A i, j \in 1..4 : Small(x[i][j], y[i][j])
AxisLaws(k, l) ==
  LET v == RV(k)
      n == ENorm3(v)
      b == DF32(DDiv(DInt(3 * l), DInt(7)))
      hb == DF32(DDiv(DBits(b), DInt(2)))
      m == AxisM(n, b)
      q == EAng(hb)
      qq == <<EMul(n[1], q[1]), EMul(n[2], q[1]), EMul(n[3], q[1]), q[2]>>
      ax(i) == T4(LAMBDA j : IF i = j THEN EOne ELSE EZero)
  IN  /\ ~Nz3(v) \/ (SmallM(EMatMul(m, EMatT(m)), EMId) /\ (\A i \in 1..3 : Small(EDir3(n, m)[i], n[i])) /\ SmallM(m, EQMat(qq)))
      /\ SmallM(AxisM(ax(1), b), RotXM(b)) /\ SmallM(AxisM(ax(2), b), RotYM(b)) /\ SmallM(AxisM(ax(3), b), RotZM(b))
Inv == CASE s[1] = "quat" -> QuatLaws(Hurwitz(s[2]), Hurwitz(s[3]))
         [] s[1] = "mat" -> MatLaws(s[2], s[3])
         [] s[1] = "plane" -> PlaneLaws(s[2])
         [] s[1] = "view" -> ViewLaws(s[2], s[3])
         [] s[1] = "axis" -> AxisLaws(s[2], s[3])
=============================================================================
