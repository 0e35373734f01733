-------------------------------- MODULE Quat --------------------------------
(***************************************************************************)
(* Quaternions <<x, y, z, w>> (algebra, rotations, interpolation, log and  *)
(* exponential) and planes a x + b y + c z + d = 0.                        *)
(***************************************************************************)
EXTENDS EGeom, Elem

K == 4
SameBits(r, w) == \A i \in 1..Len(w) : r[i] = w[i]
EqOrNaN(r, e) == IF IsNaN(e) THEN IsNaN(r) ELSE r = e
Splat4(r, x, k) == \A i \in 1..4 : (r[i] = r[1] \/ (IsNaN(r[i]) /\ IsNaN(r[1]))) /\ EOk(r[i], x, k)
Near(x, y, e) == DLe(DAbs(DSub(x, y)), e)
FNear(b, y, e) == IsFin(b) /\ Near(DBits(b), y, e)
EpsB == DPow2(-23)                                             \* the library's epsilon, 1.192e-7

\* ---------------------------------------------------------------- dyadic 4-vectors
DV(v) == <<DBits(v[1]), DBits(v[2]), DBits(v[3]), DBits(v[4])>>
DDot4(x, y) == DAdd(DAdd(DMul(x[1], y[1]), DMul(x[2], y[2])), DAdd(DMul(x[3], y[3]), DMul(x[4], y[4])))
DComb(x, s, y, t) == T4(LAMBDA i : Ch(DAdd(DMul(x[i], s), DMul(y[i], t))))
DNegV(x) == T4(LAMBDA i : DNeg(x[i]))
DQMul(p, q) == <<Ch(DSub(DAdd(DAdd(DMul(p[4], q[1]), DMul(p[1], q[4])), DMul(p[2], q[3])), DMul(p[3], q[2]))),
                 Ch(DAdd(DAdd(DSub(DMul(p[4], q[2]), DMul(p[1], q[3])), DMul(p[2], q[4])), DMul(p[3], q[1]))),
                 Ch(DAdd(DSub(DAdd(DMul(p[4], q[3]), DMul(p[1], q[2])), DMul(p[2], q[1])), DMul(p[3], q[4]))),
                 Ch(DSub(DSub(DSub(DMul(p[4], q[4]), DMul(p[1], q[1])), DMul(p[2], q[2])), DMul(p[3], q[3])))>>
\* x, limited to the segment from the origin to infinity
One == DInt(1)

\* ---------------------------------------------------------------- spherical interpolation of unit quaternions
\* weights sin((1-t) omega)/sin omega, sin(t omega)/sin omega for cos omega = c >= 0
SlerpW(c, t) == IF DLt(DSub(One, DPow2(-36)), c) THEN <<DSub(One, t), t>>
                ELSE LET w == Acos(c)
                         s == Sin(w)
                     IN  <<Ch(DDiv(Sin(Ch(DMul(DSub(One, t), w))), s)), Ch(DDiv(Sin(Ch(DMul(t, w))), s))>>
\* <<determined?, value>>: undetermined when the two quaternions are so nearly perpendicular that the shorter arc is a matter of rounding
SlerpD(p, q, t) ==
  LET c == DDot4(p, q)
      g == DSign(c) < 0
      w == SlerpW(Ch(DAbs(c)), t)
  IN  <<~DLt(DAbs(c), DPow2(-18)), DComb(p, w[1], q, IF g THEN DNeg(w[2]) ELSE w[2])>>
NearQ(r, x, e) == \A i \in 1..4 : FNear(r[i], x[i], e)
TolT(t) == LET a == DAdd(One, DAbs(t)) IN DMul(a, DMul(a, a))
SlerpOk(r, p, q, tb) ==
  LET t == DBits(tb)
      s == SlerpD(DV(p), DV(q), t)
      \* the other arc
      w == SlerpW(Ch(DAbs(DDot4(DV(p), DV(q)))), t)
      e == DMul(TolT(t), DPow2(-17))
  IN  IF s[1] THEN NearQ(r, s[2], e) ELSE NearQ(r, DComb(DV(p), w[1], DV(q), w[2]), e) \/ NearQ(r, DComb(DV(p), w[1], DV(q), DNeg(w[2])), e)
SquadOk(r, q0, q1, q2, q3, tb) ==
  LET t == DBits(tb)
      x == SlerpD(DV(q0), DV(q3), t)
      y == SlerpD(DV(q1), DV(q2), t)
      z == SlerpD(x[2], y[2], DMul(DInt(2), DSub(t, DMul(t, t))))
  IN  (x[1] /\ y[1] /\ z[1]) => NearQ(r, z[2], DPow2(-15))
BaryOk(r, q0, q1, q2, fb, gb) ==
  LET f == DBits(fb)
      g == DBits(gb)
      s == DAdd(f, g)
      x == SlerpD(DV(q0), DV(q1), s)
      y == SlerpD(DV(q0), DV(q2), s)
      z == SlerpD(x[2], y[2], Ch(DDiv(g, s)))
  IN  IF DLt(DAbs(s), DPow2(-17)) THEN NearQ(r, DV(q0), DPow2(-14))            \* the weights vanish: the first quaternion
      ELSE (DLt(DPow2(-12), DAbs(s)) /\ x[1] /\ y[1] /\ z[1]) => NearQ(r, z[2], DMul(DMul(TolT(s), TolT(DDiv(g, s))), DPow2(-15)))

\* ---------------------------------------------------------------- logarithm and exponential
OneLess == DSub(One, DDiv(DInt(1), DInt(100000)))
\* logarithm of a unit quaternion: axis * theta, theta = acos w
LnD(q) == LET w == q[4] IN IF DLt(OneLess, w) THEN <<q[1], q[2], q[3], DInt(0)>>
          ELSE LET th == Acos(w)
                   s == Ch(DDiv(th, DSqrt(DSub(One, DMul(w, w)))))
               IN  <<Ch(DMul(q[1], s)), Ch(DMul(q[2], s)), Ch(DMul(q[3], s)), DInt(0)>>
LnOk(r, v) ==
  LET q == DV(v)
      w == q[4]
      x == LnD(q)
      sn == DSqrt(DSub(One, DMul(w, w)))
      tol(i) == DAdd(DMul(DAbs(x[i]), DDiv(DPow2(-18), sn)), DPow2(-22))
      straight == \A i \in 1..3 : r[i] = v[i]
  IN  /\ IsZero(r[4])
      /\ IF DLt(DAdd(OneLess, DPow2(-22)), w) THEN straight
         ELSE IF DLt(w, DNeg(DSub(OneLess, DPow2(-22)))) THEN TRUE               \* next to -1 the axis carries no information
         ELSE (\A i \in 1..3 : FNear(r[i], x[i], tol(i))) \/ (DLt(DSub(OneLess, DPow2(-22)), w) /\ straight)
DLen3(q) == DSqrt(DAdd(DMul(q[1], q[1]), DAdd(DMul(q[2], q[2]), DMul(q[3], q[3]))))
ExpD(q) == LET th == DLen3(q) IN IF DLt(th, DPow2(-30)) THEN <<q[1], q[2], q[3], One>>
           ELSE LET sc == SinCos(th)
                    s == Ch(DDiv(sc[1], th))
                IN  <<Ch(DMul(q[1], s)), Ch(DMul(q[2], s)), Ch(DMul(q[3], s)), sc[2]>>
ExpOk(r, v) == LET q == DV(v)
                   th == DLen3(q)
                   x == ExpD(q)
                   e == DAdd(DPow2(-19), DMul(th, DPow2(-22)))
               IN  FNear(r[4], x[4], e) /\ \A i \in 1..3 : FNear(r[i], x[i], IF DLt(th, DPow2(-3)) THEN DAdd(DMul(DAbs(x[i]), DPow2(-18)), DPow2(-140)) ELSE e)
\* control points of a spherical quadrangle
SetupOk(r, q0v, q1v, q2v, q3v) ==
  LET q0 == DV(q0v)
      q1 == DV(q1v)
      q2 == DV(q2v)
      q3 == DV(q3v)
      c12 == DDot4(q1, q2)
      s2 == IF DSign(c12) < 0 THEN DNegV(q2) ELSE q2
      c01 == DDot4(q0, q1)
      s0 == IF DSign(c01) < 0 THEN DNegV(q0) ELSE q0
      c23 == DDot4(s2, q3)
      s3 == IF DSign(c23) < 0 THEN DNegV(q3) ELSE q3
      clear == DLt(DPow2(-18), DAbs(c12)) /\ DLt(DPow2(-18), DAbs(c01)) /\ DLt(DPow2(-18), DAbs(c23))
      Conj(q) == <<DNeg(q[1]), DNeg(q[2]), DNeg(q[3]), q[4]>>
      Q4(x) == Ch(DMul(x, DNeg(DPow2(-2))))
      E(base, u, w) == LET l1 == LnD(DQMul(u, Conj(base)))
                           l2 == LnD(DQMul(w, Conj(base)))
                       IN  ExpD(<<Q4(DAdd(l1[1], l2[1])), Q4(DAdd(l1[2], l2[2])), Q4(DAdd(l1[3], l2[3])), DInt(0)>>)
      aa == DQMul(E(q1, s0, s2), q1)
      bb == DQMul(E(s2, q1, s3), s2)
  IN  clear => /\ NearQ(At4(r, 1), aa, DPow2(-15)) /\ NearQ(At4(r, 5), bb, DPow2(-15))
               /\ \A i \in 1..4 : FNear(r[8 + i], s2[i], DInt(0))

\* ---------------------------------------------------------------- rotations
AngSlack(x) == DAdd(DPow2(-20), DMul(DAbs(x), DPow2(-22)))
EAng(x) == LET sc == SinCos(x)
               e == AngSlack(x)
           IN  <<EWiden(EOfDy(sc[1]), e), EWiden(EOfDy(sc[2]), e)>>
HalfOf(b) == EAng(DMul(DBits(b), DPow2(-1)))
AxisQ(n, b) == LET q == HalfOf(b) IN <<EMul(n[1], q[1]), EMul(n[2], q[1]), EMul(n[3], q[1]), q[2]>>
RPYQ(p, y, r) == LET a == HalfOf(p)
                     b == HalfOf(y)
                     c == HalfOf(r)
                 IN  EQMul(EQMul(<<EZero, b[1], EZero, b[2]>>, <<a[1], EZero, EZero, a[2]>>), <<EZero, EZero, c[1], c[2]>>)
ENorm3(x) == LET l == ELen(x, 3) IN <<EDiv(x[1], l), EDiv(x[2], l), EDiv(x[3], l), EZero>>
IsRotation(m) == /\ \A i, j \in 1..3 : Near(EVal(EDot(m[i], m[j], 3)), IF i = j THEN One ELSE DInt(0), DPow2(-20))
                 /\ DSign(EVal(EDet3(m[1], m[2], m[3], 1, 2, 3))) > 0
InverseOk(r, v) ==
  LET q == EV(v)
      l == EDot(q, q, 4)
      c == EQConj(q)
      Inv == \A i \in 1..4 : EOk(r[i], EDiv(c[i], l), K)
      Zer == \A i \in 1..4 : IsZero(r[i])
  IN  IF ~EIsNum(l) THEN EIsNan(l) => \A i \in 1..4 : IsNaN(r[i])
      ELSE IF DLt(DMul(EpsB, DAdd(One, DPow2(-18))), EVal(l)) THEN Inv
      ELSE IF DLt(EVal(l), DMul(EpsB, DSub(One, DPow2(-18)))) THEN Zer
      ELSE Inv \/ Zer

\* ---------------------------------------------------------------- planes
EstRel == DDiv(DInt(3), DInt(8192))
Comfy(x) == EIsNum(x) /\ DLt(DPow2(-100), EVal(x)) /\ DLt(EVal(x), DPow2(100))
Coord(x) == <<x[1], x[2], x[3], EOne>>
ENormPlane(x) == LET l == ELen(x, 3) IN T4(LAMBDA i : EDiv(x[i], l))
\* D is (not) clearly within the library's epsilon of zero
LinePlaneOk(r, a) ==
  LET p == EV(V(a, 0))
      x == EV(V(a, 1))
      y == EV(V(a, 2))
      d == ESub(EDot(p, x, 3), EDot(p, y, 3))
      t == EDiv(EDot(p, Coord(x), 4), d)
      Hit == \A i \in 1..3 : EOk(r[i], EAdd(x[i], EMul(ESub(y[i], x[i]), t)), 2 * K)
      None == \A i \in 1..4 : IsNaN(r[i])
      m == DMul(DInt(4), EErr(d))
  IN  IF ~EIsNum(d) THEN TRUE
      ELSE IF DLt(DAdd(EpsB, m), DAbs(EVal(d))) THEN Hit
      ELSE IF DLt(DAdd(DAbs(EVal(d)), m), EpsB) THEN None
      ELSE TRUE
PlanePlaneOk(r, a) ==
  LET p == EV(V(a, 0))
      q == EV(V(a, 1))
      d == ECross3(q, p)
      l == EDot(d, d, 3)
      u == ECross3(q, d)
      w == ECross3(d, p)
      x == T4(LAMBDA i : EDiv(EAdd(EMul(u[i], p[4]), EMul(w[i], q[4])), l))
      Hit == \A i \in 1..3 : EOk(r[i], x[i], 2 * K) /\ EOk(r[4 + i], EAdd(x[i], d[i]), 2 * K)
      None == \A i \in 1..8 : IsNaN(r[i])
      m == DMul(DInt(4), EErr(l))
  IN  IF ~EIsNum(l) THEN TRUE
      ELSE IF DLt(DAdd(EpsB, m), EVal(l)) THEN Hit
      ELSE IF DLt(DAdd(EVal(l), m), EpsB) THEN None
      ELSE TRUE
NearEqualOk(r, a) ==
  LET p == ENormPlane(EV(V(a, 0)))
      q == ENormPlane(EV(V(a, 1)))
      e == EV(V(a, 2))
      d == T4(LAMBDA i : EAbs(ESub(p[i], q[i])))
      m(i) == DAdd(DMul(DInt(4), EErr(d[i])), DPow2(-22))
  IN  IF \E i \in 1..4 : ~EIsNum(d[i]) \/ ~EIsNum(e[i]) THEN TRUE
      ELSE IF \A i \in 1..4 : DLt(DAdd(EVal(d[i]), m(i)), EVal(e[i])) THEN r[1] = 1
      ELSE IF \E i \in 1..4 : DLt(EVal(e[i]), DSub(EVal(d[i]), m(i))) THEN r[1] = 0
      ELSE TRUE
FromPoints(a) ==
  LET x == EV(V(a, 0))
      n == ENorm3(ECross3(EVSub(x, EV(V(a, 1))), EVSub(x, EV(V(a, 2)))))
  IN  <<n[1], n[2], n[3], ENeg(EDot(n, x, 3))>>

Ok(o, a, r) ==
  CASE o = "XMQuaternionMultiply" -> EOkV(r, EQMul(EV(V(a, 1)), EV(V(a, 0))), K)            \* first operand applied first
    [] o = "XMQuaternionConjugate" -> \A i \in 1..4 : EqOrNaN(r[i], IF i = 4 THEN a[4] ELSE FNegBits(a[i]))
    [] o = "XMQuaternionInverse" -> InverseOk(r, V(a, 0))
    [] o = "XMQuaternionIdentity" -> SameBits(r, <<0, 0, 0, OneB>>)
    [] o = "XMQuaternionLn" -> LnOk(r, V(a, 0))
    [] o = "XMQuaternionExp" -> ExpOk(r, V(a, 0))
    [] o = "XMQuaternionSlerp" -> SlerpOk(r, V(a, 0), V(a, 1), a[9])
    [] o = "XMQuaternionSlerpV" -> SlerpOk(r, V(a, 0), V(a, 1), a[9])
    [] o \in {"XMQuaternionSquad", "XMQuaternionSquadV"} -> SquadOk(r, V(a, 0), V(a, 1), V(a, 2), V(a, 3), a[17])
    [] o = "XMQuaternionBaryCentric" -> BaryOk(r, V(a, 0), V(a, 1), V(a, 2), a[13], a[14])
    [] o = "XMQuaternionBaryCentricV" -> BaryOk(r, V(a, 0), V(a, 1), V(a, 2), a[13], a[17])
    [] o = "XMQuaternionSquadSetup" -> SetupOk(r, V(a, 0), V(a, 1), V(a, 2), V(a, 3))
    [] o \in {"XMQuaternionRotationRollPitchYaw", "XMQuaternionRotationRollPitchYawFromVector"} -> (\A i \in 1..3 : IsFin(a[i]) /\ DLe(DAbs(DBits(a[i])), DInt(65536))) => EOkV(r, RPYQ(a[1], a[2], a[3]), K)
    [] o = "XMQuaternionRotationNormal" -> EOkV(r, AxisQ(EV(V(a, 0)), a[5]), K)
    [] o = "XMQuaternionRotationAxis" -> EOkV(r, AxisQ(ENorm3(EV(V(a, 0))), a[5]), K)
    [] o = "XMQuaternionRotationMatrix" ->
         LET m == EM(a, 1)
             q == EV(r)
             x == EQMat(q)
         IN  IsRotation(m) => /\ \A i \in 1..4 : IsFin(r[i])
                              /\ Near(EVal(EDot(q, q, 4)), One, DPow2(-18))
                              /\ \A i, j \in 1..3 : Near(EVal(x[i][j]), EVal(m[i][j]), DPow2(-17))
    [] o = "XMQuaternionToAxisAngle" -> SameBits(At4(r, 1), V(a, 0)) /\ FNear(r[5], DMul(DInt(2), Acos(DMax(DInt(-1), DMin(One, DBits(a[4]))))), DPow2(-17))
    [] o = "XMPlaneDot" -> Splat4(r, EDot(EV(V(a, 0)), EV(V(a, 1)), 4), K)
    [] o = "XMPlaneDotCoord" -> Splat4(r, EDot(EV(V(a, 0)), Coord(EV(V(a, 1))), 4), K)
    [] o = "XMPlaneDotNormal" -> Splat4(r, EDot(EV(V(a, 0)), EV(V(a, 1)), 3), K)
    [] o = "XMPlaneNormalize" -> LET p == EV(V(a, 0)) IN Comfy(EDot(p, p, 3)) => EOkV(r, ENormPlane(p), K)
    [] o = "XMPlaneNormalizeEst" -> LET p == EV(V(a, 0))
                                        n == ENormPlane(p)
                                    IN  Comfy(EDot(p, p, 3)) => \A i \in 1..4 : EOk(r[i], IF EIsNum(n[i]) THEN EWiden(n[i], DMul(EVal(n[i]), EstRel)) ELSE n[i], K)
    [] o = "XMPlaneIntersectLine" -> LinePlaneOk(r, a)
    [] o = "XMPlaneIntersectPlane" -> PlanePlaneOk(r, a)
    [] o = "XMPlaneTransform" -> EOkV(r, EVecMat4(EV(V(a, 0)), EM(a, 5)), K)
    [] o = "XMPlaneFromPointNormal" -> (\A i \in 1..3 : r[i] = a[4 + i]) /\ EOk(r[4], ENeg(EDot(EV(V(a, 0)), EV(V(a, 1)), 3)), K)
    [] o = "XMPlaneFromPoints" -> EOkV(r, FromPoints(a), 2 * K)
    [] o = "XMPlaneNearEqual" -> NearEqualOk(r, a)
=============================================================================
