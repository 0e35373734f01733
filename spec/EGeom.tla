------------------------------- MODULE EGeom -------------------------------
(***************************************************************************)
(* Vectors, matrices and quaternions over E numbers (exact value plus a    *)
(* running error bound), following the textbook definitions.               *)
(***************************************************************************)
EXTENDS Lib

\* tuples rather than function expressions: TLC evaluates them once
T4(Op(_)) == <<Op(1), Op(2), Op(3), Op(4)>>
EZero == EInt(0)
EOne  == EInt(1)
ETwo  == EInt(2)
ESq(x) == EMul(x, x)
EHalf(x) == EMul(x, EOfDy(DPow2(-1)))
ESum2(a, b) == ESum(<<a, b>>)
ESum3(a, b, c) == ESum(<<a, b, c>>)
ESum4(a, b, c, d) == ESum(<<a, b, c, d>>)
\* dot product of the first n lanes
EDot(x, y, n) == ESum([i \in 1..n |-> EMul(x[i], y[i])])
EVAdd(x, y) == T4(LAMBDA i : EAdd(x[i], y[i]))
EVSub(x, y) == T4(LAMBDA i : ESub(x[i], y[i]))
EVScale(x, s) == T4(LAMBDA i : EMul(x[i], s))
EVNeg(x) == T4(LAMBDA i : ENeg(x[i]))
ECross2(x, y) == ESum2(EMul(x[1], y[2]), ENeg(EMul(x[2], y[1])))
EMinor(a, b, c, d) == ESum2(EMul(a, d), ENeg(EMul(b, c)))           \* |a b; c d|
ECross3(x, y) == <<EMinor(x[2], x[3], y[2], y[3]), EMinor(x[3], x[1], y[3], y[1]), EMinor(x[1], x[2], y[1], y[2]), EZero>>
\* |a; b; c| of the three given columns
EDet3(a, b, c, p, q, s) == ESum3(EMul(a[p], EMinor(b[q], b[s], c[q], c[s])), ENeg(EMul(a[q], EMinor(b[p], b[s], c[p], c[s]))), EMul(a[s], EMinor(b[p], b[q], c[p], c[q])))
ELen(x, n) == ESqrt(EDot(x, x, n))

\* ---------------------------------------------------------------- matrices: sequences of 4 rows of 4 E numbers
EM(a, p) == T4(LAMBDA i : EV(Row(a, p, i)))
EMId == T4(LAMBDA i : T4(LAMBDA j : IF i = j THEN EOne ELSE EZero))
EMatMul(m, n) == T4(LAMBDA i : T4(LAMBDA j : ESum4(EMul(m[i][1], n[1][j]), EMul(m[i][2], n[2][j]), EMul(m[i][3], n[3][j]), EMul(m[i][4], n[4][j]))))
EMatT(m) == T4(LAMBDA i : T4(LAMBDA j : m[j][i]))
\* row vector times matrix, using lanes in S and row 4 as a constant term when affine
EVecMat4(x, m) == T4(LAMBDA j : ESum4(EMul(x[1], m[1][j]), EMul(x[2], m[2][j]), EMul(x[3], m[3][j]), EMul(x[4], m[4][j])))
EPoint3(x, m) == T4(LAMBDA j : ESum4(EMul(x[1], m[1][j]), EMul(x[2], m[2][j]), EMul(x[3], m[3][j]), m[4][j]))
EPoint2(x, m) == T4(LAMBDA j : ESum3(EMul(x[1], m[1][j]), EMul(x[2], m[2][j]), m[4][j]))
EDir3(x, m) == T4(LAMBDA j : ESum3(EMul(x[1], m[1][j]), EMul(x[2], m[2][j]), EMul(x[3], m[3][j])))
EDir2(x, m) == T4(LAMBDA j : ESum2(EMul(x[1], m[1][j]), EMul(x[2], m[2][j])))
EDivW(x) == T4(LAMBDA j : EDiv(x[j], x[4]))
Others(k) == CASE k = 1 -> <<2, 3, 4>> [] k = 2 -> <<1, 3, 4>> [] k = 3 -> <<1, 2, 4>> [] k = 4 -> <<1, 2, 3>>
\* cofactor of entry (i, j)
ECof(m, i, j) == LET r == Others(i)
                     c == Others(j)
                     d == EDet3(m[r[1]], m[r[2]], m[r[3]], c[1], c[2], c[3])
                 IN  IF (i + j) % 2 = 0 THEN d ELSE ENeg(d)
EDetM(m) == ESum4(EMul(m[1][1], ECof(m, 1, 1)), EMul(m[1][2], ECof(m, 1, 2)), EMul(m[1][3], ECof(m, 1, 3)), EMul(m[1][4], ECof(m, 1, 4)))
EInvM(m) == LET d == EDetM(m) IN T4(LAMBDA i : T4(LAMBDA j : EDiv(ECof(m, j, i), d)))
EOkM(r, p, m, k) == \A i, j \in 1..4 : EOk(r[p + 4 * (i - 1) + j - 1], m[i][j], k)
\* multiply every error bound by f
ELoose(x, f) == IF EIsNum(x) THEN EMk(EVal(x), DMul(EErr(x), DInt(f))) ELSE x

\* ---------------------------------------------------------------- quaternions <<x, y, z, w>>
\* Hamilton product p q
EQMul(p, q) == <<ESum4(EMul(p[4], q[1]), EMul(p[1], q[4]), EMul(p[2], q[3]), ENeg(EMul(p[3], q[2]))),
                 ESum4(EMul(p[4], q[2]), ENeg(EMul(p[1], q[3])), EMul(p[2], q[4]), EMul(p[3], q[1])),
                 ESum4(EMul(p[4], q[3]), EMul(p[1], q[2]), ENeg(EMul(p[2], q[1])), EMul(p[3], q[4])),
                 ESum4(EMul(p[4], q[4]), ENeg(EMul(p[1], q[1])), ENeg(EMul(p[2], q[2])), ENeg(EMul(p[3], q[3])))>>
EQConj(q) == <<ENeg(q[1]), ENeg(q[2]), ENeg(q[3]), q[4]>>
\* rotate a 3-vector: q v q*
EQRot(v, q) == EQMul(EQMul(q, <<v[1], v[2], v[3], EZero>>), EQConj(q))
\* the rotation matrix (row-vector convention) of a quaternion
EQMat(q0) ==
  LET q == T4(LAMBDA i : IF EIsNum(q0[i]) /\ EIsAny(EMul(ETwo, q0[i])) THEN EAnyV(0) ELSE q0[i])   \* twice a component may overflow
      xx == ESq(q[1]) yy == ESq(q[2]) zz == ESq(q[3])
      xy == EMul(q[1], q[2]) xz == EMul(q[1], q[3]) yz == EMul(q[2], q[3])
      xw == EMul(q[1], q[4]) yw == EMul(q[2], q[4]) zw == EMul(q[3], q[4])
      D(a, b) == ESum3(EOne, ENeg(EMul(ETwo, a)), ENeg(EMul(ETwo, b)))
      A(a, b) == ESum2(EMul(ETwo, a), EMul(ETwo, b))
  IN  << <<D(yy, zz), A(xy, zw), A(xz, ENeg(yw)), EZero>>,
         <<A(xy, ENeg(zw)), D(xx, zz), A(yz, xw), EZero>>,
         <<A(xz, yw), A(yz, ENeg(xw)), D(xx, yy), EZero>>,
         <<EZero, EZero, EZero, EOne>> >>
=============================================================================
