-------------------------------- MODULE CollB --------------------------------
(***************************************************************************)
(* Conformance relation for building and transforming bounding volumes:    *)
(* corners and planes, volumes enclosing points and other volumes, and     *)
(* images under matrices and scale-rotate-translate.                       *)
(***************************************************************************)
EXTENDS CGeom

Tol == DPow2(-17)
AllFin(r) == \A i \in 1..Len(r) : IsFin(r[i])
Near(x, y, w) == DLe(DAbs(DSub(x, y)), DAdd(w, DPow2(-140)))
Near3(x, y, w) == Near(x[1], y[1], w) /\ Near(x[2], y[2], w) /\ Near(x[3], y[3], w)
Unit4(q) == Near(DAdd(DAdd(DMul(q[1], q[1]), DMul(q[2], q[2])), DAdd(DMul(q[3], q[3]), DMul(q[4], q[4]))), D1, DPow2(-17))
Pts(a, p, n) == [i \in 1..n |-> P3(a, p + 3 * (i - 1))]
\* the n points of a, evaluated once
RECURSIVE PtsR(_, _, _)
PtsR(a, p, n) == IF n = 0 THEN <<>> ELSE <<P3(a, p)>> \o PtsR(a, p + 3, n - 1)

\* ---------------------------------------------------------------- corners and planes
CornersOk(t, a, r) ==
  LET A == Body(t, a, 1)
      w == DMul(DPow2(-20), ScaleB(A))
  IN  AllFin(r) /\ Len(r) = 24 /\ \A i \in 1..8 : Near3(P3(r, 3 * i - 2), A.v[i], w)
\* near, far, right, left, top, bottom as planes n.x + d = 0 with unit outward normals; only those asked for are written
PlanesOk(a, r) ==
  LET A == Body("F", a, 1)
      ask(i) == (a[14] \div (2 ^ (i - 1))) % 2 = 1
      w == DMul(DPow2(-19), ScaleB(A))
  IN  \A i \in 1..6 :
        LET p == 4 * i - 3
            l == Len3(A.h[i].n)
        IN  IF ~ask(i) THEN \A j \in 0..3 : r[p + j] = QNaN
            ELSE /\ AllFin(<<r[p], r[p + 1], r[p + 2], r[p + 3]>>)
                 /\ Near3(P3(r, p), <<DDiv(A.h[i].n[1], l), DDiv(A.h[i].n[2], l), DDiv(A.h[i].n[3], l)>>, DPow2(-20))
                 /\ Near(DBits(r[p + 3]), DNeg(DDiv(A.h[i].d, l)), w)
\* frustum of a perspective projection: origin, no rotation, slopes and depths of the pre-image of the clip volume
FromMatrixOk(a, r) ==
  LET m(i, j) == DBits(a[4 * (i - 1) + j])
      s == m(3, 4)                                  \* +1 left-handed, -1 right-handed
      x == DDiv(DSub(s, m(3, 1)), m(1, 1))
      x2 == DDiv(DSub(DNeg(s), m(3, 1)), m(1, 1))
      y == DDiv(DSub(s, m(3, 2)), m(2, 2))
      y2 == DDiv(DSub(DNeg(s), m(3, 2)), m(2, 2))
      n == DNeg(DDiv(m(4, 3), m(3, 3)))
      f == DDiv(m(4, 3), DSub(s, m(3, 3)))
      \* conditioning of the far plane
      c == DAdd(D1, DAbs(DDiv(m(3, 3), DSub(s, m(3, 3)))))
      rh == a[17] = 1
      Rel(v) == DMul(DAdd(DAbs(v), DPow2(-4)), DPow2(-19))
  IN  /\ AllFin(r)
      /\ \A i \in {1, 2, 3} : IsZero(r[i])
      /\ \A i \in {4, 5, 6} : IsZero(r[i])
      /\ r[7] = OneB
      /\ Near(DBits(r[8]), x, Rel(x)) /\ Near(DBits(r[9]), x2, Rel(x2))
      /\ Near(DBits(r[10]), y, Rel(y)) /\ Near(DBits(r[11]), y2, Rel(y2))
      /\ LET nn == DBits(IF rh THEN r[13] ELSE r[12])
             ff == DBits(IF rh THEN r[12] ELSE r[13])
         IN  /\ Near(nn, n, DMul(DMul(DAbs(n), c), DPow2(-20)))
             /\ Near(ff, f, DMul(DMul(DAbs(f), c), DPow2(-20)))

\* ---------------------------------------------------------------- enclosing volumes
MergeSphereOk(a, r) ==
  LET c1 == P3(a, 1) r1 == DBits(a[4]) c2 == P3(a, 5) r2 == DBits(a[8])
      d == Len3(Sub3(c2, c1))
      w == DMul(Tol, DAdd(DAdd(MaxAbs3(c1), MaxAbs3(c2)), DAdd(r1, r2)))
      rr == IF DLe(DAdd(d, r2), r1) THEN r1 ELSE IF DLe(DAdd(d, r1), r2) THEN r2 ELSE DMul(DAdd(d, DAdd(r1, r2)), DPow2(-1))
      S == Body("S", r, 1)
  IN  /\ AllFin(r)
      /\ Near(S.r, rr, w)                                                 \* the smallest sphere ...
      /\ DLe(Outside(S, Body("S", a, 1)), w) /\ DLe(Outside(S, Body("S", a, 5)), w)   \* ... around both
MinMax(a, i) == <<DSub(DBits(a[i]), DBits(a[i + 3])), DAdd(DBits(a[i]), DBits(a[i + 3]))>>
BoxIs(r, i, lo, hi, w) == Near(DSub(DBits(r[i]), DBits(r[i + 3])), lo, w) /\ Near(DAdd(DBits(r[i]), DBits(r[i + 3])), hi, w)
MergeBoxOk(a, r) ==
  /\ AllFin(r)
  /\ \A i \in 1..3 :
       LET p == MinMax(a, i)
           q == MinMax(a, i + 6)
           w == DMul(DPow2(-21), DAdd(DAdd(DAbs(p[1]), DAbs(p[2])), DAdd(DAbs(q[1]), DAbs(q[2]))))
       IN  BoxIs(r, i, DMin(p[1], q[1]), DMax(p[2], q[2]), w)
BoundsOk(v, r, rel) ==       \* r is the tightest axis-aligned box around the points v
  /\ AllFin(r)
  /\ \A i \in 1..3 :
       LET x == [j \in 1..Len(v) |-> v[j][i]]
       IN  BoxIs(r, i, MinSeq(x, 1), MaxSeq(x, 1), DMul(rel, ScaleOf(v, 1)))
RECURSIVE Diam2(_, _, _)
Diam2(v, i, j) == IF i > Len(v) THEN D0 ELSE IF j > Len(v) THEN Diam2(v, i + 1, i + 2) ELSE DMax(Sq3(Sub3(v[i], v[j])), Diam2(v, i, j + 1))
\* an enclosing sphere no larger than the points call for: between half the diameter and the diameter
SphereAroundOk(v, r) ==
  LET S == Body("S", r, 1)
      w == DAdd(DPow2(-60), DMul(Tol, ScaleOf(v, 1)))
      d == DSqrt(Diam2(v, 1, 2))
  IN  /\ AllFin(r)
      /\ DLe(DSqrt(Far2(S.c, v, 1)), DAdd(S.r, w))
      /\ DLe(DMul(d, DPow2(-1)), DAdd(S.r, w))
      /\ DLe(S.r, DAdd(DMul(d, DDiv(DInt(3), DInt(4))), w))
\* ... and when the two farthest points (by a margin; the unique extremes along an axis) have all others between them, their diametral sphere
SpannedOk(v, r) ==
  LET S == Body("S", r, 1)
      w == DAdd(DPow2(-60), DMul(Tol, ScaleOf(v, 1)))
      n == Len(v)
      M == DSub(D1, DPow2(-10))
      Ext(i, j) == \E c \in 1..3 : \A k \in 1..n : (k = i \/ DLt(v[i][c], v[k][c])) /\ (k = j \/ DLt(v[k][c], v[j][c]))
      Spans(i, j) ==
        /\ i # j /\ Ext(i, j)
        /\ LET d2 == Sq3(Sub3(v[i], v[j]))
               m == Scale3(Add3(v[i], v[j]), DPow2(-1))
               e == DMul(d2, M)
           IN  /\ \A k \in 1..n : k \in {i, j} \/ DLe(DMul(Sq3(Sub3(v[k], m)), DInt(4)), e)
               /\ \A k, l \in 1..n : k >= l \/ {k, l} = {i, j} \/ DLe(Sq3(Sub3(v[k], v[l])), e)
               /\ ~(Near3(P3(r, 1), m, DMul(w, DInt(2))) /\ Near(S.r, DMul(DSqrt(d2), DPow2(-1)), DMul(w, DInt(2))))
  IN  ~\E i, j \in 1..n : Spans(i, j)
OBoxAroundOk(v, r) ==
  LET O == Body("O", r, 1)
      w == DAdd(DPow2(-60), DMul(DPow2(-15), ScaleOf(v, 1)))
  IN  /\ AllFin(r)
      /\ Unit4(Q4(r, 7))
      /\ \A i \in 1..3 :
           /\ DSign(O.e[i]) >= 0
           /\ LET m == Dot3(O.ax[i], O.c)                       \* encloses, and touches on both sides
              IN  Near(Hi(O.ax[i], v), DAdd(m, O.e[i]), w) /\ Near(Lo(O.ax[i], v), DSub(m, O.e[i]), w)

\* the axes of the box around points are the principal axes of the points: their covariance is diagonal along them
RECURSIVE SumV(_, _)
SumV(v, i) == IF i > Len(v) THEN <<D0, D0, D0>> ELSE Add3(v[i], SumV(v, i + 1))
RECURSIVE Quad(_, _, _, _)
Quad(v, x, y, i) == IF i > Len(v) THEN D0 ELSE DAdd(DMul(Dot3(v[i], x), Dot3(v[i], y)), Quad(v, x, y, i + 1))
RECURSIVE Rel(_, _, _)
Rel(v, m, i) == IF i > Len(v) THEN <<>> ELSE <<Sub3(v[i], m)>> \o Rel(v, m, i + 1)
PrincipalOk(v, r) ==
  LET O == Body("O", r, 1)
      s == SumV(v, 1)
      n == DInt(Len(v))
      u == Rel(v, <<DDiv(s[1], n), DDiv(s[2], n), DDiv(s[3], n)>>, 1)
      e == <<<<D1, D0, D0>>, <<D0, D1, D0>>, <<D0, D0, D1>>>>
      M(i, j) == Quad(u, e[i], e[j], 1)
      xx == M(1, 1) yy == M(2, 2) zz == M(3, 3) xy == M(1, 2) xz == M(1, 3) yz == M(2, 3)
      tr == DAdd(xx, DAdd(yy, zz))
      N(x) == DDiv(x, tr)
      a == N(xx) b == N(yy) c == N(zz) d == N(xy) f == N(xz) g == N(yz)
      p == DSub(DAdd(DMul(a, b), DAdd(DMul(b, c), DMul(a, c))), DAdd(DMul(d, d), DAdd(DMul(f, f), DMul(g, g))))
      q == DSub(DAdd(DMul(a, DMul(b, c)), DMul(DInt(2), DMul(d, DMul(f, g)))), DAdd(DMul(a, DMul(g, g)), DAdd(DMul(b, DMul(f, f)), DMul(c, DMul(d, d)))))
      \* squared product of the eigenvalue differences, with trace one
      disc == DSub(DAdd(DMul(p, p), DMul(DInt(18), DMul(p, q))), DAdd(DMul(DInt(4), DMul(p, DMul(p, p))), DAdd(DMul(DInt(4), q), DMul(DInt(27), DMul(q, q)))))
      \* no eigenvector is close to the xy plane (the construction gives up on those): determinant of e3, C e3, C C e3
      kr == DSub(DMul(f, DAdd(DMul(d, f), DMul(g, DAdd(b, c)))), DMul(g, DAdd(DMul(d, g), DMul(f, DAdd(a, c)))))
      sc == ScaleOf(v, 1)
      Along(i, j) == Quad(u, O.ax[i], O.ax[j], 1)
      w == DMul(tr, DPow2(-5))
  IN  (DLt(DMul(DPow2(-20), DMul(sc, sc)), tr) /\ DLt(DPow2(-11), disc) /\ DLt(DPow2(-11), DAbs(kr))) =>
        \A k \in {<<1, 2>>, <<1, 3>>, <<2, 3>>} : DLe(DAbs(Along(k[1], k[2])), w)

\* ---------------------------------------------------------------- transforms
\* image of a point under the matrix at p
MRow(a, p, i) == P3(a, p + 4 * (i - 1))
Img(x, a, p) == Add3(Add3(Scale3(MRow(a, p, 1), x[1]), Scale3(MRow(a, p, 2), x[2])), Add3(Scale3(MRow(a, p, 3), x[3]), MRow(a, p, 4)))
MScale(a, p) == DAdd(DAdd(MaxAbs3(MRow(a, p, 1)), MaxAbs3(MRow(a, p, 2))), MaxAbs3(MRow(a, p, 3)))
\* image under scale s, rotation q, translation t at p
ImgD(x, a, p) == Add3(Lin(QAxes(Q4(a, p + 1)), Scale3(x, DBits(a[p]))), P3(a, p + 5))
ImageOk(t, a, r, I(_), lin, off, radius) ==
  LET A == Body(t, a, 1)
      w == DMul(DPow2(-18), DAdd(DMul(ScaleB(A), lin), off))          \* lin: size of the linear part, off: of the translation
  IN  /\ AllFin(r)
      /\ CASE t = "S" -> Near3(P3(r, 1), I(A.c), w) /\ Near(DBits(r[4]), DMul(A.r, radius), w)
           [] t = "B" -> LET v == Map8(LAMBDA i : I(A.v[i]))
                         IN  \A i \in 1..3 : BoxIs(r, i, MinSeq(Map8(LAMBDA j : v[j][i]), 1), MaxSeq(Map8(LAMBDA j : v[j][i]), 1), w)
           [] OTHER -> LET R == Body(t, r, 1)
                       IN  \A i \in 1..8 : Near3(R.v[i], I(A.v[i]), DMul(w, DInt(4)))
LongRow(a, p) == DSqrt(DMax(Sq3(MRow(a, p, 1)), DMax(Sq3(MRow(a, p, 2)), Sq3(MRow(a, p, 3)))))
MatrixOk(t, a, r) == LET p == 1 + Size(t) IN ImageOk(t, a, r, LAMBDA x : Img(x, a, p), MScale(a, p), MaxAbs3(MRow(a, p, 4)), LongRow(a, p))
DecompOk(t, a, r) == LET p == 1 + Size(t) IN ImageOk(t, a, r, LAMBDA x : ImgD(x, a, p), DAbs(DBits(a[p])), MaxAbs3(P3(a, p + 5)), DBits(a[p]))

Ok(o, a, r) ==
  CASE o = "Corners_B" -> CornersOk("B", a, r) [] o = "Corners_O" -> CornersOk("O", a, r) [] o = "Corners_F" -> CornersOk("F", a, r)
    [] o = "Planes_F" -> PlanesOk(a, r)
    [] o = "FromMatrix_F" -> FromMatrixOk(a, r)
    [] o = "Merged_S" -> MergeSphereOk(a, r)
    [] o = "Merged_B" -> MergeBoxOk(a, r)
    [] o = "SphereFromBox" -> AllFin(r) /\ SubSeq(r, 1, 3) = SubSeq(a, 1, 3) /\ Near(DBits(r[4]), Len3(P3(a, 4)), DMul(DPow2(-21), Len3(P3(a, 4))))
    [] o = "SphereFromOBox" -> AllFin(r) /\ SubSeq(r, 1, 3) = SubSeq(a, 1, 3) /\ Near(DBits(r[4]), Len3(P3(a, 4)), DMul(DPow2(-21), Len3(P3(a, 4))))
    [] o = "SphereFromPoints" -> SphereAroundOk(PtsR(a, 2, a[1]), r) /\ SpannedOk(PtsR(a, 2, a[1]), r)
    [] o = "SphereFromFrustum" -> SphereAroundOk(Body("F", a, 1).v, r)
    [] o = "BoxFromSphere" -> /\ AllFin(r)
                              /\ \A i \in 1..3 : BoxIs(r, i, DSub(DBits(a[i]), DBits(a[4])), DAdd(DBits(a[i]), DBits(a[4])), DMul(DPow2(-21), DAdd(DAbs(DBits(a[i])), DBits(a[4]))))
    [] o = "BoxFromPoints" -> BoundsOk(PtsR(a, 2, a[1]), r, DPow2(-21))
    [] o = "OBoxFromBox" -> SubSeq(r, 1, 6) = SubSeq(a, 1, 6) /\ \A i \in 7..9 : IsZero(r[i]) /\ r[10] = OneB
    [] o = "OBoxFromPoints" -> OBoxAroundOk(PtsR(a, 2, a[1]), r) /\ PrincipalOk(PtsR(a, 2, a[1]), r)
    [] o \in {"Empty_S", "Empty_B", "Empty_O"} -> r[1] = 0            \* a volume built from no points contains none
    [] o = "Matrix_S" -> MatrixOk("S", a, r) [] o = "Matrix_B" -> MatrixOk("B", a, r) [] o = "Matrix_O" -> MatrixOk("O", a, r) [] o = "Matrix_F" -> MatrixOk("F", a, r)
    [] o = "Decomp_S" -> DecompOk("S", a, r) [] o = "Decomp_B" -> DecompOk("B", a, r) [] o = "Decomp_O" -> DecompOk("O", a, r) [] o = "Decomp_F" -> DecompOk("F", a, r)
=============================================================================
