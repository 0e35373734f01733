-------------------------------- MODULE CGeom --------------------------------
(***************************************************************************)
(* Exact geometry of the convex bodies used by the collision functions,    *)
(* over dyadic numbers.  A body is a sphere, or a polytope given by its    *)
(* vertices, outward half-spaces, face normals and edge directions; a      *)
(* point and a triangle are degenerate polytopes.                          *)
(*   Sep(A, B): gap between the bodies (negative when they overlap)        *)
(*   Outside(A, B): how far B sticks out of A (not positive when contained)*)
(***************************************************************************)
EXTENDS Lib, TLC

D0 == DInt(0)
D1 == DInt(1)
D3(x, y, z) == <<x, y, z>>
P3(a, p) == <<DBits(a[p]), DBits(a[p + 1]), DBits(a[p + 2])>>
Add3(x, y) == <<DAdd(x[1], y[1]), DAdd(x[2], y[2]), DAdd(x[3], y[3])>>
Sub3(x, y) == <<DSub(x[1], y[1]), DSub(x[2], y[2]), DSub(x[3], y[3])>>
Scale3(x, s) == <<DMul(x[1], s), DMul(x[2], s), DMul(x[3], s)>>
Neg3(x) == <<DNeg(x[1]), DNeg(x[2]), DNeg(x[3])>>
Dot3(x, y) == DAdd(DAdd(DMul(x[1], y[1]), DMul(x[2], y[2])), DMul(x[3], y[3]))
Cross3(x, y) == <<DSub(DMul(x[2], y[3]), DMul(x[3], y[2])), DSub(DMul(x[3], y[1]), DMul(x[1], y[3])), DSub(DMul(x[1], y[2]), DMul(x[2], y[1]))>>
Sq3(x) == Dot3(x, x)
Len3(x) == DSqrt(Sq3(x))
Chop3(x) == <<DChop(x[1], 8), DChop(x[2], 8), DChop(x[3], 8)>>
Zero3 == <<D0, D0, D0>>
AxX == <<D1, D0, D0>>
AxY == <<D0, D1, D0>>
AxZ == <<D0, D0, D1>>
MaxAbs3(x) == DMax(DAbs(x[1]), DMax(DAbs(x[2]), DAbs(x[3])))
\* evaluate a function expression once, as a tuple
Map8(Op(_)) == <<Op(1), Op(2), Op(3), Op(4), Op(5), Op(6), Op(7), Op(8)>>
Map6(Op(_)) == <<Op(1), Op(2), Op(3), Op(4), Op(5), Op(6)>>
Map3(Op(_)) == <<Op(1), Op(2), Op(3)>>

RECURSIVE MaxSeq(_, _), MinSeq(_, _)
MaxSeq(s, i) == IF i = Len(s) THEN s[i] ELSE DMax(s[i], MaxSeq(s, i + 1))
MinSeq(s, i) == IF i = Len(s) THEN s[i] ELSE DMin(s[i], MinSeq(s, i + 1))
\* largest and smallest of n.v over the vertices
RECURSIVE SupHi(_, _, _), SupLo(_, _, _)
SupHi(n, v, i) == IF i = Len(v) THEN Dot3(n, v[i]) ELSE DMax(Dot3(n, v[i]), SupHi(n, v, i + 1))
SupLo(n, v, i) == IF i = Len(v) THEN Dot3(n, v[i]) ELSE DMin(Dot3(n, v[i]), SupLo(n, v, i + 1))
Hi(n, v) == SupHi(n, v, 1)
Lo(n, v) == SupLo(n, v, 1)
RECURSIVE ScaleOf(_, _)
ScaleOf(v, i) == IF i = Len(v) THEN MaxAbs3(v[i]) ELSE DMax(MaxAbs3(v[i]), ScaleOf(v, i + 1))

-----------------------------------------------------------------------------
(* bodies *)
\* images of the coordinate axes under the rotation of quaternion q
QAxes(q) ==
  LET two == DInt(2)
      xx == DMul(q[1], q[1]) yy == DMul(q[2], q[2]) zz == DMul(q[3], q[3])
      xy == DMul(q[1], q[2]) xz == DMul(q[1], q[3]) yz == DMul(q[2], q[3])
      xw == DMul(q[1], q[4]) yw == DMul(q[2], q[4]) zw == DMul(q[3], q[4])
      D(s, t) == DSub(D1, DMul(two, DAdd(s, t)))
      A(s, t) == DMul(two, DAdd(s, t))
      S(s, t) == DMul(two, DSub(s, t))
  IN  << <<D(yy, zz), A(xy, zw), S(xz, yw)>>, <<S(xy, zw), D(xx, zz), A(yz, xw)>>, <<A(xz, yw), S(yz, xw), D(xx, yy)>> >>
Lin(ax, x) == Add3(Add3(Scale3(ax[1], x[1]), Scale3(ax[2], x[2])), Scale3(ax[3], x[3]))
Q4(a, p) == <<DBits(a[p]), DBits(a[p + 1]), DBits(a[p + 2]), DBits(a[p + 3])>>

\* corner signs in the documented order of GetCorners
BoxSign == << <<-1, -1, 1>>, <<1, -1, 1>>, <<1, 1, 1>>, <<-1, 1, 1>>, <<-1, -1, -1>>, <<1, -1, -1>>, <<1, 1, -1>>, <<-1, 1, -1>> >>
Flip(x, s) == IF s < 0 THEN DNeg(x) ELSE x
Half(n, d) == [n |-> n, d |-> d]
\* box with centre c, half-widths e along ax
BoxBody(c, e, ax) ==
  [ty |-> "O", c |-> c, e |-> e, ax |-> ax,
   v |-> Map8(LAMBDA i : Add3(c, Lin(ax, <<Flip(e[1], BoxSign[i][1]), Flip(e[2], BoxSign[i][2]), Flip(e[3], BoxSign[i][3])>>))),
   n |-> ax, ed |-> ax,
   h |-> Map6(LAMBDA i : LET j == (i + 1) \div 2
                             m == IF i % 2 = 1 THEN ax[j] ELSE Neg3(ax[j])
                         IN  Half(m, DAdd(Dot3(m, c), DMul(e[j], Sq3(ax[j]))))) ]
SphereBody(c, r) == [ty |-> "S", c |-> c, r |-> r, v |-> <<>>, n |-> <<>>, ed |-> <<>>, h |-> <<>>]
PointBody(x) == [ty |-> "P", c |-> x, v |-> <<x>>, n |-> <<>>, ed |-> <<>>, h |-> <<>>]
TriBody(x, y, z) ==
  LET e1 == Sub3(y, x) e2 == Sub3(z, y) e3 == Sub3(x, z)
      m == Cross3(e1, e2)
  IN  [ty |-> "T", c |-> x, v |-> <<x, y, z>>, n |-> <<m>>, ed |-> <<e1, e2, e3>>, h |-> <<>>]
\* frustum: origin, axes, slopes <<right, left, top, bottom>>, near, far
\* corners: near left-top, right-top, right-bottom, left-bottom, then far in the same order
FrusBody(o, ax, s, nr, fr) ==
  LET C(x, y, z) == Add3(o, Lin(ax, <<DMul(x, z), DMul(y, z), z>>))
      R(m, d) == LET w == Lin(ax, m) IN Half(w, DAdd(d, Dot3(w, o)))
  IN  [ty |-> "F", c |-> Add3(o, Lin(ax, <<D0, D0, DMul(DAdd(nr, fr), DPow2(-1))>>)),
       v |-> << C(s[2], s[3], nr), C(s[1], s[3], nr), C(s[1], s[4], nr), C(s[2], s[4], nr),
                C(s[2], s[3], fr), C(s[1], s[3], fr), C(s[1], s[4], fr), C(s[2], s[4], fr) >>,
       n |-> << ax[3], Lin(ax, <<D1, D0, DNeg(s[1])>>), Lin(ax, <<D1, D0, DNeg(s[2])>>), Lin(ax, <<D0, D1, DNeg(s[3])>>), Lin(ax, <<D0, D1, DNeg(s[4])>>) >>,
       ed |-> << ax[1], ax[2], Lin(ax, <<s[1], s[3], D1>>), Lin(ax, <<s[1], s[4], D1>>), Lin(ax, <<s[2], s[3], D1>>), Lin(ax, <<s[2], s[4], D1>>) >>,
       \* near, far, right, left, top, bottom
       h |-> << R(<<D0, D0, DInt(-1)>>, DNeg(nr)), R(AxZ, fr), R(<<D1, D0, DNeg(s[1])>>, D0), R(<<DInt(-1), D0, s[2]>>, D0),
                R(<<D0, D1, DNeg(s[3])>>, D0), R(<<D0, DInt(-1), s[4]>>, D0) >>]

Size(t) == CASE t = "P" -> 4 [] t = "T" -> 12 [] t = "S" -> 4 [] t = "B" -> 6 [] t = "O" -> 10 [] t = "F" -> 13
Body(t, a, p) ==
  CASE t = "P" -> PointBody(P3(a, p))
    [] t = "T" -> TriBody(P3(a, p), P3(a, p + 4), P3(a, p + 8))
    [] t = "S" -> SphereBody(P3(a, p), DBits(a[p + 3]))
    [] t = "B" -> BoxBody(P3(a, p), P3(a, p + 3), <<AxX, AxY, AxZ>>)
    [] t = "O" -> BoxBody(P3(a, p), P3(a, p + 3), QAxes(Q4(a, p + 6)))
    [] t = "F" -> FrusBody(P3(a, p), QAxes(Q4(a, p + 3)), Q4(a, p + 7), DBits(a[p + 11]), DBits(a[p + 12]))
ScaleB(b) == IF b.ty = "S" THEN DAdd(MaxAbs3(b.c), b.r) ELSE ScaleOf(b.v, 1)

-----------------------------------------------------------------------------
(* separation of two polytopes: <<largest gap over the candidate axes, largest gap weighted by the sine of the angle between the edges>> *)
(* (an axis taken from nearly parallel edges is ill-conditioned: a gap along it need only be seen when it is large against that sine) *)
AxisGap(A, C, n, unit) ==
  LET l == Sq3(n)
  IN  IF DSign(l) = 0 THEN <<>>
      ELSE LET g == DMax(DSub(Lo(n, C.v), Hi(n, A.v)), DSub(Lo(n, A.v), Hi(n, C.v)))
               x == DDiv(g, DSqrt(l))
           IN  <<x, IF unit = <<>> THEN x ELSE DDiv(g, unit[1])>>
Join(x, y) == IF x = <<>> THEN y ELSE IF y = <<>> THEN x ELSE <<DMax(x[1], y[1]), DMax(x[2], y[2])>>
RECURSIVE GapN(_, _, _, _), GapE(_, _, _, _)
GapN(A, C, ns, i) == IF i > Len(ns) THEN <<>> ELSE Join(AxisGap(A, C, ns[i], <<>>), GapN(A, C, ns, i + 1))
GapE(A, C, i, j) == IF i > Len(A.ed) THEN <<>>
                    ELSE IF j > Len(C.ed) THEN GapE(A, C, i + 1, 1)
                    ELSE Join(AxisGap(A, C, Chop3(Cross3(A.ed[i], C.ed[j])), <<DSqrt(DMul(Sq3(A.ed[i]), Sq3(C.ed[j])))>>), GapE(A, C, i, j + 1))
\* in-plane edge normals of a triangle: needed when both bodies are flat
Rim(T) == Map3(LAMBDA i : Cross3(T.n[1], T.ed[i]))
PolySep(A, C) ==
  IF A.ty = "T" /\ C.ty = "T"
  THEN LET flat == Rim(A) \o Rim(C)
           coplanar == \A i \in 1..3 : DSign(Dot3(A.n[1], Sub3(C.v[i], A.v[1]))) = 0
       IN  IF coplanar THEN GapN(A, C, flat, 1)
           ELSE Join(GapN(A, C, A.n \o C.n \o flat, 1), GapE(A, C, 1, 1))
  ELSE Join(GapN(A, C, A.n \o C.n, 1), GapE(A, C, 1, 1))

-----------------------------------------------------------------------------
(* distance of a point *)
\* squared distance from p to the segment x y / the triangle x y z
PtSeg2(p, x, y) ==
  LET d == Sub3(y, x)
      t == Dot3(Sub3(p, x), d)
      l == Sq3(d)
  IN  IF DSign(t) <= 0 THEN Sq3(Sub3(p, x))
      ELSE IF DLe(l, t) THEN Sq3(Sub3(p, y))
      ELSE DSub(Sq3(Sub3(p, x)), DDiv(DMul(t, t), l))
PtTri2(p, x, y, z) ==
  LET n == Cross3(Sub3(y, x), Sub3(z, x))
      S(s, t) == DSign(Dot3(Cross3(Sub3(t, s), Sub3(p, s)), n))
  IN  IF S(x, y) >= 0 /\ S(y, z) >= 0 /\ S(z, x) >= 0
      THEN LET d == Dot3(n, Sub3(p, x)) IN DDiv(DMul(d, d), Sq3(n))
      ELSE DMin(PtSeg2(p, x, y), DMin(PtSeg2(p, y, z), PtSeg2(p, z, x)))
Inside(h, p) == \A i \in 1..Len(h) : DLe(Dot3(h[i].n, p), h[i].d)
FrusTri == << <<1, 2, 3>>, <<1, 3, 4>>, <<5, 6, 7>>, <<5, 7, 8>>, <<1, 2, 6>>, <<1, 6, 5>>, <<2, 3, 7>>, <<2, 7, 6>>, <<3, 4, 8>>, <<3, 8, 7>>, <<4, 1, 5>>, <<4, 5, 8>> >>
RECURSIVE FTri2(_, _, _)
FTri2(p, v, i) == LET t == FrusTri[i]
                      d == PtTri2(p, v[t[1]], v[t[2]], v[t[3]])
                  IN  IF i = Len(FrusTri) THEN d ELSE DMin(d, FTri2(p, v, i + 1))
\* distance from p to the body (0 inside)
PtDist(p, A) ==
  CASE A.ty = "P" -> Len3(Sub3(p, A.c))
    [] A.ty = "T" -> DSqrt(DMax(D0, PtTri2(p, A.v[1], A.v[2], A.v[3])))
    [] A.ty = "S" -> DMax(D0, DSub(Len3(Sub3(p, A.c)), A.r))
    [] A.ty = "O" -> LET E(i) == DMax(D0, DSub(DAbs(Dot3(Sub3(p, A.c), A.ax[i])), A.e[i]))
                     IN  Len3(Map3(E))
    [] A.ty = "F" -> IF Inside(A.h, p) THEN D0 ELSE DSqrt(DMax(D0, FTri2(p, A.v, 1)))

\* how far body B reaches beyond the half-space
Beyond(hs, B) ==
  LET top == IF B.ty = "S" THEN DAdd(Dot3(hs.n, B.c), DMul(B.r, Len3(hs.n))) ELSE Hi(hs.n, B.v)
  IN  DDiv(DSub(top, hs.d), Len3(hs.n))
\* how deep the nearest part of B lies beyond the half-space (positive: B is entirely outside it)
Clear(hs, B) ==
  LET low == IF B.ty = "S" THEN DSub(Dot3(hs.n, B.c), DMul(B.r, Len3(hs.n))) ELSE Lo(hs.n, B.v)
  IN  DDiv(DSub(low, hs.d), Len3(hs.n))
RECURSIVE Far2(_, _, _)
Far2(c, v, i) == LET d == Sq3(Sub3(v[i], c)) IN IF i = Len(v) THEN d ELSE DMax(d, Far2(c, v, i + 1))
Outside(A, B) ==
  IF A.ty = "S" THEN (IF B.ty = "S" THEN DSub(DAdd(Len3(Sub3(A.c, B.c)), B.r), A.r)
                      ELSE DSub(DSqrt(Far2(A.c, B.v, 1)), A.r))
  ELSE MaxSeq(Map6(LAMBDA i : Beyond(A.h[i], B)), 1)
Twice(x) == <<x, x>>
\* <<gap, weighted gap>>: the bodies are disjoint when the gap is positive
Sep(A, B) ==
  IF A.ty = "S" /\ B.ty = "S" THEN Twice(DSub(Len3(Sub3(A.c, B.c)), DAdd(A.r, B.r)))
  ELSE IF A.ty = "S" THEN Twice(DSub(PtDist(A.c, B), A.r))
  ELSE IF B.ty = "S" THEN Twice(DSub(PtDist(B.c, A), B.r))
  ELSE IF B.ty = "P" THEN Twice(Outside(A, B))
  ELSE PolySep(A, B)
\* largest clearance over the six faces: positive when one face separates the bodies
FaceSep(A, B) == MaxSeq(Map6(LAMBDA i : Clear(A.h[i], B)), 1)

-----------------------------------------------------------------------------
(* a ray o + t d against half-spaces moved outwards by w (a distance): the interval <<t0, t1>> inside, or <<>> *)
RECURSIVE Clip(_, _, _, _, _, _)
Clip(h, o, d, w, i, iv) ==
  IF i > Len(h) THEN iv
  ELSE LET n == h[i].n
           b == DSub(DAdd(h[i].d, DMul(w, Len3(n))), Dot3(n, o))      \* room to the face
           s == Dot3(n, d)
           t == IF DSign(s) = 0 THEN D0 ELSE DDiv(b, s)
           nx == IF DSign(s) = 0 THEN (IF DSign(b) < 0 THEN <<>> ELSE iv)
                 ELSE IF DSign(s) > 0 THEN <<iv[1], IF iv[2] = <<>> THEN <<t>> ELSE <<DMin(iv[2][1], t)>> >>
                 ELSE << IF iv[1] = <<>> THEN <<t>> ELSE <<DMax(iv[1][1], t)>>, iv[2]>>
       IN  IF nx = <<>> THEN <<>> ELSE Clip(h, o, d, w, i + 1, nx)
RayPoly(A, o, d, w) ==
  LET iv == Clip(A.h, o, d, w, 1, <<<<>>, <<>>>>)
  IN  IF iv = <<>> THEN <<>> ELSE IF DLt(iv[2][1], iv[1][1]) THEN <<>> ELSE <<iv[1][1], iv[2][1]>>
RaySphere(c, r, o, d) ==
  LET l == Sub3(c, o)
      s == Dot3(l, d)
      q == DSub(DMul(r, r), DSub(Sq3(l), DMul(s, s)))
  IN  IF DSign(r) < 0 \/ DSign(q) < 0 THEN <<>> ELSE <<DSub(s, DSqrt(q)), DAdd(s, DSqrt(q))>>
=============================================================================
