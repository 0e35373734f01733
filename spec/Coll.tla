-------------------------------- MODULE Coll --------------------------------
(***************************************************************************)
(* Conformance relation of the collision queries: overlap, containment,    *)
(* rays, planes.  The answer is compared with exact geometry; within a     *)
(* band around contact (2^-17 of the coordinates involved, far above float *)
(* rounding and far below any feature of the bodies) either answer is      *)
(* allowed.                                                                *)
(***************************************************************************)
EXTENDS CGeom

Pair(o) ==
  CASE o \in {"Intersects_SS", "Contains_SS"} -> <<"S", "S">> [] o \in {"Intersects_SB", "Contains_SB"} -> <<"S", "B">>
    [] o \in {"Intersects_SO", "Contains_SO"} -> <<"S", "O">> [] o \in {"Intersects_SF", "Contains_SF"} -> <<"S", "F">>
    [] o \in {"Intersects_ST", "Contains_ST"} -> <<"S", "T">> [] o = "Contains_SP" -> <<"S", "P">>
    [] o \in {"Intersects_BS", "Contains_BS"} -> <<"B", "S">> [] o \in {"Intersects_BB", "Contains_BB"} -> <<"B", "B">>
    [] o \in {"Intersects_BO", "Contains_BO"} -> <<"B", "O">> [] o \in {"Intersects_BF", "Contains_BF"} -> <<"B", "F">>
    [] o \in {"Intersects_BT", "Contains_BT"} -> <<"B", "T">> [] o = "Contains_BP" -> <<"B", "P">>
    [] o \in {"Intersects_OS", "Contains_OS"} -> <<"O", "S">> [] o \in {"Intersects_OB", "Contains_OB"} -> <<"O", "B">>
    [] o \in {"Intersects_OO", "Contains_OO"} -> <<"O", "O">> [] o \in {"Intersects_OF", "Contains_OF"} -> <<"O", "F">>
    [] o \in {"Intersects_OT", "Contains_OT"} -> <<"O", "T">> [] o = "Contains_OP" -> <<"O", "P">>
    [] o \in {"Intersects_FS", "Contains_FS"} -> <<"F", "S">> [] o \in {"Intersects_FB", "Contains_FB"} -> <<"F", "B">>
    [] o \in {"Intersects_FO", "Contains_FO"} -> <<"F", "O">> [] o \in {"Intersects_FF", "Contains_FF"} -> <<"F", "F">>
    [] o \in {"Intersects_FT", "Contains_FT"} -> <<"F", "T">> [] o = "Contains_FP" -> <<"F", "P">>
    [] o = "Triangle_IntersectsTriangle" -> <<"T", "T">>
    [] OTHER -> <<>>
Solo(o) ==
  CASE o \in {"Ray_S", "Plane_S", "ContainedBy_S"} -> "S" [] o \in {"Ray_B", "Plane_B", "ContainedBy_B"} -> "B"
    [] o \in {"Ray_O", "Plane_O", "ContainedBy_O"} -> "O" [] o \in {"Ray_F", "Plane_F", "ContainedBy_F"} -> "F"
    [] o \in {"Ray_T", "Plane_T", "ContainedBy_T"} -> "T"
ContainsOps == {"Contains_SS", "Contains_SB", "Contains_SO", "Contains_SF", "Contains_ST", "Contains_SP",
                "Contains_BS", "Contains_BB", "Contains_BO", "Contains_BF", "Contains_BT", "Contains_BP",
                "Contains_OS", "Contains_OB", "Contains_OO", "Contains_OF", "Contains_OT", "Contains_OP",
                "Contains_FS", "Contains_FB", "Contains_FO", "Contains_FF", "Contains_FT", "Contains_FP"}
\* a conservative container: objects outside the body but not beyond a single face may be reported as intersecting
Conservative == {"Contains_FS", "Contains_FB", "Contains_FO", "Contains_FF", "Contains_FT"}

Kappa == DPow2(-17)
Floor == DPow2(-60)                  \* below this squares underflow
Band(A, B) == DAdd(Floor, DMul(Kappa, DMax(ScaleB(A), ScaleB(B))))

DISJOINT == 0
INTERSECTS == 1
CONTAINS == 2
IsFalse(w) == w = 0
IsTrue(w) == w = 1

IntersectOk(A, B, r) ==
  LET s == Sep(A, B)
      w == Band(A, B)
  IN  IF IsTrue(r) THEN DLe(s[2], w) ELSE IsFalse(r) /\ DLe(DNeg(w), s[1])

ContainOk(o, A, B, r) ==
  LET w == Band(A, B)
      out == Outside(A, B)
  IN  CASE r = CONTAINS -> DLe(out, w)
        [] r = DISJOINT -> LET s == Sep(A, B) IN DLe(DNeg(w), s[1]) /\ DLe(DNeg(w), out)
        [] r = INTERSECTS -> /\ DLe(DNeg(w), out)
                             /\ IF o \in Conservative THEN DLe(FaceSep(A, B), w) ELSE LET s == Sep(A, B) IN DLe(s[2], w)
        [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* rays: r = <<hit, distance>>; a miss reports distance 0 *)
Fin(w) == IsFin(w)
Between(x, lo, hi, w) == DLe(DSub(lo, w), x) /\ DLe(x, DAdd(hi, w))
\* inner, outer: intervals for the body shrunk and grown by the tolerance w
\* at: which end of the interval is reported ("in": entry, "out": exit)
EndOk(x, inner, outer, w, at) ==
  IF at = "in" THEN Between(x, outer[1], IF inner = <<>> THEN outer[2] ELSE inner[1], w)
  ELSE Between(x, IF inner = <<>> THEN outer[1] ELSE inner[2], outer[2], w)
RayOk(t, A, o, d, r) ==
  LET l == Sub3(A.c, o)
      base == DAdd(Floor, DMul(Kappa, DMax(ScaleB(A), MaxAbs3(o))))
      w == IF t = "S" THEN DAdd(base, IF DSign(A.r) = 0 THEN DMul(Len3(l), DPow2(-9)) ELSE DDiv(DMul(Sq3(l), DPow2(-19)), A.r)) ELSE base
      outer == IF t = "S" THEN RaySphere(A.c, DAdd(A.r, w), o, d) ELSE RayPoly(A, o, d, w)
      inner == IF t = "S" THEN RaySphere(A.c, DSub(A.r, w), o, d) ELSE RayPoly(A, o, d, DNeg(w))
      may  == outer # <<>> /\ DLe(DNeg(w), outer[2])
      must == inner # <<>> /\ DLe(w, inner[2])
      depth == IF t = "S" THEN DSub(Len3(l), A.r) ELSE Outside(A, PointBody(o))      \* negative: origin inside
      isIn == DLt(depth, DNeg(w))
      isOut == DLt(w, depth)
      x == DBits(r[2])
  IN  IF IsTrue(r[1])
      THEN /\ may
           /\ Fin(r[2])
           /\ CASE t \in {"B", "O"} -> EndOk(x, inner, outer, w, "in")
                [] t = "S" -> IF isIn THEN EndOk(x, inner, outer, w, "out") ELSE IF isOut THEN EndOk(x, inner, outer, w, "in")
                              ELSE EndOk(x, inner, outer, w, "in") \/ EndOk(x, inner, outer, w, "out")
                [] t = "F" -> IF isIn THEN DSign(x) = 0 ELSE IF isOut THEN EndOk(x, inner, outer, w, "in")
                              ELSE DSign(x) = 0 \/ EndOk(x, inner, outer, w, "in") \/ EndOk(x, inner, outer, w, "out")
      ELSE IsFalse(r[1]) /\ ~must /\ r[2] = 0
\* triangle: hit where the ray meets the plane of the triangle, either side
RayTriOk(A, o, d, r) ==
  LET n == A.n[1]
      nl == Len3(n)
      cs == DDiv(Dot3(n, d), nl)                     \* cosine to the plane normal
      w == DAdd(Floor, DMul(Kappa, DMax(ScaleB(A), MaxAbs3(o))))
      ac == DAbs(cs)
      room == DDiv(Dot3(n, Sub3(A.v[1], o)), nl)     \* signed distance to the plane
  IN  IF DSign(ac) = 0 THEN (IF IsTrue(r[1]) THEN DLe(DAbs(room), w) ELSE IsFalse(r[1]) /\ r[2] = 0)
      ELSE LET t == DDiv(room, cs)
               ww == DDiv(DMul(w, DInt(2)), ac)      \* tolerance in the plane of the triangle
               p == Add3(o, Scale3(d, t))
               E(i) == LET m == Cross3(A.ed[i], n) IN DDiv(Dot3(m, Sub3(p, A.v[i])), Len3(m))     \* outward distance
               out == MaxSeq(Map3(E), 1)
           IN  IF IsTrue(r[1]) THEN DLe(out, ww) /\ DLe(DNeg(ww), t) /\ Fin(r[2]) /\ Between(DBits(r[2]), t, t, ww)
               ELSE IsFalse(r[1]) /\ r[2] = 0 /\ (DLe(DNeg(ww), out) \/ DLe(t, ww))

-----------------------------------------------------------------------------
(* planes n.x + d = 0 *)
FRONT == 0
CROSSING == 1
BACK == 2
PlaneHalf(a, p) == Half(P3(a, p), DNeg(DBits(a[p + 3])))
PlaneBand(hs, A) == DAdd(Floor, DMul(Kappa, DMax(ScaleB(A), DAbs(hs.d))))
PlaneOk(A, hs, r) ==
  LET w == PlaneBand(hs, A)
      hi == Beyond(hs, A)
      lo == Clear(hs, A)
  IN  CASE r = FRONT -> DLe(DNeg(w), lo)
        [] r = BACK -> DLe(hi, w)
        [] r = CROSSING -> DLe(lo, w) /\ DLe(DNeg(w), hi)
        [] OTHER -> FALSE
\* six planes with outward normals: DISJOINT when entirely outside one of them, CONTAINS when inside all
ContainedByOk(A, a, p, r) ==
  LET hs == Map6(LAMBDA i : PlaneHalf(a, p + 4 * (i - 1)))
      lo == Map6(LAMBDA i : LET w == PlaneBand(hs[i], A) IN <<DSub(Clear(hs[i], A), w), DAdd(Clear(hs[i], A), w)>>)
      hi == Map6(LAMBDA i : LET w == PlaneBand(hs[i], A) IN <<DSub(Beyond(hs[i], A), w), DAdd(Beyond(hs[i], A), w)>>)
      mustOut == \E i \in 1..6 : DSign(lo[i][1]) > 0
      mayOut == \E i \in 1..6 : DSign(lo[i][2]) >= 0
      mustIn == \A i \in 1..6 : DSign(hi[i][2]) < 0
      mayIn == \A i \in 1..6 : DSign(hi[i][1]) <= 0
  IN  CASE r = DISJOINT -> mayOut
        [] r = CONTAINS -> mayIn /\ ~mustOut
        [] r = INTERSECTS -> ~mustOut /\ ~mustIn
        [] OTHER -> FALSE

-----------------------------------------------------------------------------
RayOps == {"Ray_S", "Ray_B", "Ray_O", "Ray_F"}
PlaneOps == {"Plane_S", "Plane_B", "Plane_O", "Plane_F", "Plane_T"}
ByOps == {"ContainedBy_S", "ContainedBy_B", "ContainedBy_O", "ContainedBy_F", "ContainedBy_T"}
Ok(o, a, r) ==
  CASE o \in ContainsOps -> LET p == Pair(o) IN ContainOk(o, Body(p[1], a, 1), Body(p[2], a, 1 + Size(p[1])), r[1])
    [] o \in RayOps -> LET t == Solo(o)
                           q == 1 + Size(t)
                       IN  RayOk(t, Body(t, a, 1), P3(a, q), P3(a, q + 4), r)
    [] o = "Ray_T" -> RayTriOk(Body("T", a, 1), P3(a, 13), P3(a, 17), r)
    [] o \in PlaneOps -> LET t == Solo(o) IN PlaneOk(Body(t, a, 1), PlaneHalf(a, 1 + Size(t)), r[1])
    [] o \in ByOps -> LET t == Solo(o) IN ContainedByOk(Body(t, a, 1), a, 1 + Size(t), r[1])
    [] OTHER -> LET p == Pair(o) IN IntersectOk(Body(p[1], a, 1), Body(p[2], a, 1 + Size(p[1])), r[1])
=============================================================================
