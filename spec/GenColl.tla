------------------------------ MODULE GenColl ------------------------------
(***************************************************************************)
(* Collision scenarios.  Bodies are placed so that a chosen feature pair   *)
(* (face, edge or vertex of one against face, edge or vertex of the other) *)
(* is separated or overlaps by a small amount: the answer then hinges on   *)
(* the one axis that separates them.                                       *)
(***************************************************************************)
EXTENDS GenBase, CGeom, GenShape
With(ns, c) == [i \in 1..Len(ns) |-> <<ns[i], c>>]
Plan(p) ==
  LET m == 30 * GScale IN
  CASE p = "C27" -> With(<<"Intersects_SS", "Intersects_SB", "Intersects_SO", "Intersects_SF", "Intersects_ST", "Intersects_BS", "Intersects_BB", "Intersects_BO", "Intersects_BF", "Intersects_BT",
                           "Intersects_OS", "Intersects_OB", "Intersects_OF", "Intersects_FS">>, 2 * m)
                    \o With(<<"Intersects_OO", "Intersects_OT", "Intersects_FB", "Intersects_FO", "Intersects_FF", "Intersects_FT">>, 5 * m)
                    \o With(<<"Contains_SP", "Contains_BP", "Contains_OP", "Contains_FP">>, m)
    [] p = "C28" -> With(<<"Contains_SS", "Contains_SB", "Contains_SO", "Contains_SF", "Contains_ST", "Contains_SP", "Contains_BS", "Contains_BB", "Contains_BO", "Contains_BF", "Contains_BT", "Contains_BP",
                           "Contains_OS", "Contains_OB", "Contains_OO", "Contains_OF", "Contains_OT", "Contains_OP", "Contains_FS", "Contains_FB", "Contains_FO", "Contains_FF", "Contains_FT", "Contains_FP">>, 3 * m)
    [] p = "C29" -> With(<<"Ray_S", "Ray_B", "Ray_O", "Ray_F", "Ray_T">>, 15 * m)
    [] p = "C30" -> With(<<"Plane_S", "Plane_B", "Plane_O", "Plane_F", "Plane_T">>, 6 * m) \o With(<<"ContainedBy_S", "ContainedBy_B", "ContainedBy_O", "ContainedBy_F", "ContainedBy_T">>, 10 * m)
    [] p = "C34" -> With(<<"Triangle_IntersectsTriangle">>, 40 * m) \o With(<<"Ray_T">>, 20 * m) \o With(<<"Plane_T", "ContainedBy_T">>, 10 * m)
                    \o With(<<"Intersects_ST", "Intersects_BT", "Intersects_OT", "Intersects_FT">>, 3 * m) \o With(<<"Contains_ST", "Contains_BT", "Contains_OT", "Contains_FT">>, 2 * m)

PairOf(o) ==
  CASE o \in {"Intersects_SS", "Contains_SS"} -> <<"S", "S">> [] o \in {"Intersects_SB", "Contains_SB"} -> <<"S", "B">>
    [] o \in {"Intersects_SO", "Contains_SO"} -> <<"S", "O">> [] o \in {"Intersects_SF", "Contains_SF"} -> <<"S", "F">>
    [] o \in {"Intersects_ST", "Contains_ST"} -> <<"S", "T">> [] o = "Contains_SP" -> <<"S", "P">>
    [] o \in {"Intersects_BS", "Contains_BS"} -> <<"B", "S">> [] o \in {"Intersects_BB", "Contains_BB"} -> <<"B", "B">>
    [] o \in {"Intersects_BO", "Contains_BO"} -> <<"B", "O">> [] o \in {"Intersects_BF", "Contains_BF"} -> <<"B", "F">>
    [] o \in {"Intersects_BT", "Contains_BT"} -> <<"B", "T">> [] o = "Contains_BP" -> <<"B", "P">>
    [] o \in {"Intersects_OS", "Contains_OS"} -> <<"O", "S">> [] o \in {"Intersects_OB", "Contains_OB"} -> <<"O", "B">>
    [] o \in {"Intersects_OO", "Contains_OO"} -> <<"O", "O">> [] o \in {"Intersects_OF", "Contains_OF"} -> <<"O", "F">>
    [] o \in {"Intersects_OT", "Contains_OT"} -> <<"O", "T">> [] o = "Contains_OP" -> <<"O", "P">>
    [] o \in {"Intersects_FS", "Contains_FS"} -> <<"F", "S">> [] o \in {"Intersects_FB", "Contains_FB"} -> <<"F", "B">>
    [] o \in {"Intersects_FO", "Contains_FO"} -> <<"F", "O">> [] o \in {"Intersects_FF", "Contains_FF"} -> <<"F", "F">>
    [] o \in {"Intersects_FT", "Contains_FT"} -> <<"F", "T">> [] o = "Contains_FP" -> <<"F", "P">>
    [] o = "Triangle_IntersectsTriangle" -> <<"T", "T">>
SoloOf(o) ==
  CASE o \in {"Ray_S", "Plane_S", "ContainedBy_S"} -> "S" [] o \in {"Ray_B", "Plane_B", "ContainedBy_B"} -> "B"
    [] o \in {"Ray_O", "Plane_O", "ContainedBy_O"} -> "O" [] o \in {"Ray_F", "Plane_F", "ContainedBy_F"} -> "F"
    [] o \in {"Ray_T", "Plane_T", "ContainedBy_T"} -> "T"
    [] OTHER -> ""
IsContains(o) == o \in {"Contains_SS", "Contains_SB", "Contains_SO", "Contains_SF", "Contains_ST", "Contains_SP", "Contains_BS", "Contains_BB", "Contains_BO", "Contains_BF", "Contains_BT", "Contains_BP",
                        "Contains_OS", "Contains_OB", "Contains_OO", "Contains_OF", "Contains_OT", "Contains_OP", "Contains_FS", "Contains_FB", "Contains_FO", "Contains_FF", "Contains_FT", "Contains_FP"}

\* ---------------------------------------------------------------- two bodies
PairScen(tA, tB, k, inner) ==
  LET big == Rnd(k, 900) % 4
      sa == IF inner THEN 1 ELSE IF big = 0 THEN -2 ELSE 0
      sb == IF inner /\ big < 3 THEN -2 ELSE 0
      a == Jitter(tA, Shape(tA, k, 100, sa), k)
      b == Shape(tB, k, 300, sb)
      A == Body(tA, a, 1)
      B0 == Body(tB, b, 1)
      c == Rnd(k, 901) % 10
      d == PickDir(A, B0, k, inner)
      g == Gap(B0, A, k)
      t == IF c = 0 THEN Sub3(A.c, B0.c)                                             \* concentric
           ELSE IF c = 1 THEN Sub3(Add3(A.c, <<Off(k, 910), Off(k, 911), Off(k, 912)>>), B0.c)
           ELSE IF inner /\ c < 7 THEN Sub3(Sub3(SupPt(A, d, k, 920), Scale3(d, g)), SupPt(B0, d, k, 940))
           ELSE Sub3(Add3(SupPt(A, d, k, 920), Scale3(d, g)), SupPt(B0, Neg3(d), k, 940))
  IN  IF c = 2 /\ tA = tB THEN a \o a ELSE a \o Move(tB, b, t)

\* exactly coplanar triangles on a lattice
Coplanar(k) ==
  LET ax == 1 + (Rnd(k, 950) % 3)
      z == Lane("lat", k, 951)
      L(j) == IF Rnd(k, 952) % 2 = 0 THEN Lane("int", k, j) ELSE Lane("lat", k, j)
      Pt(j) == LET x == L(j) 
                   y == L(j + 1)
               IN  CASE ax = 1 -> <<z, x, y, 0>> [] ax = 2 -> <<x, z, y, 0>> [] ax = 3 -> <<x, y, z, 0>>
      t1 == FixTri(Pt(960) \o Pt(962) \o Pt(964))
      t2 == FixTri(Pt(966) \o Pt(968) \o Pt(970))
      mid(i, j) == [q \in 1..4 |-> DF32(DMul(DAdd(DBits(t1[4 * i + q]), DBits(t1[4 * j + q])), DPow2(-1)))]
  IN  IF ~Degenerate(t1) /\ Rnd(k, 953) % 4 = 0 THEN t1 \o mid(0, 1) \o mid(1, 2) \o mid(2, 0)      \* inscribed
      ELSE IF Degenerate(t1) \/ Degenerate(t2) THEN PairScen("T", "T", k, FALSE)
      ELSE t1 \o t2
\* one triangle in a coordinate plane, vertices of the other exactly in, above and below that plane
Touching(k) ==
  LET ax == 1 + (Rnd(k, 950) % 3)
      z == Lane("lat", k, 951)
      L(j) == Lane("int", k, j)
      Put(x, y, h) == CASE ax = 1 -> <<h, x, y, 0>> [] ax = 2 -> <<x, h, y, 0>> [] ax = 3 -> <<x, y, h, 0>>
      Hgt(j) == LET c == Rnd(k, j) % 3 IN IF c = 0 THEN z ELSE DF32(DAdd(DBits(z), DInt(IF c = 1 THEN 1 + (Rnd(k, j + 1) % 3) ELSE -1 - (Rnd(k, j + 1) % 3))))
      t1 == Put(L(960), L(961), z) \o Put(L(962), L(963), z) \o Put(L(964), L(965), z)
      t2 == Put(L(966), L(967), Hgt(975)) \o Put(L(968), L(969), Hgt(977)) \o Put(L(970), L(971), Hgt(979))
  IN  IF Degenerate(t1) \/ Degenerate(t2) THEN Coplanar(k) ELSE IF Rnd(k, 981) % 2 = 0 THEN t1 \o t2 ELSE t2 \o t1
TriTri(k) ==
  LET s == IF k % 4 = 0 THEN Coplanar(k) ELSE IF k % 4 = 1 THEN Touching(k) ELSE PairScen("T", "T", k, FALSE)
  IN  JunkT(SubSeq(s, 1, 12), k, 40) \o JunkT(SubSeq(s, 13, 24), k, 44)

\* ---------------------------------------------------------------- rays
RayScen(t, k) ==
  LET a == Jitter(t, Shape(t, k, 100, 0), k)
      A == Body(t, a, 1)
      d == PickDir(A, A, k, TRUE)
      g == Gap(A, A, k)
      tgt0 == Add3(SupPt(A, d, k, 920), Scale3(d, g))
      c == Rnd(k, 980) % 8
      \* travelling direction
      u0 == CASE c \in {0, 1} -> RandDir(k, 981)
              [] c \in {2, 3} -> Cross3(d, RandDir(k, 981))                          \* grazing
              [] c = 4 -> IF t \in {"S", "P"} THEN AxX ELSE A.ed[1 + (Rnd(k, 982) % Len(A.ed))]
              [] c = 5 -> <<AxX, AxY, AxZ>>[1 + (Rnd(k, 983) % 3)]
              [] OTHER -> Sub3(RandDir(k, 981), d)
      u1 == IF DSign(Sq3(u0)) = 0 THEN AxZ ELSE u0
      u == IF Rnd(k, 984) % 2 = 0 THEN u1 ELSE Neg3(u1)
      f == UnitF(u)
      uf == P3(f, 1)
      l == DMul(SizeOf(A), DDiv(DInt((Rnd(k, 985) % 41) - 12), DInt(8)))
      tgt == IF Rnd(k, 986) % 8 = 0 THEN Add3(A.c, Scale3(d, g)) ELSE tgt0
      o == Sub3(tgt, Scale3(uf, l))
  IN  a \o Junk(<<DF32(o[1]), DF32(o[2]), DF32(o[3]), 0>>, 3, k, 50) \o Junk(f, 3, k, 51)

\* ---------------------------------------------------------------- planes
PlaneScen(t, k) ==
  LET a == Jitter(t, Shape(t, k, 100, 0), k)
      A == Body(t, a, 1)
      d == PickDir(A, A, k, TRUE)
      f == UnitF(d)
      n == P3(f, 1)
      g == Gap(A, A, k)
      c == Rnd(k, 990) % 4
      pt == IF c = 0 THEN SupPt(A, n, k, 920) ELSE IF c = 1 THEN SupPt(A, Neg3(n), k, 920) ELSE IF c = 2 THEN A.c ELSE Add3(A.c, <<Off(k, 991), Off(k, 992), Off(k, 993)>>)
  IN  a \o <<f[1], f[2], f[3], DF32(DNeg(Dot3(n, Add3(pt, Scale3(n, g)))))>>
\* six planes: the faces of a container, in any order
Perms == << <<1, 2, 3, 4, 5, 6>>, <<6, 5, 4, 3, 2, 1>>, <<3, 1, 6, 2, 5, 4>>, <<2, 4, 6, 1, 3, 5>>, <<5, 6, 1, 3, 4, 2>>, <<4, 3, 2, 6, 1, 5>> >>
ByScen(t, k) ==
  LET tc == <<"B", "O", "F">>[1 + (Rnd(k, 994) % 3)]
      s == PairScen(tc, t, k, Rnd(k, 995) % 3 # 0)
      h == Body(tc, s, 1).h
      perm == Perms[1 + (Rnd(k, 996) % 6)]
      Pl(i) == LET hs == h[perm[i]]
                   l == Len3(hs.n)
               IN  <<DF32(DDiv(hs.n[1], l)), DF32(DDiv(hs.n[2], l)), DF32(DDiv(hs.n[3], l)), DF32(DNeg(DDiv(hs.d, l)))>>
      b == SubSeq(s, Size(tc) + 1, Len(s))
  IN  (IF t = "T" THEN JunkT(b, k, 40) ELSE b) \o Pl(1) \o Pl(2) \o Pl(3) \o Pl(4) \o Pl(5) \o Pl(6)

Scen0(o, k) ==
  IF o = "Triangle_IntersectsTriangle" THEN TriTri(k)
  ELSE IF o \in {"Ray_S", "Ray_B", "Ray_O", "Ray_F", "Ray_T"} THEN RayScen(SoloOf(o), k)
  ELSE IF o \in {"Plane_S", "Plane_B", "Plane_O", "Plane_F", "Plane_T"} THEN PlaneScen(SoloOf(o), k)
  ELSE IF o \in {"ContainedBy_S", "ContainedBy_B", "ContainedBy_O", "ContainedBy_F", "ContainedBy_T"} THEN ByScen(SoloOf(o), k)
  ELSE LET p == PairOf(o)
           s == PairScen(p[1], p[2], k, IsContains(o) /\ (Rnd(k, 899) % 3) # 0)
           b == SubSeq(s, Size(p[1]) + 1, Len(s))
           a == SubSeq(s, 1, Size(p[1]))
       IN  a \o (CASE p[2] = "T" -> JunkT(b, k, 40) [] p[2] = "P" -> Junk(b, 3, k, 40) [] OTHER -> b)
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE x \o Rep(x, n - 1)
KindOf(o) ==
  IF o = "Triangle_IntersectsTriangle" THEN KindT \o KindT
  ELSE IF o \in {"Ray_S", "Ray_B", "Ray_O", "Ray_F", "Ray_T"} THEN Kind(SoloOf(o)) \o KindRay
  ELSE IF o \in {"Plane_S", "Plane_B", "Plane_O", "Plane_F", "Plane_T"} THEN Kind(SoloOf(o)) \o KindPlane
  ELSE IF o \in {"ContainedBy_S", "ContainedBy_B", "ContainedBy_O", "ContainedBy_F", "ContainedBy_T"} THEN Kind(SoloOf(o)) \o Rep(KindPlane, 6)
  ELSE LET p == PairOf(o) IN Kind(p[1]) \o Kind(p[2])
Scen(o, k) == Vary(Scen0(o, k), KindOf(o), k, -14, 24)
=============================================================================
