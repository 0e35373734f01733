------------------------------ MODULE GenCollB ------------------------------
EXTENDS GenBase, CGeom, GenShape
With(ns, c) == [i \in 1..Len(ns) |-> <<ns[i], c>>]
Plan(p) ==
  LET m == 60 * GScale IN
  CASE p = "C31" -> With(<<"Merged_S", "Merged_B">>, 6 * m) \o With(<<"SphereFromBox", "SphereFromOBox", "BoxFromSphere", "OBoxFromBox">>, m) \o With(<<"SphereFromPoints", "BoxFromPoints">>, 6 * m)
                    \o With(<<"SphereFromFrustum">>, 4 * m) \o With(<<"OBoxFromPoints">>, 10 * m) \o With(<<"Empty_S", "Empty_B", "Empty_O">>, 10)
    [] p = "C32" -> With(<<"Matrix_S", "Matrix_B", "Matrix_O", "Matrix_F", "Decomp_S", "Decomp_B", "Decomp_O", "Decomp_F">>, 6 * m)
    [] p = "C33" -> With(<<"Corners_B", "Corners_O", "Corners_F", "Planes_F">>, 6 * m) \o With(<<"FromMatrix_F">>, 12 * m)
At(t, k, j, s) == LET sc == IF k % 7 = 0 THEN s + (Rnd(k, j + 90) % 9) - 4 ELSE s
                  IN  Jitter(t, Shape(t, k, j, sc), k)
Wide(t, k, j) == LET c == k % 3 IN At(t, k, j, IF c = 0 THEN 0 ELSE IF c = 1 THEN 3 ELSE -3)
\* ---------------------------------------------------------------- point sets
Points(k) ==
  LET n == 1 + (Rnd(k, 700) % 12)
      c == Rnd(k, 701) % 13
      base == <<DBits(Coord(k, 702)), DBits(Coord(k, 704)), DBits(Coord(k, 706))>>
      u == RandDir(k, 708)
      v == Cross3(u, RandDir(k, 709))
      N(i, q) == DDiv(DInt((Rnd(k, 720 + 7 * i + q) % 65) - 32), DInt(8))
      R3(x) == <<DF32(x[1]), DF32(x[2]), DF32(x[3])>>
      ax == QAxes(Q4(UnitQ(k, 740), 1))
      ia == 1 + (Rnd(k, 703) % n)
      ib == 1 + ((ia + (Rnd(k, 705) % (IF n = 1 THEN 1 ELSE n - 1))) % n)
      ctr == IF Rnd(k, 706) % 2 = 0 THEN <<DInt(0), DInt(0), DInt(0)>> ELSE <<DInt((Rnd(k, 702) % 9) - 4), DInt((Rnd(k, 704) % 9) - 4), DInt((Rnd(k, 707) % 9) - 4)>>
      free == CASE Rnd(k, 708) % 6 = 0 -> {1} [] Rnd(k, 708) % 6 = 1 -> {2} [] Rnd(k, 708) % 6 = 2 -> {3} [] Rnd(k, 708) % 6 = 3 -> {1, 2} [] Rnd(k, 708) % 6 = 4 -> {1, 3} [] OTHER -> {2, 3}
      half == [q \in 1..3 |-> DInt(Rnd(k, 709 + q) % 3)]
      Pt(i) == CASE c \in {0, 1} -> <<Coord(k, 750 + 9 * i), Coord(k, 753 + 9 * i), Coord(k, 756 + 9 * i)>>
                 [] c = 2 -> R3(Add3(base, Scale3(u, N(i, 0))))                                              \* collinear
                 [] c = 3 -> R3(Add3(base, Add3(Scale3(u, N(i, 0)), Scale3(v, N(i, 1)))))                    \* planar
                 [] c = 4 -> <<DF32(base[1]), DF32(base[2]), DF32(base[3])>>                                 \* coincident
                 [] c = 5 -> R3(Add3(base, Scale3(<<N(i, 0), N(i, 1), N(i, 2)>>, DPow2(-6))))                \* tight cluster away from the origin
                 [] c = 6 -> R3(Scale3(RandDir(k, 750 + 5 * i), DInt(3)))                                    \* on a sphere
                 [] c = 7 -> IF i = ia THEN R3(Add3(base, Scale3(u, DInt(4)))) ELSE IF i = ib THEN R3(Sub3(base, Scale3(u, DInt(4))))   \* spanned by a pair
                             ELSE R3(Add3(base, Scale3(RandDir(k, 750 + 5 * i), DDiv(DInt(Rnd(k, 751 + 5 * i) % 24), DInt(8)))))
                 [] c = 8 -> R3(Add3(ctr, [q \in 1..3 |-> IF q \in free THEN N(i, q) ELSE DInt(0)]))       \* axis-aligned line or plane
                 [] c = 9 -> R3(Add3(ctr, [q \in 1..3 |-> IF q # 1 + ((i \div 2) % 3) THEN DInt(0) ELSE DMul(IF i % 2 = 0 THEN DInt(-1) ELSE DInt(1), half[q])]))   \* octahedral
                 [] c = 10 -> R3(Add3(ctr, [q \in 1..3 |-> DMul(IF (i \div (2 ^ (q - 1))) % 2 = 0 THEN DInt(-1) ELSE DInt(1), half[q])]))                    \* corners of a box, or some of them
                 [] OTHER -> R3(Add3(base, Lin(ax, <<DMul(N(i, 0), DInt(2)), N(i, 1), DMul(N(i, 2), DPow2(-2))>>)))   \* elongated cloud
      RECURSIVE Cat(_)
      Cat(i) == IF i > n THEN <<>> ELSE Pt(i) \o Cat(i + 1)
  IN  <<n>> \o Cat(1)
\* ---------------------------------------------------------------- matrices
R4(x, w) == <<DF32(x[1]), DF32(x[2]), DF32(x[3]), w>>
SRT(k, j, s) == LET ax == QAxes(Q4(UnitQ(k, j), 1))
                IN  R4(Scale3(ax[1], s[1]), 0) \o R4(Scale3(ax[2], s[2]), 0) \o R4(Scale3(ax[3], s[3]), 0) \o <<Coord(k, j + 200), Coord(k, j + 202), Coord(k, j + 204), OneB>>
SS(k, j) == DBits(Sz(k, j, (Rnd(k, j + 5) % 5) - 2))
Uniform(k) == LET s == SS(k, 600) IN SRT(k, 620, <<s, s, s>>)
AnyAffine(k) == IF Rnd(k, 601) % 3 = 0 THEN SRT(k, 620, <<SS(k, 602), SS(k, 604), SS(k, 606)>>)
                ELSE [i \in 1..16 |-> IF i = 16 THEN OneB ELSE IF i % 4 = 0 THEN 0 ELSE Coord(k, 640 + 5 * i)]
\* perspective projections: field of view or off-centre, left- or right-handed
Proj(k) ==
  LET rh == Rnd(k, 650) % 2 = 1
      s == DInt(IF rh THEN -1 ELSE 1)
      n == DBits(Sz(k, 651, -2))
      f == DAdd(n, DBits(Sz(k, 653, Rnd(k, 655) % 6)))
      x == DDiv(DInt(1 + (Rnd(k, 656) % 24)), DInt(8))
      y == DDiv(DInt(1 + (Rnd(k, 657) % 24)), DInt(8))
      ox == IF Rnd(k, 658) % 2 = 0 THEN D0 ELSE DDiv(DInt((Rnd(k, 659) % 17) - 8), DInt(10))
      oy == IF Rnd(k, 658) % 2 = 0 THEN D0 ELSE DDiv(DInt((Rnd(k, 660) % 17) - 8), DInt(10))
      q == DDiv(f, DSub(f, n))
      W(v) == DF32(v)
  IN  <<W(x), 0, 0, 0, 0, W(y), 0, 0, W(ox), W(oy), W(DMul(q, s)), W(s), 0, 0, W(DNeg(DMul(q, n))), 0, IF rh THEN 1 ELSE 0>>
DecA(k) == <<Sz(k, 600, (Rnd(k, 605) % 5) - 2)>> \o UnitQ(k, 620) \o Junk(<<Coord(k, 610), Coord(k, 612), Coord(k, 614), 0>>, 3, k, 60)
Two(t, k) ==
  LET a == At(t, k, 100, 0)
      b == Shape(t, k, 300, (Rnd(k, 301) % 4) - 2)
      A == Body(t, a, 1)
      c == Rnd(k, 302) % 6
      d == RandDir(k, 303)
      r1 == IF t = "S" THEN A.r ELSE A.e[1]
      r2 == IF t = "S" THEN Body(t, b, 1).r ELSE Body(t, b, 1).e[1]
      g == DMul(r1, DDiv(DInt((Rnd(k, 304) % 33) - 16), DInt(64)))
      l == CASE c = 0 -> D0 [] c = 1 -> DAdd(DAdd(r1, r2), g) [] c = 2 -> DAdd(DSub(r1, r2), g) [] c = 3 -> DAdd(DSub(r2, r1), g) [] OTHER -> Off(k, 305)
  IN  a \o Move(t, b, Add3(A.c, Scale3(d, l)))
Identity(o, k) == SubSeq(o, 1, 6) \o <<0, 0, 0, OneB>>
Scen0(o, k) ==
  CASE o = "Corners_B" -> Wide("B", k, 100) [] o = "Corners_O" -> Wide("O", k, 100) [] o = "Corners_F" -> Wide("F", k, 100)
    [] o = "Planes_F" -> At("F", k, 100, 0) \o <<IF k % 2 = 0 THEN 63 ELSE Rnd(k, 99) % 64>>
    [] o = "FromMatrix_F" -> Proj(k)
    [] o = "Merged_S" -> Two("S", k)
    [] o = "Merged_B" -> Two("B", k)
    [] o \in {"SphereFromBox", "OBoxFromBox"} -> Wide("B", k, 100)
    [] o = "SphereFromOBox" -> Wide("O", k, 100)
    [] o = "BoxFromSphere" -> Wide("S", k, 100)
    [] o = "SphereFromFrustum" -> Wide("F", k, 100)
    [] o \in {"SphereFromPoints", "BoxFromPoints", "OBoxFromPoints"} -> Points(k)
    [] o \in {"Empty_S", "Empty_B", "Empty_O"} -> IF k % 3 = 0 THEN <<0, 0, 0, 0>> ELSE VecM("lat", k, 0)
    [] o = "Matrix_S" -> Wide("S", k, 100) \o AnyAffine(k)
    [] o = "Matrix_B" -> Wide("B", k, 100) \o AnyAffine(k)
    [] o = "Matrix_O" -> IF k % 3 = 0 THEN Identity(At("O", k, 100, 0), k) \o SRT(k, 620, <<SS(k, 602), SS(k, 604), SS(k, 606)>>) ELSE At("O", k, 100, 0) \o Uniform(k)
    [] o = "Matrix_F" -> At("F", k, 100, 0) \o Uniform(k)
    [] o = "Decomp_S" -> Wide("S", k, 100) \o DecA(k) [] o = "Decomp_B" -> Wide("B", k, 100) \o DecA(k)
    [] o = "Decomp_O" -> At("O", k, 100, 0) \o DecA(k) [] o = "Decomp_F" -> At("F", k, 100, 0) \o DecA(k)
KindOf(o, a) ==
  CASE o \in {"Corners_B", "SphereFromBox", "OBoxFromBox"} -> Kind("B") [] o \in {"Corners_O", "SphereFromOBox"} -> Kind("O") [] o \in {"Corners_F", "SphereFromFrustum"} -> Kind("F")
    [] o = "Planes_F" -> Kind("F") \o <<-1>>
    [] o = "FromMatrix_F" -> [i \in 1..17 |-> IF i = 17 THEN -1 ELSE IF i = 15 THEN 1 ELSE 3]
    [] o = "Merged_S" -> Kind("S") \o Kind("S") [] o = "Merged_B" -> Kind("B") \o Kind("B")
    [] o = "BoxFromSphere" -> Kind("S")
    [] o \in {"SphereFromPoints", "BoxFromPoints", "OBoxFromPoints"} -> [i \in 1..Len(a) |-> IF i = 1 THEN -1 ELSE 1]
    [] o \in {"Empty_S", "Empty_B", "Empty_O"} -> <<-1, -1, -1, -1>>
    [] o = "Matrix_S" -> Kind("S") \o KindMat [] o = "Matrix_B" -> Kind("B") \o KindMat [] o = "Matrix_O" -> Kind("O") \o KindMat [] o = "Matrix_F" -> Kind("F") \o KindMat
    [] o = "Decomp_S" -> Kind("S") \o KindDec [] o = "Decomp_B" -> Kind("B") \o KindDec [] o = "Decomp_O" -> Kind("O") \o KindDec [] o = "Decomp_F" -> Kind("F") \o KindDec
Scen(o, k) == LET a == Scen0(o, k) IN Vary(a, KindOf(o, a), k, -14, 24)
=============================================================================
