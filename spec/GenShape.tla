------------------------------ MODULE GenShape ------------------------------
(* Random bodies (as argument words) and the pieces used to place them. *)
EXTENDS GenBase, CGeom

Pos(b) == MagBits(b)
\* a positive size around 2^s
Sz(k, j, s) == LET c == Rnd(k, j) % 6
               IN  CASE c = 0 -> DF32(DMul(DInt(1 + (Rnd(k, j + 1) % 4)), DPow2(s - 1)))
                     [] c = 1 -> DF32(DMul(DBits(F(1 + (Rnd(k, j + 1) % 20), 40)), DPow2(s)))
                     [] OTHER -> Pos(RndF(k, j + 1, s - 1, s + 1))
\* extents: mostly of one order, sometimes a rod or a slab
Ext(k, j, s, i) == LET w == Rnd(k, j + 47) % 6
                       long == 1 + (Rnd(k, j + 48) % 3)
                       e == IF w = 0 /\ i = long THEN 2 ELSE IF w = 0 THEN -2 ELSE IF w = 1 /\ i = long THEN -3 ELSE 0
                       flat == Rnd(k, j + 49) % 12 = 0 /\ i = 1 + (Rnd(k, j + 46) % 3)            \* no thickness at all
                   IN  IF flat THEN 0 ELSE Sz(k, j + (10 * (i - 1)), s + e)
Coord(k, j) == LET c == Rnd(k, j) % 4 IN IF c = 0 THEN Lane("int", k, j + 1) ELSE IF c = 1 THEN Lane("lat", k, j + 1) ELSE RndF(k, j + 1, -3, 2)
SmallOrZero(k, j) == IF Rnd(k, j) % 40 = 0 THEN TRUE ELSE FALSE
Off(k, j) == DMul(DInt((Rnd(k, j) % 257) - 128), DPow2(-6))
UnitQ(k, j) == LET c == Rnd(k, j + 31) % 8
               IN  IF c = 0 THEN <<0, 0, 0, OneB>>
                   ELSE IF c = 1 THEN [i \in 1..4 |-> IF i = 1 + (Rnd(k, j + 32) % 4) THEN (IF Rnd(k, j + 33) % 2 = 0 THEN OneB ELSE FNegBits(OneB)) ELSE 0]
                   ELSE IF c \in {2, 3} THEN NormV([i \in 1..4 |-> IF Rnd(k, j + 33 + i) % 2 = 0 THEN 0 ELSE Lane("int", k, 16 * j + i)], 4)
                   ELSE UnitV(4, k, j)
Slope(k, j) == F(1 + (Rnd(k, j) % 16), 8)
Degenerate(t) == LET n == Cross3(Sub3(P3(t, 5), P3(t, 1)), Sub3(P3(t, 9), P3(t, 1)))
                 IN  DLt(Sq3(n), DPow2(-16))
FixTri(t) == t
Tri(k, j, s) == LET sc(b) == DF32(DMul(DBits(b), DPow2(s - 1)))
                    Pt(q) == <<sc(Coord(k, j + q)), sc(Coord(k, j + q + 5)), sc(Coord(k, j + q + 10)), 0>>
                    t == Pt(0) \o Pt(20) \o Pt(40)
                IN  IF Degenerate(t) THEN <<0, 0, 0, 0>> \o <<sc(OneB), 0, sc(OneB), 0>> \o <<0, sc(OneB), 0, 0>> ELSE t
Shape(t, k, j, s) ==
  CASE t = "P" -> <<0, 0, 0, 0>>
    [] t = "S" -> <<0, 0, 0, IF Rnd(k, j + 49) % 24 = 0 THEN 0 ELSE Sz(k, j, s)>>
    [] t = "B" -> <<0, 0, 0, Ext(k, j, s, 1), Ext(k, j, s, 2), Ext(k, j, s, 3)>>
    [] t = "O" -> <<0, 0, 0, Ext(k, j, s, 1), Ext(k, j, s, 2), Ext(k, j, s, 3)>> \o UnitQ(k, j + 30)
    [] t = "T" -> Tri(k, j, s)
    [] t = "F" -> LET n == Sz(k, j, s - 1)
                      f == DF32(DAdd(DBits(n), DBits(Sz(k, j + 10, s + 1))))
                      r == Slope(k, j + 20)
                      u == Slope(k, j + 21)
                      l0 == Slope(k, j + 22)
                      b0 == Slope(k, j + 23)
                      \* usually straddling the axis; sometimes off to one side
                      l == IF Rnd(k, j + 24) % 5 = 0 THEN DF32(DMul(DBits(r), DPow2(-1 - (Rnd(k, j + 26) % 2)))) ELSE FNegBits(l0)
                      b == IF Rnd(k, j + 25) % 5 = 0 THEN DF32(DMul(DBits(u), DPow2(-1 - (Rnd(k, j + 27) % 2)))) ELSE FNegBits(b0)
                      rh == Rnd(k, j + 28) % 5 = 0          \* as built from a right-handed projection: looks along -z
                  IN  <<0, 0, 0>> \o UnitQ(k, j + 30) \o
                      (IF rh THEN <<FNegBits(r), FNegBits(l), FNegBits(u), FNegBits(b), FNegBits(f), FNegBits(n)>> ELSE <<r, l, u, b, n, f>>)
RECURSIVE SetAt(_, _, _)
SetAt(a, p, t) == IF p = <<>> THEN a
                  ELSE SetAt([i \in 1..Len(a) |-> IF i = p[1] THEN DF32(DAdd(DBits(a[i]), t[1])) ELSE IF i = p[1] + 1 THEN DF32(DAdd(DBits(a[i]), t[2])) ELSE IF i = p[1] + 2 THEN DF32(DAdd(DBits(a[i]), t[3])) ELSE a[i]], Tail(p), t)
Move(ty, a, t) == SetAt(a, IF ty = "T" THEN <<1, 5, 9>> ELSE <<1>>, t)
Jitter(ty, a, k) == IF Rnd(k, 890) % 4 = 0 THEN a ELSE Move(ty, a, <<DBits(Coord(k, 891)), DBits(Coord(k, 893)), DBits(Coord(k, 895))>>)
JunkT(t, k, j) == Junk(SubSeq(t, 1, 4), 3, k, j) \o Junk(SubSeq(t, 5, 8), 3, k, j + 1) \o Junk(SubSeq(t, 9, 12), 3, k, j + 2)

\* ---------------------------------------------------------------- variations of a finished scenario
\* words: 1 a length, 2 a length that is never negative, 0 a number, 3 a number that is zero or far from it, -1 not to be touched
KindT == <<1, 1, 1, -1, 1, 1, 1, -1, 1, 1, 1, -1>>
Kind(t) == CASE t = "P" -> <<1, 1, 1, -1>> [] t = "S" -> <<1, 1, 1, 2>> [] t = "B" -> <<1, 1, 1, 2, 2, 2>> [] t = "O" -> <<1, 1, 1, 2, 2, 2, 0, 0, 0, 0>>
             [] t = "T" -> KindT [] t = "F" -> <<1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1>>
KindRay == <<1, 1, 1, -1, 0, 0, 0, -1>>
KindPlane == <<0, 0, 0, 1>>
KindMat == <<0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0, -1, 1, 1, 1, -1>>
KindDec == <<0, 0, 0, 0, 0, 1, 1, 1, -1>>
UnitF(u) == LET l == Len3(u) IN <<DF32(DDiv(u[1], l)), DF32(DDiv(u[2], l)), DF32(DDiv(u[3], l)), 0>>
Dir(u) == LET l == Len3(u) IN <<DDiv(u[1], l), DDiv(u[2], l), DDiv(u[3], l)>>
RandDir(k, j) == P3(UnitV(3, k, j), 1)
SizeOf(A) == IF A.ty = "S" THEN A.r ELSE IF A.ty = "P" THEN D1
             ELSE LET s == ScaleOf([i \in 1..Len(A.v) |-> Sub3(A.v[i], A.v[1])], 1) IN IF DSign(s) = 0 THEN D1 ELSE s
Gap(A, B, k) == LET m == DMul(DMin(SizeOf(A), SizeOf(B)), DPow2(-2 - (Rnd(k, 905) % 7)))
                IN  IF Rnd(k, 906) % 2 = 0 THEN m ELSE DNeg(m)

\* a point of the body furthest along d: a random combination of the vertices that reach furthest
RECURSIVE Comb(_, _, _, _, _)
Comb(v, w, i, acc, tot) == IF i > Len(v) THEN Scale3(acc, DDiv(D1, DInt(tot))) ELSE Comb(v, w, i + 1, Add3(acc, Scale3(v[i], DInt(w[i]))), tot + w[i])
SupSet(A, d) == LET top == Hi(d, A.v)
                    eps == DMul(DMul(DAdd(ScaleOf(A.v, 1), DPow2(-10)), Len3(d)), DPow2(-18))
                IN  SelectSeq(A.v, LAMBDA x : DLe(DSub(top, eps), Dot3(d, x)))
SupPt(A, d, k, j) ==
  IF A.ty = "S" THEN Add3(A.c, Scale3(Dir(d), A.r))
  ELSE LET s == SupSet(A, d)
           w == [i \in 1..Len(s) |-> 1 + (Rnd(k, j + i) % 9)]
       IN  Chop3(Comb(s, w, 1, Zero3, 0))

\* a contact direction (unit)
Sgn(k, j, u) == IF Rnd(k, j) % 2 = 0 THEN u ELSE Neg3(u)
NormalOf(A, k, j) == IF Len(A.n) = 0 THEN RandDir(k, j) ELSE Sgn(k, j + 1, A.n[1 + (Rnd(k, j) % Len(A.n))])
\* blend of outward normals: reaches edges and corners
BlendOf(A, k, j) ==
  LET hs == IF Len(A.h) = 0 THEN <<RandDir(k, j), RandDir(k, j + 3)>> ELSE [i \in 1..Len(A.h) |-> A.h[i].n]
      x == hs[1 + (Rnd(k, j + 1) % Len(hs))]
      y == hs[1 + (Rnd(k, j + 2) % Len(hs))]
      z == hs[1 + (Rnd(k, j + 4) % Len(hs))]
      W(q) == DInt(1 + (Rnd(k, j + q) % 8))
      two == Add3(Scale3(x, W(5)), Scale3(y, W(6)))
  IN  IF Rnd(k, j + 7) % 2 = 0 THEN two ELSE Add3(two, Scale3(z, W(8)))
\* the n-th edge-edge direction
EdgeDir(A, B, n) == LET i == 1 + ((n \div Len(B.ed)) % Len(A.ed))
                        j == 1 + (n % Len(B.ed))
                        x == Chop3(Cross3(A.ed[i], B.ed[j]))
                    IN  IF ((n \div (Len(A.ed) * Len(B.ed))) % 2) = 0 THEN x ELSE Neg3(x)
\* look for an edge-edge direction in which both bodies touch along an edge
RECURSIVE FindEdge(_, _, _, _)
FindEdge(A, B, n, left) ==
  LET d == EdgeDir(A, B, n)
      ok == /\ DLt(DPow2(-12), Sq3(d))
            /\ Len(SupSet(A, d)) >= 2
            /\ Len(SupSet(B, Neg3(d))) >= 2
  IN  IF ok THEN d ELSE IF left = 0 THEN Zero3 ELSE FindEdge(A, B, n + 7, left - 1)
PickDir(A, B, k, inner) ==
  LET c == Rnd(k, 902) % 10
      edges == IF A.ty \in {"S", "P"} \/ B.ty \in {"S", "P"} THEN Zero3 ELSE FindEdge(A, B, Rnd(k, 903), 40)
      d == IF inner THEN (IF c < 6 THEN NormalOf(A, k, 907) ELSE BlendOf(A, k, 907))
           ELSE CASE c \in {0, 1} -> NormalOf(A, k, 907)
                  [] c \in {2, 3} -> Neg3(NormalOf(B, k, 907))
                  [] c \in {4, 5, 6} -> edges
                  [] c = 7 -> Neg3(BlendOf(B, k, 907))
                  [] c = 8 -> BlendOf(A, k, 907)
                  [] OTHER -> RandDir(k, 907)
      e == IF DLt(Sq3(d), DPow2(-16)) THEN RandDir(k, 908) ELSE d
  IN  Dir(e)
=============================================================================
