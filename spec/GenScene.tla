------------------------------ MODULE GenScene ------------------------------
(***************************************************************************)
(* Scenes: volumes near each other, then a program that builds volumes out *)
(* of volumes and queries them; often a query, a small move of one of its  *)
(* operands, and the query again.                                          *)
(***************************************************************************)
EXTENDS GenBase, CGeom, GenShape, SceneOps
LOCAL G == INSTANCE GenCollB
Plan(p) == <<<<"Scene", 30 * GScale>>>>
NSteps == 20
Home(k) == CASE k = "S" -> <<0, 4>> [] k = "B" -> <<8, 6>> [] k = "O" -> <<20, 10>> [] k = "F" -> <<40, 13>>
             [] k = "N" -> <<66, 25>> [] k = "C" -> <<67, 24>> [] k = "P" -> <<67, 4>> [] k = "L" -> <<91, 24>> [] k = "V" -> <<91, 4>>
             [] k = "M" -> <<115, 16>> [] k = "D" -> <<147, 9>> [] k = "J" -> <<156, 17>> [] k = "K" -> <<173, 1>>
Kinds == {"S", "B", "O", "F"}
\* a window of the given kind, chosen by x
Win(kind, x) ==
  LET h == Home(kind) IN
  CASE kind \in Kinds \cup {"M"} -> <<h[1] + (h[2] * (x % 2)), h[2]>>
    [] kind = "P" -> <<67 + 3 * (x % 8), 4>>
    [] kind = "V" -> <<91 + 4 * (x % 6), 4>>
    [] OTHER -> h
Wins(o, k, j) ==
  LET ks == OpTable[o][2]
      x == Rnd(k, j)
      \* two volumes of one kind: mostly different registers
      two == Len(ks) = 2 /\ ks[1] = ks[2]
  IN  IF Len(ks) = 2 /\ ks[2] = "T"
      THEN LET a == Rnd(k, j + 1) % 8
               b == (a + 1 + (Rnd(k, j + 2) % 7)) % 8
               e == CHOOSE e \in 0..7 : e \notin {a, b} /\ (e = (a + 1) % 8 \/ (b = (a + 1) % 8 /\ e = (a + 2) % 8))
           IN  Win(ks[1], x) \o Win("P", a) \o Win("P", b) \o Win("P", e)
      ELSE LET w == [n \in 1..Len(ks) |-> Win(ks[n], IF two /\ n = 2 THEN x + (IF x % 9 = 0 THEN 0 ELSE 1) ELSE Rnd(k, j + n - 1))]
               RECURSIVE Cat(_)
               Cat(n) == IF n > 4 THEN <<>> ELSE IF n > Len(w) THEN <<0, 0>> \o Cat(n + 1) ELSE w[n] \o Cat(n + 1)
           IN  Cat(1)
IsQuery(o) == OpTable[o][3] \in {"q", "r"}
\* among the queries, points, planes and rays get a share of their own
Simple == {o \in 1..NOps : OpTable[o][3] \in {"q", "r"} /\ OpTable[o][2][2] \in {"P", "V"}}
\* the corners of a flat box make no triangles: some scenes have flat volumes, the others triangles
FlatScene(k) == k % 4 = 0
Triangular == {o \in 1..NOps : Len(OpTable[o][2]) = 2 /\ OpTable[o][2][2] = "T"}
PickOp(k, j, build) ==
  LET S == (IF ~build /\ Rnd(k, j + 35) % 3 = 0 THEN Simple ELSE {o \in 1..NOps : IsQuery(o) # build}) \ (IF FlatScene(k) THEN Triangular ELSE {})
      RECURSIVE Find(_)
      Find(x) == LET o == 1 + (x % NOps) IN IF o \in S THEN o ELSE Find(x + 1)
  IN  Find(Rnd(k, j))
Ins(o, k, j) ==
  LET d == OpTable[o][3]
      dst == IF d \in Kinds THEN Win(d, Rnd(k, j + 7))[1] ELSE IF d \in {"C", "L"} THEN Home(d)[1] ELSE 999
  IN  <<o, dst>> \o Wins(o, k, j + 10)
\* move the first operand: one coordinate of its centre
Poke(ins, k, j) == <<0, 999, ins[3] + (Rnd(k, j) % 3), Coord(k, j + 1), 0, 0, 0, 0, 0, 0>>
Grow(ins, k, j) ==                                   \* or another radius, extent
  LET n == OpTable[ins[1]][2][1]
  IN  IF n = "S" THEN <<0, 999, ins[3] + 3, Sz(k, j, 0), 0, 0, 0, 0, 0, 0>>
      ELSE IF n \in {"B", "O"} THEN <<0, 999, ins[3] + 3 + (Rnd(k, j + 3) % 3), Sz(k, j, 0), 0, 0, 0, 0, 0, 0>>
      ELSE Poke(ins, k, j)
\* or part of another volume: an orientation, the slopes and depths of the other frustum
Turn(ins, k, j) ==
  LET n == OpTable[ins[1]][2][1]
      from == <<26, 36, 43, 56, 148>>[1 + (Rnd(k, j) % 5)]
  IN  IF n = "O" THEN <<0, ins[3] + 6, from, 4, 0, 0, 0, 0, 0, 0>>
      ELSE IF n = "F" THEN (IF Rnd(k, j + 1) % 2 = 0 THEN <<0, ins[3] + 3, from, 4, 0, 0, 0, 0, 0, 0>>
                            ELSE <<0, ins[3] + 7, IF ins[3] = 40 THEN 60 ELSE 47, 6, 0, 0, 0, 0, 0, 0>>)
      ELSE Grow(ins, k, j)
\* or reflect: one coordinate of the centre, one component of the orientation
Reflect(ins, k, j) ==
  LET n == OpTable[ins[1]][2][1]
      at == IF n = "O" /\ Rnd(k, j) % 3 > 0 THEN 6 + (Rnd(k, j + 1) % 4) ELSE IF n = "F" /\ Rnd(k, j) % 3 > 0 THEN 3 + (Rnd(k, j + 1) % 4) ELSE Rnd(k, j + 1) % 3
  IN  <<0, 998, ins[3] + at, 0, 0, 0, 0, 0, 0, 0>>
Movable(ins) == OpTable[ins[1]][2][1] \in Kinds
Step(k, n) ==
  LET p == n % 4
      g == n \div 4
      j == 5000 + 40 * n
      b == 5000 + 40 * (4 * g + 1)
      base == Ins(PickOp(k, b, Rnd(k, b + 30) % 3 = 0), k, b + 1)
  IN  CASE p = 0 -> Ins(PickOp(k, j, TRUE), k, j + 1)
        [] p = 1 -> base
        [] p = 2 -> LET c == Rnd(k, j) % 6
                    IN  IF c = 0 \/ ~Movable(base) THEN Ins(PickOp(k, j, TRUE), k, j + 1)
                        ELSE IF c = 1 THEN Poke(base, k, j) ELSE IF c = 2 THEN Grow(base, k, j) ELSE IF c \in {3, 4} THEN Reflect(base, k, j + 3) ELSE Turn(base, k, j)
        [] p = 3 -> IF Rnd(k, j) % 4 = 0 THEN Ins(PickOp(k, j, FALSE), k, j + 1) ELSE base
RECURSIVE Prog(_, _)
Prog(k, n) == IF n > NSteps THEN <<>> ELSE Step(k, n) \o Prog(k, n + 1)
Solid(t, v) == IF t \in {"B", "O"} THEN [n \in 1..Len(v) |-> IF n \in 4..6 /\ v[n] = 0 THEN 1065353216 ELSE v[n]] ELSE v
Vol(t, k, j) == LET v == Jitter(t, Shape(t, k, j, 0), k + j) IN IF FlatScene(k) THEN v ELSE Solid(t, v)
\* unit normal and a distance
PlaneW(k, j) == SubSeq(UnitV(3, k, j), 1, 3) \o <<Coord(k, j + 9)>>
RECURSIVE SixPlanes(_, _, _)
SixPlanes(k, j, n) == IF n = 0 THEN <<>> ELSE PlaneW(k, j) \o SixPlanes(k, j + 15, n - 1)
\* similarities that keep sizes in bounds over a whole program
Sim(k, j) == LET s == DBits(Sz(k, j, 0)) IN G!SRT(k, j + 20, <<s, s, s>>)
Dec(k, j) == <<Sz(k, j, 0)>> \o UnitQ(k, j + 20) \o Junk(<<Coord(k, j + 2), Coord(k, j + 4), Coord(k, j + 6), 0>>, 3, k, j + 8)
\* the corners of one of the volumes, drawn in or out
Corner(k) == LET c == Rnd(k, 1700) % 5
                 b == CASE c = 0 -> Body("O", Vol("O", k, 500), 1) [] c = 1 -> Body("O", Vol("O", k, 600), 1) [] c = 2 -> Body("B", Vol("B", k, 300), 1)
                        [] c = 3 -> Body("F", Vol("F", k, 700), 1) [] OTHER -> Body("F", Vol("F", k, 800), 1)
                 f == DDiv(DInt(3 + (Rnd(k, 1701) % 6)), DInt(8))
                 mid == Scale3(Add3(b.v[1], b.v[7]), DPow2(-1))
                 R3(x) == LET y == Add3(mid, Scale3(Sub3(x, mid), f)) IN <<DF32(y[1]), DF32(y[2]), DF32(y[3])>>
             IN  R3(b.v[1]) \o R3(b.v[2]) \o R3(b.v[3]) \o R3(b.v[4]) \o R3(b.v[5]) \o R3(b.v[6]) \o R3(b.v[7]) \o R3(b.v[8])
Scen(o, k) ==
  Vol("S", k, 100) \o Vol("S", k, 200) \o Vol("B", k, 300) \o Vol("B", k, 400) \o Vol("O", k, 500) \o Vol("O", k, 600) \o Vol("F", k, 700) \o Vol("F", k, 800)
  \o <<8>> \o Corner(k)
  \o SixPlanes(k, 1000, 6)
  \o Sim(k, 1100) \o Sim(k, 1350) \o Dec(k, 1600) \o G!Proj(k) \o <<63>>
  \o Prog(k, 1)
=============================================================================
