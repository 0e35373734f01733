------------------------------ MODULE GenArith ------------------------------
EXTENDS GenBase
With(ns, c) == [i \in 1..Len(ns) |-> <<ns[i], c>>]
Plan(p) ==
  LET m == 600 * GScale IN
  CASE p = "C05" -> With(<<"XMVectorAdd", "XMVectorSubtract", "XMVectorMultiply", "XMVectorDivide", "XMVectorNegate", "XMVectorAbs", "XMVectorScale", "XMVectorSqrt",
                           "XMVectorReciprocal", "XMVectorReciprocalSqrt", "XMVectorMultiplyAdd", "XMVectorNegativeMultiplySubtract">>, m)
    [] p = "C06" -> With(<<"XMVectorMin", "XMVectorMax", "XMVectorClamp", "XMVectorSaturate">>, 2 * m)
    [] p = "C07" -> With(<<"XMVectorRound", "XMVectorTruncate", "XMVectorFloor", "XMVectorCeiling">>, 2 * m) \o With(<<"XMVectorMod">>, 2 * m)

\* second operand that interacts with the first: close, opposite, scaled, or independent
Partner(x, k, j) ==
  [i \in 1..4 |-> LET c == Rnd(k, j + 7 * i) % 6
                  IN  CASE c = 0 -> Nudge(x[i], k, j + i)
                        [] c = 1 -> FNegBits(Nudge(x[i], k, j + i))
                        [] c = 2 -> IF IsFin(x[i]) /\ MagBits(x[i]) > 8388608 * 60 /\ MagBits(x[i]) < 8388608 * 200 THEN Word(HiHalf(x[i]) - 128 * (20 + (Rnd(k, j + i) % 8)), Rnd(k, j)) ELSE Lane("spec", k, j + i)
                        [] OTHER -> VecA(k, j)[i]]
\* numbers around integers, halves and the edges of the exactly-representable ranges
IntEdge(k, j) ==
  LET c == Rnd(k, j) % 8
      n == (Rnd(k, j + 1) % 200) - 100
      b == CASE c = 0 -> F(n, 1)
             [] c = 1 -> F(2 * n + 1, 2)
             [] c = 2 -> Nudge(F(n, 1), k, j + 2)
             [] c = 3 -> Nudge(F(2 * n + 1, 2), k, j + 2)
             [] c = 4 -> Word(0, Rnd(k, j + 3)) + F(4194304, 1) - 30000      \* around 2^22: halves representable
             [] c = 5 -> F(8388608, 1) + (Rnd(k, j + 3) % 400) - 200            \* around 2^23
             [] c = 6 -> Lane("fin", k, j)
             [] c = 7 -> RndF(k, j, -2, 24)
  IN  IF Rnd(k, j + 5) % 2 = 0 THEN b ELSE FNegBits(b)
IntVec(k, j) == IF k % 5 = 4 THEN VecA(k, j) ELSE [i \in 1..4 |-> IntEdge(k, 40 * j + 9 * i)]
\* ordered pair of bounds per lane
NoNaN(v) == [i \in 1..4 |-> IF IsNaN(v[i]) THEN 0 ELSE v[i]]
Bounds(k) == LET p == NoNaN(VecM(<<"lat", "mod", "fin", "dict", "unit", "grid">>[1 + (k % 6)], k, 1))
                 q == NoNaN(VecM(<<"lat", "mod", "fin", "unit", "dict", "mod">>[1 + ((k \div 6) % 6)], k, 2))
                 lo == [i \in 1..4 |-> IF Rnd(k, 60 + i) % 9 = 0 THEN NInf ELSE IF FLe(p[i], q[i]) THEN p[i] ELSE q[i]]
                 hi == [i \in 1..4 |-> IF Rnd(k, 70 + i) % 9 = 0 THEN PInf ELSE IF Rnd(k, 80 + i) % 9 = 0 THEN lo[i] ELSE IF FLe(p[i], q[i]) THEN q[i] ELSE p[i]]
             IN  <<lo, hi>>
ClampArgs(k) == LET b == Bounds(k)
                    v == [i \in 1..4 |-> LET c == Rnd(k, 90 + i) % 5
                                         IN  CASE c = 0 -> Nudge(b[1][i], k, i) [] c = 1 -> Nudge(b[2][i], k, i) [] c = 2 -> b[1][i] [] OTHER -> Lane(<<"lat", "spec", "mod">>[1 + (k % 3)], k, i)]
                IN  v \o b[1] \o b[2]
ModArgs(k) == LET x == VecM(<<"mod", "lat", "mod", "wide", "fin", "spec", "int">>[1 + (k % 7)], k, 0)
                  y == VecM(<<"mod", "lat", "unit", "mod", "lat", "spec", "int">>[1 + (k % 7)], k, 1)
              IN  x \o y
Scen(o, k) ==
  CASE o = "XMVectorScale" -> VecA(k, 0) \o <<Lane(ModeOf(AnyModes, k \div 10), k, 99)>>
    [] o \in {"XMVectorNegate", "XMVectorAbs", "XMVectorReciprocal"} -> VecA(k, 0)
    [] o \in {"XMVectorSqrt", "XMVectorReciprocalSqrt"} -> LET v == VecA(k, 0) IN [i \in 1..4 |-> IF Rnd(k, i + 70) % 6 = 0 THEN v[i] ELSE MagBits(v[i])]
    [] o \in {"XMVectorAdd", "XMVectorSubtract", "XMVectorMultiply", "XMVectorDivide", "XMVectorMin", "XMVectorMax"} -> LET v == VecA(k, 0) IN v \o Partner(v, k, 33)
    [] o \in {"XMVectorMultiplyAdd", "XMVectorNegativeMultiplySubtract"} ->
         LET x == VecA(k, 0)
             y == VecA(k \div 2, 1)
             s == IF o = "XMVectorMultiplyAdd" THEN 1 ELSE 0
             z == [i \in 1..4 |-> IF Rnd(k, i + 50) % 2 = 0 /\ IsFin(x[i]) /\ IsFin(y[i])      \* cancel the product
                                  THEN LET q == Nudge(DF32(DMul(DBits(x[i]), DBits(y[i]))), k, 60 + i) IN IF s = 1 THEN FNegBits(q) ELSE q
                                  ELSE VecA(k, 2)[i]]
         IN  x \o y \o z
    [] o = "XMVectorClamp" -> ClampArgs(k)
    [] o = "XMVectorSaturate" -> LET v == VecM(<<"unit", "spec", "lat", "mod", "dict", "grid">>[1 + (k % 6)], k, 0) IN [i \in 1..4 |-> IF Rnd(k, i) % 3 = 0 THEN Nudge(v[i], k, i) ELSE v[i]]
    [] o \in {"XMVectorRound", "XMVectorTruncate", "XMVectorFloor", "XMVectorCeiling"} -> IntVec(k, 0)
    [] o = "XMVectorMod" -> ModArgs(k)
=============================================================================
