------------------------------ MODULE GenBase ------------------------------
(***************************************************************************)
(* Generation of scenarios (API calls with concrete arguments) from the    *)
(* specification's value domains.  Everything is a function of the         *)
(* scenario number and the seed, so a run can be repeated exactly.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, ENum

GSeed == atoi(IOEnv.GEN_SEED)
GScale == atoi(IOEnv.GEN_SCALE)        \* scenarios per operation = base count * GScale
GDict == LET d == JsonDeserialize(IOEnv.GEN_DICT) IN d      \* literals found in the sources, as float bits

P == 46337
\* pseudo-random number in 0 .. P-1 for draw j of scenario k
Rnd(k, j) ==
  LET a == ((k % P) * 4099 + (k \div P) * 31 + j * 7013 + (GSeed % P) * 271 + 17) % P
      b == (a * a + 3 * j + 5 * (k % 9973) + 11) % P
      c == (b * (a + 1) + j + 1) % P
      d == (c * c + b) % P
  IN  d
Pick(s, k, j) == s[1 + (Rnd(k, j) % Len(s))]

F(num, den) == DF32(DDiv(DInt(num), DInt(den)))      \* nearest float to num/den
\* ---------------------------------------------------------------- value pools
PosSpecials == <<
  0, 1, 2, 4194304, 8388607, 8388608, 8388609,            \* zero, denormals, smallest normals
  864026624, 872415232,                                   \* 2^-24, 2^-23
  OneB, OneB - 1, OneB + 1, OneB + 8388608, OneB - 8388608,  \* 1, neighbours, 2, 0.5
  F(1, 2) - 1, F(1, 2) + 1, F(3, 2), F(5, 2), F(7, 2), F(9, 2), F(1, 4), F(3, 4), F(1, 3), F(3, 1), F(255, 1), F(256, 1),
  F(65535, 1), F(65504, 1), F(65519, 1), F(65520, 1), F(65536, 1),
  F(4194303, 1) + 1, F(8388607, 2), F(8388607, 1), F(8388608, 1), F(8388609, 1), F(16777215, 1), F(16777216, 1),
  1325400063, 1325400064, 1325400065,                     \* 2^31 and neighbours
  1333788671, 1333788672, 1333788673,                     \* 2^32 and neighbours
  1593835520,                                             \* 2^63
  2130706432, FltMaxBits - 1, FltMaxBits, PInf, QNaN, PInf + 1, 2147483647 >>
Specials == PosSpecials \o [i \in 1..Len(PosSpecials) |-> FNegBits(PosSpecials[i])]
FinSpecials == SelectSeq(Specials, LAMBDA b : IsFin(b))
ModSpecials == SelectSeq(Specials, LAMBDA b : IsZero(b) \/ (MagBits(b) >= 864026624 /\ MagBits(b) < F(8388609, 1)))
Lattice == [i \in 1..33 |-> F(i - 17, 2)]
Ints    == [i \in 1..17 |-> F(i - 9, 1)]
UnitGrid == [i \in 1..33 |-> F(i - 17, 16)]
ManPats == <<0, 1, 2, 4194303, 4194304, 4194305, 8388606, 8388607, 2796202, 5592405, 1000, 8380000>>
Dict == IF Len(GDict) = 0 THEN <<OneB>> ELSE GDict

\* every exponent, several mantissa patterns, both signs
GridVal(n) == LET e == n % 255
                  m == ManPats[1 + ((n \div 255) % Len(ManPats))]
                  b == e * 8388608 + m
              IN  IF (n \div (255 * Len(ManPats))) % 2 = 0 THEN b ELSE FNegBits(b)
GridSize == 255 * 12 * 2

RndMan(k, j) == (Rnd(k, j) % 2896) * 2896 + (Rnd(k, j + 501) % 2896)
\* random float with exponent in lo..hi (unbiased), random sign
RndF(k, j, lo, hi) ==
  LET e == 127 + lo + (Rnd(k, j + 1000) % (hi - lo + 1))
      b == e * 8388608 + RndMan(k, j)
  IN  IF Rnd(k, j + 2000) % 2 = 0 THEN b ELSE FNegBits(b)
\* neighbour or small perturbation of a float
Nudge(b, k, j) ==
  LET c == Rnd(k, j + 3000) % 8
      m == MagBits(b)
      m2 == IF c = 0 \/ m >= PInf THEN m
            ELSE IF c = 1 THEN m + 1
            ELSE IF c = 2 /\ m > 0 THEN m - 1
            ELSE IF c = 3 /\ m < 2130000000 THEN m + 1000
            ELSE m
      s  == IF c = 7 THEN ~IsNeg(b) ELSE IsNeg(b)
  IN  IF c = 6 THEN Pick(Lattice, k, j + 4000) ELSE IF s THEN FNegBits(m2) ELSE m2

\* one lane, by mode
Lane(mode, k, j) ==
  CASE mode = "lat"  -> Pick(Lattice, k, j)
    [] mode = "int"  -> Pick(Ints, k, j)
    [] mode = "mod"  -> RndF(k, j, -4, 4)
    [] mode = "wide" -> RndF(k, j, -30, 30)
    [] mode = "spec" -> Pick(Specials, k, j)
    [] mode = "fin"  -> Pick(FinSpecials, k, j)
    [] mode = "grid" -> GridVal((Rnd(k, j) * 37 + Rnd(k, j + 9)) % GridSize)
    [] mode = "dict" -> Nudge(Pick(Dict, k, j), k, j + 1)
    [] mode = "unit" -> Pick(UnitGrid, k, j)
    [] mode = "msp"  -> Pick(ModSpecials, k, j)
    [] mode = "word" -> Word(Rnd(k, j) + (Rnd(k, j + 77) % 19200), (Rnd(k, j + 300) * 2 + (Rnd(k, j + 301) % 2)) % 65536)
    [] mode = "mix1" -> IF Rnd(k, j) % 4 = 0 THEN Pick(Specials, k, j + 1) ELSE Pick(Lattice, k, j + 2)

AnyModes == <<"lat", "mod", "spec", "grid", "mix1", "dict", "fin", "wide", "mod", "lat">>
NumModes == <<"lat", "mod", "mod", "dict", "wide", "lat", "msp", "int">>   \* finite, moderate magnitude mostly
ModModes == <<"lat", "mod", "mod", "int", "lat", "msp">>

ModeOf(modes, k) == modes[1 + (k % Len(modes))]
VecM(mode, k, j) == [i \in 1..4 |-> Lane(mode, k, 16 * j + i)]
VecA(k, j) == VecM(ModeOf(AnyModes, k), k, j)
VecN(k, j) == VecM(ModeOf(NumModes, k), k, j)
\* lanes i>n of v are meaningless to an n-component operation: fill them with anything
Junk(v, n, k, j) == [i \in 1..4 |-> IF i <= n THEN v[i] ELSE Lane(IF k % 2 = 0 THEN "spec" ELSE "word", k, 16 * j + 8 + i)]
NudgeV(v, k, j) == [i \in 1..Len(v) |-> Nudge(v[i], k, 16 * j + i)]
\* ---------------------------------------------------------------- unit vectors
\* nearest-float normalisation of the first n lanes of an integer vector (zero maps to x axis)
NormV(v, n) ==
  LET q == [i \in 1..n |-> DBits(v[i])]
      RECURSIVE S(_)
      S(i) == IF i > n THEN DInt(0) ELSE DAdd(DMul(q[i], q[i]), S(i + 1))
      l == DSqrt(S(1))
  IN  IF DSign(l) = 0 THEN [i \in 1..4 |-> IF i = 1 THEN OneB ELSE 0]
      ELSE [i \in 1..4 |-> IF i <= n THEN DF32(DDiv(q[i], l)) ELSE 0]
UnitV(n, k, j) == NormV(VecM(IF Rnd(k, j + 60) % 3 = 0 THEN "int" ELSE "mod", k, j), n)
\* ---------------------------------------------------------------- almost-special inputs
\* the factor 1 +- 2^-e, 3 <= e <= 20: x moved by far more than rounding but little enough to be taken for x
JitF(e, s) == LET p == 2 ^ e IN F(IF s = 0 THEN p + 1 ELSE p - 1, p)
JitE(k, j) == 3 + (Rnd(k, j + 81) % 18)
Jit1(b, e, s) == IF IsFin(b) THEN DF32(DMul(DBits(b), DBits(JitF(e, s)))) ELSE b
\* some lanes of v jittered
JitV(v, k, j) == LET e == JitE(k, j) IN [i \in 1..Len(v) |-> CASE Rnd(k, j + 82 + i) % 3 = 0 -> v[i] [] OTHER -> Jit1(v[i], e, Rnd(k, j + 82 + i) % 2)]
\* a vector whose first n lanes have almost unit length
NearUnit(n, k, j) == LET e == JitE(k, j)
                         s == Rnd(k, j + 83) % 2
                         u == UnitV(n, k, j)
                     IN  [i \in 1..4 |-> IF i <= n THEN Jit1(u[i], e, s) ELSE Lane("mod", k, 16 * j + 300 + i)]
\* the identity with a few entries changed, slightly or freely
NearId(k, j) == LET q == 2 + (Rnd(k, j + 84) % 6)
                IN  [n \in 1..16 |->
                      LET d == (n - 1) % 5 = 0
                          c == Rnd(k, 16 * j + 400 + n)
                      IN  IF c % q # 0 THEN (IF d THEN OneB ELSE 0)
                          ELSE CASE (c \div 8) % 4 = 0 -> IF d THEN Jit1(OneB, JitE(k, j + n), c % 2) ELSE F(IF c % 2 = 0 THEN 1 ELSE -1, 2 ^ JitE(k, j + n))
                                 [] (c \div 8) % 4 = 1 -> FNegBits(IF d THEN OneB ELSE 0)
                                 [] (c \div 8) % 4 = 2 -> Lane("lat", k, 16 * j + n)
                                 [] OTHER -> Lane("mod", k, 16 * j + n)]
\* rows of unit length that are not orthogonal: looks like a rigid motion but is none
UnitRows(k, j) == LET A(i) == LET v == UnitV(3, k, j + i) IN <<v[1], v[2], v[3], 0>>
                      t == VecM("lat", k, j + 3)
                  IN  A(0) \o A(1) \o A(2) \o <<t[1], t[2], t[3], OneB>>
\* ---------------------------------------------------------------- variations of a finished scenario: its size, and its zeros
\* kd: what each word is (1 a length, 2 a length that is never negative, 0 a number, 3 a number that is zero or far from it, -1 not to be touched)
Times(a, kd, s) == [i \in 1..Len(a) |-> IF kd[i] \in {1, 2} THEN DF32(DMul(DBits(a[i]), DPow2(s))) ELSE a[i]]
\* zeros that are negative, or not quite zero
TinyZ(kd, k, i) == LET c == Rnd(k, 3310 + i) % 6
                   IN  IF kd = 0 THEN <<-2147483647 - 1, -2147483647 - 1, F(1, 1073741824), FNegBits(F(1, 1073741824)), 562036736, 562036736 + 1>>[1 + c]
                       ELSE <<-2147483647 - 1, -2147483647 - 1, 3, F(1, 1073741824), FNegBits(F(1, 1073741824)), -2147483647>>[1 + c]
ZeroesN(a, kd, k, neg) == [i \in 1..Len(a) |-> IF kd[i] >= 0 /\ a[i] = 0 /\ Rnd(k, 3300 + i) % 3 # 0 THEN (IF kd[i] = 3 THEN -2147483647 - 1 ELSE IF kd[i] = 2 THEN (IF neg THEN 0 ELSE MagBits(TinyZ(kd[i], k, i))) ELSE IF neg THEN -2147483647 - 1 ELSE TinyZ(kd[i], k, i)) ELSE a[i]]
Vary(a, kd, k, lo, hi) ==
  LET c == Rnd(k, 3299) % 10
      s == lo + (Rnd(k, 3298) % (hi - lo + 1))
  IN  CASE c = 0 -> Times(a, kd, s)
        [] c = 1 -> ZeroesN(a, kd, k, TRUE)
        [] c = 2 -> ZeroesN(a, kd, k, FALSE)
        [] c = 3 -> Times(ZeroesN(a, kd, k, FALSE), kd, s)
        [] OTHER -> a
KV(n, kd) == [i \in 1..4 |-> IF i <= n THEN kd ELSE -1]
KN(n, kd) == [i \in 1..n |-> kd]
=============================================================================
