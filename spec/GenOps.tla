------------------------------- MODULE GenOps -------------------------------
EXTENDS GenBase
With(ns, c) == [i \in 1..Len(ns) |-> <<ns[i], c>>]
Plan(p) ==
  LET m == 40 * GScale IN
  With(<<"V+V", "V-V", "V*V", "V/V", "V*S", "V/S", "M*M">>, 3 * m) \o With(<<"-V", "VSet", "VDebug", "XMMin", "XMMinI", "M+M", "M-M", "M*S", "M/S">>, 2 * m)
  \o With(<<"V==V", "M==M">>, 6 * m)
  \o With(<<"-M", "MSet", "MDebug", "XMINT2", "XMINT3", "XMINT4", "XMUINT2", "XMUINT3", "XMUINT4", "XMFLOAT2", "XMFLOAT3", "XMFLOAT4", "XMFLOAT3X3", "XMFLOAT4X3", "XMFLOAT3X4", "XMFLOAT4X4">>, m)
  \o <<<<"Layout", 1>>>>
Words(mode, n, k, j) == [i \in 1..n |-> Lane(mode, k, 16 * j + i)]
AnyN(n, k, j) == Words(ModeOf(AnyModes, k), n, k, j)
\* equal operands except, half of the time, one word (changed slightly, negated zero, or made NaN)
EqPair(n, k) ==
  LET x == TLCEval(AnyN(n, k, 0))
      d == 1 + (Rnd(k, 900) % n)
      c == Rnd(k, 901) % 8
      y == [i \in 1..n |-> IF i # d THEN x[i]
                            ELSE CASE c = 0 -> Nudge(x[i], k, 902) [] c = 1 -> QNaN [] c = 2 -> FNegBits(x[i]) [] c = 3 -> (IF MagBits(x[i]) < 2130000000 THEN x[i] + 1 ELSE 0) [] OTHER -> x[i]]
      fin == [i \in 1..n |-> IF IsNaN(x[i]) THEN OneB ELSE x[i]]
  IN  IF Rnd(k, 903) % 4 = 0 THEN x \o y
      ELSE fin \o [i \in 1..n |-> IF i # d \/ c > 4 THEN fin[i] ELSE y[i]]
Scen(o, k) ==
  CASE o \in {"V+V", "V-V", "V*V", "V/V"} -> VecA(k, 0) \o VecA(k \div 3, 1)
    [] o \in {"V*S", "V/S"} -> VecA(k, 0) \o <<Lane(ModeOf(AnyModes, k \div 3), k, 40)>>
    [] o \in {"-V", "VSet"} -> VecA(k, 0)
    [] o = "V==V" -> EqPair(4, k)
    [] o = "M==M" -> EqPair(16, k)
    [] o = "VDebug" -> [i \in 1..4 |-> LET b == Lane(ModeOf(AnyModes, k), k, i) IN IF IsNaN(b) THEN OneB ELSE b]
    [] o = "MDebug" -> [i \in 1..16 |-> LET b == Lane(ModeOf(AnyModes, k), k, i) IN IF IsNaN(b) THEN OneB ELSE b]
    [] o \in {"M+M", "M-M"} -> AnyN(16, k, 0) \o AnyN(16, k \div 2, 2)
    [] o = "M*M" -> Words(ModeOf(ModModes, k), 16, k, 0) \o Words(ModeOf(ModModes, k \div 2), 16, k, 2)
    [] o \in {"M*S", "M/S"} -> AnyN(16, k, 0) \o <<Lane(ModeOf(AnyModes, k \div 3), k, 40)>>
    [] o \in {"-M", "MSet", "XMFLOAT4X4"} -> Words(IF k % 2 = 0 THEN "word" ELSE "grid", 16, k, 0)
    [] o = "XMMin" -> LET x == Lane(ModeOf(AnyModes, k), k, 1) IN IF k % 3 = 0 THEN <<x, Nudge(x, k, 5)>> ELSE <<x, Lane(ModeOf(AnyModes, k \div 2), k, 2)>>
    [] o = "XMMinI" -> Words("word", 2, k, 0)
    [] o \in {"XMINT2", "XMUINT2", "XMFLOAT2"} -> Words("word", 2, k, 0)
    [] o \in {"XMINT3", "XMUINT3", "XMFLOAT3"} -> Words("word", 3, k, 0)
    [] o \in {"XMINT4", "XMUINT4", "XMFLOAT4"} -> Words("word", 4, k, 0)
    [] o = "XMFLOAT3X3" -> Words("word", 9, k, 0)
    [] o \in {"XMFLOAT4X3", "XMFLOAT3X4"} -> Words("word", 12, k, 0)
    [] o = "Layout" -> <<>>
=============================================================================
