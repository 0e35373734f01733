------------------------------- MODULE GenCmp -------------------------------
(* Scenarios for Cmp.tla: every pattern of per-lane relations (less, equal, *)
(* greater, unordered), on values of every kind; unused lanes hold anything. *)
EXTENDS GenBase
Names(n, ks) == [i \in 1..Len(ks) |-> "XMVector" \o n \o ks[i]]
Kinds == <<"Equal", "NotEqual", "EqualInt", "NotEqualInt", "Greater", "GreaterOrEqual", "Less", "LessOrEqual", "InBounds">>
RKinds == <<"EqualR", "EqualIntR", "GreaterR", "GreaterOrEqualR">>
With(ns, c) == [i \in 1..Len(ns) |-> <<ns[i], c>>]
Plan(p) ==
  LET m == 320 * GScale IN
  CASE p = "C03" -> With(Names("", Kinds) \o Names("2", Kinds) \o Names("3", Kinds) \o Names("4", Kinds), m)
                    \o With(<<"XMVectorNearEqual", "XMVector2NearEqual", "XMVector3NearEqual", "XMVector4NearEqual">>, 2 * m)
                    \o With(<<"XMVectorIsNaN", "XMVectorIsInfinite", "XMVector2IsNaN", "XMVector2IsInfinite", "XMVector3IsNaN", "XMVector3IsInfinite", "XMVector4IsNaN", "XMVector4IsInfinite",
                              "XMQuaternionIsNaN", "XMQuaternionIsInfinite", "XMPlaneIsNaN", "XMPlaneIsInfinite", "XMQuaternionIsIdentity", "XMQuaternionEqual", "XMQuaternionNotEqual",
                              "XMPlaneEqual", "XMPlaneNotEqual", "XMMatrixIsNaN", "XMMatrixIsInfinite", "XMMatrixIsIdentity", "XMScalarNearEqual">>, m)
    [] p = "C04" -> With(Names("", RKinds) \o Names("2", RKinds) \o Names("3", RKinds) \o Names("4", RKinds) \o <<"XMVectorInBoundsR">>, 2 * m)
                    \o With(<<"XMComparisonAllTrue", "XMComparisonAnyTrue", "XMComparisonAllFalse", "XMComparisonAnyFalse", "XMComparisonMixed", "XMComparisonAllInBounds", "XMComparisonAnyOutOfBounds">>, 96)

\* a value y in relation rel (0 less, 1 equal, 2 greater, 3 unordered) to x, often adjacent to it
Succ(b) == IF b = MinInt THEN 1 ELSE IF b >= 0 THEN (IF b >= PInf THEN b ELSE b + 1) ELSE b - 1
Pred(b) == FNegBits(Succ(FNegBits(b)))
Related(rel, x, k, j) ==
  CASE rel = 0 -> IF Rnd(k, j) % 2 = 0 THEN Pred(x) ELSE NInf
    [] rel = 1 -> IF IsZero(x) /\ Rnd(k, j) % 2 = 0 THEN FNegBits(x) ELSE x
    [] rel = 2 -> IF Rnd(k, j) % 2 = 0 THEN Succ(x) ELSE PInf
    [] rel = 3 -> Pick(<<QNaN, PInf + 1, FNegBits(QNaN), 2147483647>>, k, j)
Base(k) == VecM(<<"lat", "mod", "fin", "grid", "dict", "msp", "spec">>[1 + ((k \div 3) % 7)], k, 0)
Digit(k, b, i) == (k \div (b ^ i)) % b
\* all 256 relation patterns, then patterns over {less, greater}/{equal} that isolate one lane
Pair(k) ==
  LET x == Base(k)
      d(i) == IF k % 320 < 256 THEN Digit(k % 320, 4, i - 1)
              ELSE LET q == (k % 320) - 256 IN IF i - 1 = q % 4 THEN (q \div 4) % 4 ELSE (q \div 16) % 4
  IN  x \o [i \in 1..4 |-> Related(d(i), x[i], k, 40 + i)]
\* bounds: lanes at, just inside, just outside, negative bounds, NaN
BPair(k) ==
  LET b == [i \in 1..4 |-> IF Rnd(k, i) % 7 = 0 THEN Lane("spec", k, i) ELSE MagBits(Base(k)[i])]
      v(i) == LET m == IF k % 320 < 256 THEN Digit(k % 320, 4, i - 1) ELSE Rnd(k, 70 + i) % 4
                  x == CASE m = 0 -> b[i]
                         [] m = 1 -> Pred(b[i])
                         [] m = 2 -> Succ(b[i])
                         [] m = 3 -> IF Rnd(k, 80 + i) % 2 = 0 THEN QNaN ELSE 0
              IN  IF Rnd(k, 90 + i) % 2 = 0 THEN x ELSE FNegBits(x)
  IN  [i \in 1..4 |-> v(i)] \o b
\* difference at, just below, just above epsilon
NearTriple(k) ==
  LET x == VecM(<<"lat", "mod", "fin", "dict", "spec", "unit">>[1 + (k % 6)], k, 0)
      e == [i \in 1..4 |-> IF Rnd(k, i) % 8 = 0 THEN Lane("spec", k, i) ELSE MagBits(Lane(<<"unit", "mod", "msp", "dict">>[1 + (Rnd(k, i) % 4)], k, 10 + i))]
      y(i) == IF ~IsFin(x[i]) \/ ~IsFin(e[i]) THEN Pick(Specials, k, 30 + i)
              ELSE LET s == IF Rnd(k, 40 + i) % 2 = 0 THEN DF32(DAdd(DBits(x[i]), DBits(e[i]))) ELSE DF32(DSub(DBits(x[i]), DBits(e[i])))
                       m == IF k % 320 < 256 THEN Digit(k % 320, 4, i - 1) ELSE Rnd(k, 50 + i) % 4
                   IN  CASE m = 0 -> s
                         [] m = 1 -> Succ(s)
                         [] m = 2 -> Pred(s)
                         [] m = 3 -> IF Rnd(k, 60 + i) % 3 = 0 THEN QNaN ELSE x[i]
  IN  x \o [i \in 1..4 |-> y(i)] \o e
\* specials in a chosen set of lanes, ordinary numbers elsewhere
Un(k) == LET x == Base(k)
         IN  [i \in 1..4 |-> LET m == IF k % 320 < 256 THEN Digit(k % 320, 4, i - 1) ELSE Rnd(k, 70 + i) % 4
                                 s == Rnd(k, 80 + i) % 2
                             IN  CASE m = 0 -> x[i]
                                   [] m = 1 -> IF s = 0 THEN PInf ELSE NInf
                                   [] m = 2 -> Pick(<<QNaN, PInf + 1, FNegBits(QNaN), 2147483647, -1, NInf + 1>>, k, 60 + i)
                                   [] m = 3 -> Pick(<<FltMaxBits, FNegBits(FltMaxBits), 0, MinInt, 1, 2139095039>>, k, 60 + i)]
IdW == <<OneB, 0, 0, 0, 0, OneB, 0, 0, 0, 0, OneB, 0, 0, 0, 0, OneB>>
Perturb(x, k, j) == CASE Rnd(k, j) % 4 = 0 -> Succ(x)
                      [] Rnd(k, j) % 4 = 1 -> Pred(x)
                      [] Rnd(k, j) % 4 = 2 -> QNaN
                      [] OTHER -> FNegBits(x)
Ident(n, k, id) == [i \in 1..n |-> IF k = 0 THEN id[i]
                                   ELSE IF i = 1 + (k % n) THEN Perturb(id[i], k, i)
                                   ELSE IF IsZero(id[i]) /\ Rnd(k, i) % 2 = 0 THEN MinInt ELSE id[i]]
MatSp(k) == LET at == k % 16
                s == Pick(<<QNaN, PInf + 1, PInf, NInf, FNegBits(QNaN), FltMaxBits, 2147483647, FNegBits(FltMaxBits)>>, k, 3)
            IN  [i \in 1..16 |-> IF i = at + 1 /\ k % 5 # 4 THEN s ELSE Lane("fin", k, i)]
\* the three records a comparison can produce, with arbitrary bits outside the record's field
RecWord(k) == <<0, 32, 128>>[1 + (k % 3)] + ((k \div 3) % 16) + 256 * (Rnd(k, 1) % 3000)
Scen(o, k) ==
  CASE o \in {"XMVectorInBounds", "XMVector2InBounds", "XMVector3InBounds", "XMVector4InBounds", "XMVectorInBoundsR"} -> BPair(k)
    [] o \in {"XMVectorNearEqual", "XMVector2NearEqual", "XMVector3NearEqual", "XMVector4NearEqual"} -> NearTriple(k)
    [] o = "XMScalarNearEqual" -> LET t == NearTriple(k) IN <<t[1], t[5], t[9]>>
    [] o \in {"XMVectorIsNaN", "XMVectorIsInfinite", "XMVector2IsNaN", "XMVector2IsInfinite", "XMVector3IsNaN", "XMVector3IsInfinite", "XMVector4IsNaN", "XMVector4IsInfinite",
              "XMQuaternionIsNaN", "XMQuaternionIsInfinite", "XMPlaneIsNaN", "XMPlaneIsInfinite"} -> Un(k)
    [] o = "XMQuaternionIsIdentity" -> Ident(4, k, <<0, 0, 0, OneB>>)
    [] o = "XMMatrixIsIdentity" -> Ident(16, k, IdW)
    [] o = "XMMatrixIsNaN" \/ o = "XMMatrixIsInfinite" -> MatSp(k)
    [] o \in {"XMComparisonAllTrue", "XMComparisonAnyTrue", "XMComparisonAllFalse", "XMComparisonAnyFalse", "XMComparisonMixed", "XMComparisonAllInBounds", "XMComparisonAnyOutOfBounds"} -> <<RecWord(k)>>
    [] OTHER -> Pair(k)
=============================================================================
