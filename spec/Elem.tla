-------------------------------- MODULE Elem --------------------------------
(***************************************************************************)
(* Elementary functions over exact dyadic numbers, to better than 1e-18:   *)
(* the mathematical meaning that the single-precision functions are        *)
(* compared with.  Nothing here comes from the implementation.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, Dy

Ch(x) == DChop(x, 9)
DHalf(x) == DMul(x, DPow2(-1))
DSq(x) == Ch(DMul(x, x))
D1 == DInt(1)
\* nearest integer (as a dyadic), halves up
DNearest(x) == DFloor(DAdd(x, DPow2(-1)))

\* sum_{k>=0} s^k y^(2k+1)/(2k+1), y2 = s*y^2 with its sign, t = current y^(2k+1)
RECURSIVE OddSeries(_, _, _, _)
OddSeries(t, y2, n, lim) ==
  IF n > lim \/ DSign(t) = 0 THEN DInt(0)
  ELSE DAdd(Ch(DDiv(t, DInt(n))), OddSeries(Ch(DMul(t, y2)), y2, n + 2, lim))

AtanInv(n) == LET y == DDiv(D1, DInt(n)) IN OddSeries(y, DNeg(DSq(y)), 1, 65)
Pi == DSub(DMul(DInt(16), AtanInv(5)), DMul(DInt(4), AtanInv(239)))
HalfPi == DHalf(Pi)
TwoPi == DMul(DInt(2), Pi)
Ln2 == LET y == DDiv(D1, DInt(3)) IN DMul(DInt(2), OddSeries(y, DSq(y), 1, 81))

\* sum t/(n..)(n+1).. : Taylor terms with step 2 (sine, cosine) or 1 (exponential)
RECURSIVE Taylor2(_, _, _)
Taylor2(t, x2, n) ==                      \* t = current term, next divides by (n+1)(n+2)
  IF n > 21 \/ DSign(t) = 0 THEN DInt(0)
  ELSE DAdd(t, Taylor2(Ch(DDiv(DMul(t, x2), DInt((n + 1) * (n + 2)))), x2, n + 2))
SinR(r) == Taylor2(r, DNeg(DSq(r)), 1)
CosR(r) == Taylor2(D1, DNeg(DSq(r)), 0)
\* <<sin, cos>> of any x
SinCos(x) ==
  LET n == DNearest(DDiv(x, HalfPi))
      r == Ch(DSub(x, DMul(n, HalfPi)))
      q == DToInt(DSub(n, DMul(DInt(4), DFloor(DMul(n, DPow2(-2))))))
      s == SinR(r)
      c == CosR(r)
  IN  CASE q = 0 -> <<s, c>> [] q = 1 -> <<c, DNeg(s)>> [] q = 2 -> <<DNeg(s), DNeg(c)>> [] q = 3 -> <<DNeg(c), s>>
Sin(x) == SinCos(x)[1]
Cos(x) == SinCos(x)[2]
\* x modulo one turn, in [-pi, pi)
Wrap(x) == DSub(x, DMul(TwoPi, DNearest(DDiv(x, TwoPi))))
\* distance of two angles modulo t
DistMod(x, y, t) == LET d == DSub(x, y) IN DAbs(DSub(d, DMul(t, DNearest(DDiv(d, t)))))

HalfAngle(y) == DDiv(y, DAdd(D1, DSqrt(DAdd(D1, DSq(y)))))
Atan01(x) == LET y == Ch(HalfAngle(Ch(HalfAngle(x)))) IN DMul(DInt(4), OddSeries(y, DNeg(DSq(y)), 1, 33))
AtanP(x) == IF DLe(x, D1) THEN Atan01(x) ELSE DSub(HalfPi, Atan01(DDiv(D1, x)))
Atan(x) == IF DSign(x) < 0 THEN DNeg(AtanP(DNeg(x))) ELSE AtanP(x)
\* angle of the point (x, y) # (0, 0), in (-pi, pi]
Atan2(y, x) ==
  IF DSign(x) > 0 THEN Atan(DDiv(y, x))
  ELSE IF DSign(x) = 0 THEN (IF DSign(y) < 0 THEN DNeg(HalfPi) ELSE HalfPi)
  ELSE IF DSign(y) < 0 THEN DSub(Atan(DDiv(y, x)), Pi) ELSE DAdd(Atan(DDiv(y, x)), Pi)
\* |x| <= 1
Asin(x) == Atan2(x, DSqrt(DSub(D1, DMul(x, x))))
Acos(x) == Atan2(DSqrt(DSub(D1, DMul(x, x))), x)

RECURSIVE Taylor1(_, _, _)
Taylor1(t, x, n) == IF n > 20 \/ DSign(t) = 0 THEN DInt(0)
                    ELSE DAdd(t, Taylor1(Ch(DDiv(DMul(t, x), DInt(n))), x, n + 1))
ExpR(x) == Taylor1(D1, x, 1)
\* 2^x for |x| < 2^20
Exp2(x) == LET n == DNearest(x) IN DMul(ExpR(Ch(DMul(DSub(x, n), Ln2))), DPow2(DToInt(n)))
Exp(x)  == LET n == DNearest(DDiv(x, Ln2)) IN DMul(ExpR(Ch(DSub(x, DMul(n, Ln2)))), DPow2(DToInt(n)))
\* natural and binary logarithm of x > 0
Log2(x) == LET e == DLog2Floor(x)
               m == DMul(x, DPow2(-e))                   \* in [1, 2)
               z == DDiv(DSub(m, D1), DAdd(m, D1))
           IN  DAdd(DInt(e), DDiv(DMul(DInt(2), OddSeries(Ch(z), DSq(z), 1, 61)), Ln2))
=============================================================================
