------------------------------- MODULE MCNum -------------------------------
(***************************************************************************)
(* Differential check of the number layer.  bin/check.py runs TLC on this  *)
(* module twice, with and without the Java evaluation, and requires the    *)
(* same output: the accelerated operators mean what the TLA+ text says.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, ENum

\* a small deterministic generator of words (period 65536 per half)
Step1(s) == (s * 75 + 74) % 65537
RECURSIVE StepN(_, _)
StepN(s, n) == IF n = 0 THEN s ELSE StepN(Step1(s), n - 1)
Fl(s) == LET a == StepN(s, 3)
             b == StepN(s + 7, 5)
             sign == IF a % 3 = 0 THEN 32768 ELSE 0
             ex   == 127 + ((b % 41) - 20)
         IN  Word(sign + ex * 128 + (a % 128), b % 65536)
Sp == <<0, MinInt, 1, OneB, OneB + 1, FltMaxBits, 8388608, 8388607, PInf, QNaN, MinInt + 1>>

\* 96 leading bits of a dyadic number, as floats of successive residuals
Show(a) == LET s == DDiv(a, DPow2(IF DSign(a) = 0 THEN 0 ELSE DLog2Floor(a)))
               r1 == DF32(s)
               d1 == DSub(s, DBits(r1))
               r2 == DF32(d1)
               d2 == DSub(d1, DBits(r2))
               r3 == DF32(d2)
               d3 == DSub(d2, DBits(r3))
           IN  <<IF DSign(a) = 0 THEN 0 ELSE DLog2Floor(a), r1, r2, r3, DF32(d3), DSign(d3)>>
EShow(a) == IF EIsNan(a) THEN "nan" ELSE IF EIsAny(a) THEN "any" ELSE <<Show(EVal(a)), Show(EErr(a))>>

Line(k) ==
  LET x == IF k % 5 = 0 THEN Sp[1 + (k % 11)] ELSE Fl(k)
      y == IF k % 7 = 0 THEN Sp[1 + ((k \div 7) % 11)] ELSE Fl(k + 4001)
      z == Fl(k + 911)
  IN  <<k, x, y, WAnd(x, y), WOr(x, y), WXor(x, y),
        IF IsFin(x) /\ IsFin(y) THEN
          LET a == DBits(x)
              b == DBits(y)
              c == DBits(z)
          IN  << DF32(a), DF32(DAdd(a, b)), DF32(DSub(a, b)), DF32(DMul(a, b)), DCmp(a, b), DF32(DMax(a, b)), DF32(DMin(a, b)),
                 Show(DMul(DMul(a, c), DAdd(b, c))), Show(DChop(DMul(DMul(a, c), DAdd(b, c)), 3)), Show(DUp(DMul(DMul(a, c), c))),
                 IF IsZero(y) THEN 0 ELSE Show(DDiv(a, b)), IF IsZero(y) THEN 0 ELSE DF32(DDiv(a, b)), Show(DSqrt(DAbs(a))), DF32(DSqrt(DAbs(a))),
                 DF32(DFloor(a)), DF32(DRne(DAbs(a))), Show(DUInt(x)), Show(DInt(y)) >>
        ELSE "-",
        LET a == EBits(x)
            b == EBits(y)
            c == EBits(z)
            s == ESum(<<EMul(a, b), c, ENeg(b), EAbs(a)>>)
        IN  << EShow(EAdd(EMul(a, b), c)), EShow(EDiv(EAdd(a, b), ESub(c, a))), EShow(ESqrt(EAdd(EMul(a, a), EMul(b, c)))),
               EShow(s), EShow(EWiden(s, DPow2(-10))), EOk(x, s, 2), EOk(z, EAdd(c, EMul(c, EMk(DPow2(-24), DInt(0)))), 2) >> >>

ASSUME \A k \in 1..400 : PrintT(Line(k))
ASSUME \A k \in {MinInt, MaxInt, -1, 0, 1, 65536, -65536, 8388607} : PrintT(<<k, DToInt(DInt(k)), Show(DUInt(k))>>)
=============================================================================
