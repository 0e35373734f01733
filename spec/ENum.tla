-------------------------------- MODULE ENum --------------------------------
(***************************************************************************)
(* Reals with a running error bound.  An "E" number is what the            *)
(* specification knows about a quantity that single-precision code is      *)
(* supposed to compute:                                                    *)
(*    <<"num", v, e>>  exact value v; any sensible float evaluation of the *)
(*                     defining formula lands within about e of v          *)
(*    <<"nan">>        the result must be a NaN                            *)
(*    <<"any">>        unconstrained (overflow, ill-conditioned, infinite) *)
(* Each operation adds the rounding error of one float operation and       *)
(* propagates the errors of its operands, so the tolerance of a composite  *)
(* formula comes from the formula and the input, not from a fixed epsilon. *)
(***************************************************************************)
EXTENDS Integers, Sequences, Dy

EAny == <<"any">>                                          \* [ovr as EAnyV(0)]
ENan == <<"nan">>
EAnyV(x) == EAny                                           \* [ovr]
ENanV(x) == ENan                                           \* [ovr]

URound == DPow2(-24)
Tiny   == DPow2(-149)
Huge   == DPow2(127)

ENorm(v, e) == LET d == DUp(e)                             \* magnitude check: overflow => any
               IN  IF DLt(Huge, DAdd(DAbs(v), d)) THEN EAny ELSE <<"num", DChop(v, 20), d>>

EIsNum(a) == a[1] = "num"                                  \* [ovr]
EIsNan(a) == a[1] = "nan"                                  \* [ovr]
EIsAny(a) == a[1] = "any"                                  \* [ovr]
EVal(a)   == a[2]                                          \* [ovr]
EErr(a)   == a[3]                                          \* [ovr]

EMk(v, e) == ENorm(v, e)                                   \* [ovr]
EOfDy(v)  == ENorm(v, DInt(0))                             \* [ovr]
EInt(n)   == <<"num", DInt(n), DInt(0)>>                   \* [ovr]
\* an input float: exact
EBits(b)  == IF IsNaN(b) THEN ENan                         \* [ovr]
             ELSE IF IsInf(b) THEN EAny
             ELSE <<"num", DBits(b), DInt(0)>>

\* a NaN operand makes the result NaN; otherwise an unknown operand makes it unknown
ESpec2(a, b) == IF EIsNan(a) \/ EIsNan(b) THEN ENan ELSE EAny
EBoth(a, b)  == EIsNum(a) /\ EIsNum(b)

ENeg(a) == IF ~EIsNum(a) THEN a ELSE <<"num", DNeg(a[2]), a[3]>>        \* [ovr]
EAbs(a) == IF ~EIsNum(a) THEN a ELSE <<"num", DAbs(a[2]), a[3]>>        \* [ovr]
EAdd(a, b) ==                                                           \* [ovr]
  IF ~EBoth(a, b) THEN ESpec2(a, b)
  ELSE LET v == DAdd(a[2], b[2])
           e == DAdd(a[3], b[3])
       IN  ENorm(v, DAdd(e, DMul(URound, DAdd(DAbs(v), e))))
ESub(a, b) == EAdd(a, ENeg(b))                                          \* [ovr]
EMul(a, b) ==                                                           \* [ovr]
  IF ~EBoth(a, b) THEN ESpec2(a, b)
  ELSE LET v == DMul(a[2], b[2])
           e == DAdd(DAdd(DMul(DAbs(a[2]), b[3]), DMul(DAbs(b[2]), a[3])), DMul(a[3], b[3]))
       IN  ENorm(v, DAdd(DAdd(e, DMul(URound, DAdd(DAbs(v), e))), Tiny))
\* unknown when the divisor is zero or not known to be non-zero
EDiv(a, b) ==                                                           \* [ovr]
  IF ~EBoth(a, b) THEN ESpec2(a, b)
  ELSE LET m == DSub(DAbs(b[2]), DMul(DInt(2), b[3]))
       IN  IF DSign(m) <= 0 THEN EAny
           ELSE LET v == DDiv(a[2], b[2])
                    e == DDiv(DUp(DAdd(a[3], DMul(DAbs(v), b[3]))), m)
                IN  ENorm(v, DAdd(DAdd(e, DMul(URound, DAdd(DAbs(v), e))), Tiny))
ESqrt(a) ==                                                             \* [ovr]
  IF ~EIsNum(a) THEN a
  ELSE IF DSign(a[2]) < 0 /\ DLt(a[3], DNeg(a[2])) THEN ENan
  ELSE IF DSign(a[2]) = 0 /\ DSign(a[3]) = 0 THEN a
  ELSE IF DLe(a[2], DMul(DInt(2), a[3])) THEN EAny
  ELSE LET v == DSqrt(a[2])
           e == DDiv(a[3], v)
       IN  ENorm(v, DAdd(DAdd(e, DMul(URound, v)), Tiny))

\* a sum in any association order: error charged on the sum of magnitudes
RECURSIVE ESumR(_, _, _, _, _)
ESumR(s, i, v, e, m) ==
  IF i > Len(s) THEN ENorm(v, DAdd(e, DMul(DMul(DInt(Len(s)), URound), DAdd(m, e))))
  ELSE ESumR(s, i + 1, DAdd(v, s[i][2]), DAdd(e, s[i][3]), DAdd(m, DAbs(s[i][2])))
ESum(s) ==                                                              \* [ovr]
  IF \E i \in 1..Len(s) : EIsNan(s[i]) THEN ENan
  ELSE IF \E i \in 1..Len(s) : EIsAny(s[i]) THEN EAny
  ELSE ESumR(s, 1, DInt(0), DInt(0), DInt(0))

\* widen the error by an absolute amount
EWiden(a, d) == IF ~EIsNum(a) THEN a ELSE ENorm(a[2], DAdd(a[3], DAbs(d)))   \* [ovr]

\* float r is an acceptable result for a, allowing k times the running error
EOk(r, a, k) ==                                                         \* [ovr]
  IF EIsAny(a) THEN TRUE
  ELSE IF EIsNan(a) THEN IsNaN(r)
  ELSE IsFin(r) /\ DLe(DAbs(DSub(DBits(r), a[2])), DAdd(DMul(DInt(k), a[3]), DMul(DInt(k), Tiny)))
=============================================================================
