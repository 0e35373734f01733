-------------------------------- MODULE Cmp --------------------------------
(***************************************************************************)
(* Comparisons.  Lane masks (XMVectorEqual ...), predicates over the first *)
(* n components (XMVector2Equal ...), comparison records (...R) and the    *)
(* functions that read a record.  Float comparisons follow IEEE 754: every *)
(* ordered comparison with a NaN is false, -0 equals +0.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Lib

\* float difference as single-precision arithmetic computes it, or a NaN
FSubBits(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN QNaN
  ELSE IF IsInf(x) THEN (IF IsInf(y) /\ IsNeg(x) = IsNeg(y) THEN QNaN ELSE x)
  ELSE IF IsInf(y) THEN FNegBits(y)
  ELSE DF32(DSub(DBits(x), DBits(y)))

Rel(kind, x, y) ==
  CASE kind = "Equal"          -> FEq(x, y)
    [] kind = "NotEqual"       -> ~FEq(x, y)
    [] kind = "EqualInt"       -> x = y
    [] kind = "NotEqualInt"    -> x # y
    [] kind = "Greater"        -> FLt(y, x)
    [] kind = "GreaterOrEqual" -> FLe(y, x)
    [] kind = "Less"           -> FLt(x, y)
    [] kind = "LessOrEqual"    -> FLe(x, y)
    [] kind = "InBounds"       -> FLe(x, y) /\ FLe(FNegBits(y), x)
Near(x, y, e) == FLe(FAbsBits(FSubBits(x, y)), e)

BinKinds == {"Equal", "NotEqual", "EqualInt", "NotEqualInt", "Greater", "GreaterOrEqual", "Less", "LessOrEqual", "InBounds"}
RecKinds == {"Equal", "EqualInt", "Greater", "GreaterOrEqual"}
MaskTab == [o \in {"XMVector" \o k : k \in BinKinds} |-> CHOOSE k \in BinKinds : "XMVector" \o k = o]
RTab    == [o \in {"XMVector" \o k \o "R" : k \in RecKinds} |-> CHOOSE k \in RecKinds : "XMVector" \o k \o "R" = o]
Tab(set, f(_, _)) == [o \in {f(p[1], p[2]) : p \in (2..4) \X set} |-> CHOOSE p \in (2..4) \X set : f(p[1], p[2]) = o]
NName(n, k)  == "XMVector" \o ToString(n) \o k
NRName(n, k) == "XMVector" \o ToString(n) \o k \o "R"
NTab  == Tab(BinKinds, NName)
NRTab == Tab(RecKinds, NRName)
NNear == Tab({"NearEqual"}, NName)
NUn   == Tab({"IsNaN", "IsInfinite"}, NName)
MaskNames == DOMAIN MaskTab
RNames    == DOMAIN RTab
NNames    == DOMAIN NTab
NRNames   == DOMAIN NRTab
NNearNames == DOMAIN NNear
NUnNames  == DOMAIN NUn

\* comparison records
CrTrue  == 128
CrFalse == 32
Record(allT, allF) == IF allT THEN CrTrue ELSE IF allF THEN CrFalse ELSE 0

AllN(kind, n, x, y) ==                       \* n-component predicate
  IF kind = "NotEqual" \/ kind = "NotEqualInt" THEN \E i \in 1..n : Rel(kind, x[i], y[i])
  ELSE \A i \in 1..n : Rel(kind, x[i], y[i])
RecN(kind, n, x, y) == Record(\A i \in 1..n : Rel(kind, x[i], y[i]), \A i \in 1..n : ~Rel(kind, x[i], y[i]))
Bit(w, m) == WAnd(w, m) = m

Expect(o, a) ==
  IF o \in MaskNames THEN LET k == MaskTab[o] IN [i \in Lanes4 |-> Mask(Rel(k, a[i], a[i + 4]))]
  ELSE IF o \in NNames THEN LET p == NTab[o] IN <<BoolW(AllN(p[2], p[1], V(a, 0), V(a, 1)))>>
  ELSE IF o \in NRNames THEN LET p == NRTab[o] IN <<RecN(p[2], p[1], V(a, 0), V(a, 1))>>
  ELSE IF o \in RNames THEN LET k == RTab[o] IN <<RecN(k, 4, V(a, 0), V(a, 1))>> \o [i \in Lanes4 |-> Mask(Rel(k, a[i], a[i + 4]))]
  ELSE IF o \in NNearNames THEN LET n == NNear[o][1] IN <<BoolW(\A i \in 1..n : Near(a[i], a[i + 4], a[i + 8]))>>
  ELSE IF o \in NUnNames THEN LET p == NUn[o] IN <<BoolW(\E i \in 1..p[1] : IF p[2] = "IsNaN" THEN IsNaN(a[i]) ELSE IsInf(a[i]))>>
  ELSE
  CASE o = "XMVectorNearEqual"  -> [i \in Lanes4 |-> Mask(Near(a[i], a[i + 4], a[i + 8]))]
    [] o = "XMVectorIsNaN"      -> [i \in Lanes4 |-> Mask(IsNaN(a[i]))]
    [] o = "XMVectorIsInfinite" -> [i \in Lanes4 |-> Mask(IsInf(a[i]))]
    [] o = "XMVectorInBoundsR"  -> <<IF \A i \in Lanes4 : Rel("InBounds", a[i], a[i + 4]) THEN CrFalse ELSE 0>> \o [i \in Lanes4 |-> Mask(Rel("InBounds", a[i], a[i + 4]))]
    [] o = "XMQuaternionEqual" \/ o = "XMPlaneEqual"       -> <<BoolW(AllN("Equal", 4, V(a, 0), V(a, 1)))>>
    [] o = "XMQuaternionNotEqual" \/ o = "XMPlaneNotEqual" -> <<BoolW(AllN("NotEqual", 4, V(a, 0), V(a, 1)))>>
    [] o = "XMQuaternionIsNaN" \/ o = "XMPlaneIsNaN"       -> <<BoolW(\E i \in 1..4 : IsNaN(a[i]))>>
    [] o = "XMQuaternionIsInfinite" \/ o = "XMPlaneIsInfinite" -> <<BoolW(\E i \in 1..4 : IsInf(a[i]))>>
    [] o = "XMQuaternionIsIdentity" -> <<BoolW(\A i \in 1..4 : FEq(a[i], IF i = 4 THEN OneB ELSE 0))>>
    [] o = "XMMatrixIsNaN"      -> <<BoolW(\E i \in 1..16 : IsNaN(a[i]))>>
    [] o = "XMMatrixIsInfinite" -> <<BoolW(\E i \in 1..16 : IsInf(a[i]))>>
    [] o = "XMMatrixIsIdentity" -> <<BoolW(\A i \in 1..16 : FEq(a[i], IF i \in {1, 6, 11, 16} THEN OneB ELSE 0))>>
    [] o = "XMScalarNearEqual"  -> <<BoolW(Near(a[1], a[2], a[3]))>>
    [] o = "XMComparisonAllTrue"      -> <<BoolW(Bit(a[1], CrTrue))>>
    [] o = "XMComparisonAnyTrue"      -> <<BoolW(~Bit(a[1], CrFalse))>>
    [] o = "XMComparisonAllFalse"     -> <<BoolW(Bit(a[1], CrFalse))>>
    [] o = "XMComparisonAnyFalse"     -> <<BoolW(~Bit(a[1], CrTrue))>>
    [] o = "XMComparisonMixed"        -> <<BoolW(~Bit(a[1], CrTrue) /\ ~Bit(a[1], CrFalse))>>
    [] o = "XMComparisonAllInBounds"  -> <<BoolW(Bit(a[1], CrFalse))>>
    [] o = "XMComparisonAnyOutOfBounds" -> <<BoolW(~Bit(a[1], CrFalse))>>

Ok(o, a, r) == r = Expect(o, a)
=============================================================================
