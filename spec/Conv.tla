-------------------------------- MODULE Conv --------------------------------
(***************************************************************************)
(* Loads and stores between vectors/matrices and their storage types, and  *)
(* conversions between integers, halves and floats.                        *)
(***************************************************************************)
EXTENDS FArith
Canary == Word(49374, 49374)                 \* 0xC0DEC0DE, the harness's fill of surrounding memory
Guard == <<Canary, Canary, Canary, Canary>>

\* number of words of the storage type
Words(o) ==
  CASE o \in {"XMStoreFloat"} -> 1
    [] o \in {"XMLoadInt2", "XMLoadFloat2", "XMStoreInt2", "XMStoreFloat2"} -> 2
    [] o \in {"XMLoadInt3", "XMLoadFloat3", "XMStoreInt3", "XMStoreFloat3"} -> 3
    [] o \in {"XMLoadInt4", "XMLoadFloat4", "XMLoadFloat3A", "XMLoadFloat4A", "XMStoreInt4", "XMStoreFloat4", "XMStoreFloat4A", "XMStoreFloat3A"} -> 4
    [] o \in {"XMLoadFloat3x3", "XMStoreFloat3x3"} -> 9
    [] o \in {"XMLoadFloat4x3", "XMLoadFloat3x4", "XMStoreFloat4x3", "XMStoreFloat3x4"} -> 12
    [] OTHER -> 16
LoadVec == {"XMLoadInt2", "XMLoadFloat2", "XMLoadInt3", "XMLoadFloat3", "XMLoadInt4", "XMLoadFloat4", "XMLoadFloat3A", "XMLoadFloat4A"}
LoadMat == {"XMLoadFloat3x3", "XMLoadFloat4x3", "XMLoadFloat3x4", "XMLoadFloat4x4", "XMLoadFloat4x4A"}
StoreVec == {"XMStoreFloat", "XMStoreInt2", "XMStoreFloat2", "XMStoreInt3", "XMStoreFloat3", "XMStoreInt4", "XMStoreFloat4", "XMStoreFloat4A"}
StoreMat == {"XMStoreFloat3x3", "XMStoreFloat4x3", "XMStoreFloat3x4", "XMStoreFloat4x4", "XMStoreFloat4x4A"}
Id(i, j) == IF i = j THEN OneB ELSE 0
\* element (i, j) of the loaded matrix from the stored words s; absent elements are those of the identity
MatElem(o, s, i, j) ==
  CASE o = "XMLoadFloat3x3" -> IF i <= 3 /\ j <= 3 THEN s[3 * (i - 1) + j] ELSE Id(i, j)
    [] o = "XMLoadFloat4x3" -> IF j <= 3 THEN s[3 * (i - 1) + j] ELSE Id(i, j)
    [] o = "XMLoadFloat3x4" -> IF j <= 3 THEN s[4 * (j - 1) + i] ELSE Id(i, j)         \* stored transposed
    [] OTHER                -> s[4 * (i - 1) + j]
\* word n of the storage type after storing matrix m (16 words)
StoreElem(o, m, n) ==
  CASE o = "XMStoreFloat3x3" -> m[4 * ((n - 1) \div 3) + ((n - 1) % 3) + 1]
    [] o = "XMStoreFloat4x3" -> m[4 * ((n - 1) \div 3) + ((n - 1) % 3) + 1]
    [] o = "XMStoreFloat3x4" -> m[4 * ((n - 1) % 4) + ((n - 1) \div 4) + 1]
    [] OTHER                 -> m[n]
IsMove(o) == o \in LoadVec \/ o \in LoadMat \/ o \in StoreVec \/ o \in StoreMat \/ o = "XMStoreFloat3A"

LoadStoreOk(o, a, r) ==
  LET n == Words(o)
      s == SubSeq(a, 2, Len(a))
      win(p) == SubSeq(r, p, Len(r)) = Guard \o SubSeq(s, 1, n) \o Guard        \* memory unchanged by a load
  IN  IF o \in LoadVec
      THEN LET k == IF o = "XMLoadFloat3A" THEN 3 ELSE n
           IN  SubSeq(r, 1, 4) = [i \in 1..4 |-> IF i <= k THEN s[i] ELSE 0] /\ win(5)
      ELSE IF o = "XMLoadFloat3x3"                       \* values kept; zero signs and NaN payloads may not be
      THEN (\A i \in 1..4, j \in 1..4 : Same(r[4 * (i - 1) + j], MatElem(o, s, i, j))) /\ win(17)
      ELSE IF o \in LoadMat
      THEN (\A i \in 1..4, j \in 1..4 : r[4 * (i - 1) + j] = MatElem(o, s, i, j)) /\ win(17)
      ELSE IF o \in StoreVec THEN r = Guard \o SubSeq(s, 1, n) \o Guard
      \* the fourth word of an aligned three-component type is padding
      ELSE IF o = "XMStoreFloat3A" THEN SubSeq(r, 1, 7) = Guard \o SubSeq(s, 1, 3) /\ SubSeq(r, 9, 12) = Guard
      ELSE r = Guard \o [i \in 1..n |-> StoreElem(o, s, i)] \o Guard

-----------------------------------------------------------------------------
\* integer <-> float
F31 == 1325400064
F32x == 1333788672
TwoStep(u, d) == DF32(DMul(DBits(DF32(DAdd(DBits(DF32(DInt(u + MaxInt + 1))), DPow2(31)))), DPow2(-d)))
IntOk(o, x, e, r) ==
  CASE o = "XMConvertVectorIntToFloat"  -> Same(r, DF32(DMul(DInt(x), DPow2(-e))))
    [] o = "XMConvertVectorUIntToFloat" -> \/ Same(r, DF32(DMul(DUInt(x), DPow2(-e))))
                                           \/ x < 0 /\ r = TwoStep(x, e)        \* high and low part rounded separately
    [] o = "XMConvertVectorFloatToInt"  ->
         LET y == FMul(x, DF32(DPow2(e)))
         IN  IF IsNaN(y) THEN TRUE
             ELSE IF FLt(F31, y) \/ FEq(F31, y) THEN r = MaxInt                 \* saturates
             ELSE IF FLe(y, FNegBits(F31)) THEN r = MinInt
             ELSE r = DToInt(DBits(FTrunc(y)))
    [] o = "XMConvertVectorFloatToUInt" ->
         LET y == FMul(x, DF32(DPow2(e)))
         IN  IF IsNaN(y) THEN TRUE
             ELSE IF FLe(y, 0) THEN r = 0
             ELSE IF FLe(F32x, y) THEN r = -1
             ELSE DEq(DUInt(r), DFloor(DBits(y)))
-----------------------------------------------------------------------------
\* binary16
HExp(h) == (h % 32768) \div 1024
HMan(h) == h % 1024
HNeg(h) == h >= 32768
HIsNaN(h) == HExp(h) = 31 /\ HMan(h) # 0
HVal(h) == LET v == IF HExp(h) = 0 THEN DMul(DInt(HMan(h)), DPow2(-24)) ELSE DMul(DInt(1024 + HMan(h)), DPow2(HExp(h) - 25))
           IN  IF HNeg(h) THEN DNeg(v) ELSE v
HalfToFloat(h) == IF HExp(h) = 31 THEN (IF HMan(h) # 0 THEN QNaN ELSE IF HNeg(h) THEN NInf ELSE PInf)
                  ELSE IF h % 32768 = 0 THEN (IF HNeg(h) THEN MinInt ELSE 0)
                  ELSE DF32(HVal(h))
\* nearest half (ties to even) of a finite float
ToHalf(b) ==
  LET a == DAbs(DBits(b))
      x == IF DSign(a) = 0 THEN -15 ELSE DLog2Floor(a)
      q == IF x < -14 THEN -24 ELSE x - 10
      n == DToInt(DRne(DMul(a, DPow2(-q))))
      m == IF x < -14 THEN n ELSE (x + 14) * 1024 + n
  IN  (IF m > 31744 \/ x > 15 THEN 31744 ELSE m) + (IF IsNeg(b) THEN 32768 ELSE 0)
HalfOk(b, h) == IF IsNaN(b) THEN HIsNaN(h)
                ELSE IF IsInf(b) THEN h = (IF IsNeg(b) THEN 64512 ELSE 31744)
                ELSE h = ToHalf(b)

Ok(o, a, r) ==
  IF IsMove(o) THEN LoadStoreOk(o, a, r)
  ELSE IF o = "XMConvertHalfToFloat" THEN Len(r) = Len(a) /\ \A i \in 1..Len(a) : LET e == HalfToFloat(a[i]) IN IF IsNaN(e) THEN IsNaN(r[i]) ELSE r[i] = e
  ELSE IF o = "XMConvertFloatToHalf" THEN Len(r) = Len(a) /\ \A i \in 1..Len(a) : HalfOk(a[i], r[i])
  ELSE \A i \in Lanes4 : IntOk(o, a[i], a[5], r[i])
=============================================================================
