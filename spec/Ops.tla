-------------------------------- MODULE Ops --------------------------------
(***************************************************************************)
(* The wrapper types' operators, the storage structs' conversions and      *)
(* XMMin/XMMax.  The harness records every form of one operation (operator,*)
(* assignment operator, named function) in one event; every form has to    *)
(* give the specified value, and a form with a named counterpart has to    *)
(* give that function's words.                                             *)
(***************************************************************************)
EXTENDS FArith
LOCAL MatS == INSTANCE Mat
\* block n of the result (m words) holds, word for word, the values E
Blk(r, n, m, E(_)) == \A i \in 1..m : Same(r[m * n + i], E(i))
Forms(r, k, m, E(_)) == Len(r) = k * m /\ \A n \in 0..(k - 1) : Blk(r, n, m, E)
SameW(r, s) == \/ r = s \/ (IsNaN(r) /\ IsNaN(s))
Words(r, k, a) == Len(r) = k * Len(a) /\ \A n \in 0..(k - 1) : \A i \in 1..Len(a) : r[n * Len(a) + i] = a[i]
FEqV(a, n, m) == \A i \in 1..m : FEq(a[i], a[n + i])
\* XMMin: a < b ? a : b
MinF(x, y) == IF FLt(x, y) THEN x ELSE y
MaxF(x, y) == IF FLt(y, x) THEN x ELSE y
MinI(x, y) == IF x < y THEN x ELSE y
MaxI(x, y) == IF x < y THEN y ELSE x
ULess(x, y) == IF (x < 0) = (y < 0) THEN x < y ELSE y < 0
Structs == {"XMINT2", "XMINT3", "XMINT4", "XMUINT2", "XMUINT3", "XMUINT4", "XMFLOAT2", "XMFLOAT3", "XMFLOAT4"}
MStructs == {"XMFLOAT3X3", "XMFLOAT4X3", "XMFLOAT3X4", "XMFLOAT4X4"}
Ok(o, a, r) ==
  CASE o = "V+V" -> Forms(r, 3, 4, LAMBDA i : FAdd(a[i], a[4 + i]))
    [] o = "V-V" -> Forms(r, 3, 4, LAMBDA i : FSub(a[i], a[4 + i]))
    [] o = "V*V" -> Forms(r, 3, 4, LAMBDA i : FMul(a[i], a[4 + i]))
    [] o = "V/V" -> Forms(r, 3, 4, LAMBDA i : FDiv(a[i], a[4 + i]))
    [] o = "V*S" -> Forms(r, 4, 4, LAMBDA i : FMul(a[i], a[5]))
    [] o = "V/S" -> Forms(r, 3, 4, LAMBDA i : FDiv(a[i], a[5]))
    [] o = "-V"  -> Forms(r, 2, 4, LAMBDA i : IF IsNaN(a[i]) THEN QNaN ELSE FNegBits(a[i]))
    [] o = "V==V" -> LET e == FEqV(a, 4, 4) IN r = (IF e THEN <<1, 0>> ELSE <<0, 1>>)
    [] o = "VSet" -> Words(r, 3, a)
    [] o = "VDebug" -> Forms(r, 1, 4, LAMBDA i : a[i])
    [] o = "MDebug" -> Forms(r, 2, 16, LAMBDA i : a[i])
    [] o = "M+M" -> Forms(r, 2, 16, LAMBDA i : FAdd(a[i], a[16 + i]))
    [] o = "M-M" -> Forms(r, 2, 16, LAMBDA i : FSub(a[i], a[16 + i]))
    [] o = "M*S" -> Forms(r, 3, 16, LAMBDA i : FMul(a[i], a[17]))
    [] o = "M/S" -> Forms(r, 2, 16, LAMBDA i : FDiv(a[i], a[17]))
    [] o = "-M"  -> Forms(r, 1, 16, LAMBDA i : IF IsNaN(a[i]) THEN QNaN ELSE FNegBits(a[i]))
    \* the operator is the named product, and that is the product
    [] o = "M*M" -> /\ Len(r) = 48
                    /\ \A i \in 1..16 : SameW(r[i], r[32 + i]) /\ SameW(r[16 + i], r[32 + i])
                    /\ MatS!Ok("XMMatrixMultiply", a, SubSeq(r, 1, 16))
    [] o = "M==M" -> LET e == FEqV(a, 16, 16) IN r = (IF e THEN <<1, 0>> ELSE <<0, 1>>)
    [] o = "MSet" -> Words(r, 6, a)
    [] o = "XMMin" -> r = <<MinF(a[1], a[2]), MaxF(a[1], a[2])>>
    [] o = "XMMinI" -> r = <<MinI(a[1], a[2]), MaxI(a[1], a[2]), IF ULess(a[1], a[2]) THEN a[1] ELSE a[2], IF ULess(a[1], a[2]) THEN a[2] ELSE a[1]>>
    [] o \in Structs -> Words(r, 9, a)
    [] o \in MStructs -> Words(r, 12, a)
    [] o = "Layout" -> r = <<8, 12, 16, 12, 16, 36, 48, 48, 64, 16, 64, 16, 64, 16, 16, 16>>
=============================================================================
