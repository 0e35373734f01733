------------------------------ MODULE GenConv ------------------------------
EXTENDS GenBase
C == INSTANCE Conv
With(ns, c) == [i \in 1..Len(ns) |-> <<ns[i], c>>]
Plan(p) ==
  LET m == 60 * GScale IN
  CASE p = "C08" -> With(<<"XMLoadInt2", "XMLoadFloat2", "XMLoadInt3", "XMLoadFloat3", "XMLoadInt4", "XMLoadFloat4", "XMLoadFloat3A", "XMLoadFloat4A",
                           "XMLoadFloat3x3", "XMLoadFloat4x3", "XMLoadFloat3x4", "XMLoadFloat4x4", "XMLoadFloat4x4A",
                           "XMStoreFloat", "XMStoreInt2", "XMStoreFloat2", "XMStoreInt3", "XMStoreFloat3", "XMStoreInt4", "XMStoreFloat4", "XMStoreFloat4A", "XMStoreFloat3A",
                           "XMStoreFloat3x3", "XMStoreFloat4x3", "XMStoreFloat3x4", "XMStoreFloat4x4", "XMStoreFloat4x4A">>, m)
    [] p = "C09" -> With(<<"XMConvertVectorIntToFloat", "XMConvertVectorFloatToInt", "XMConvertVectorUIntToFloat", "XMConvertVectorFloatToUInt">>, 16 * m)
    [] p = "C10" -> <<<<"XMConvertHalfToFloat", 1024>>, <<"XMConvertFloatToHalf", 2976 + 32 * GScale>>>>

Payload(n, k) == [i \in 1..n |-> IF k % 3 = 0 THEN Word(1000 * i + (Rnd(k, i) % 900), Rnd(k, i + 20)) ELSE Lane(<<"word", "spec", "grid", "dict">>[1 + (k % 4)], k, i)]
Aligned16 == {"XMLoadFloat3A", "XMLoadFloat4A", "XMLoadFloat4x4A", "XMStoreFloat4A", "XMStoreFloat3A", "XMStoreFloat4x4A"}
\* placement: 0 against the end of a page, 1 at its start, >= 2 inside (any word alignment)
Place(o, k) == CASE k % 3 = 0 -> 0
                 [] k % 3 = 1 -> 1
                 [] OTHER -> IF o \in Aligned16 THEN 4 * (1 + (k % 5)) ELSE 2 + (k % 13)
\* integers around powers of two and rounding boundaries
IntWord(k, j) ==
  LET c == Rnd(k, j) % 5
      e == Rnd(k, j + 1) % 31
      w == CASE c = 0 -> 2 ^ e + (Rnd(k, j + 2) % 3) - 1
             [] c = 1 -> MaxInt - (Rnd(k, j + 2) % 400)
             [] c = 2 -> (2 ^ e) + (Rnd(k, j + 2) % (IF e > 14 THEN 2 ^ 14 ELSE 2 ^ e))
             [] c = 3 -> Lane("word", k, j)
             [] OTHER -> Rnd(k, j) - 20000
  IN  IF Rnd(k, j + 4) % 3 = 0 THEN WXor(w, MinInt) ELSE IF Rnd(k, j + 4) % 3 = 1 THEN -w - 1 ELSE w
\* floats whose scaled value is around an integer limit
NearLimit(k, j, e) ==
  LET c == Rnd(k, j) % 7
      t == CASE c = 0 -> DPow2(31)
             [] c = 1 -> DPow2(32)
             [] c = 2 -> DInt((Rnd(k, j + 1) % 2000) - 1000)
             [] c = 3 -> DAdd(DInt(Rnd(k, j + 1)), DPow2(-1))
             [] c = 4 -> DPow2(23 + (Rnd(k, j + 1) % 10))
             [] OTHER -> DBits(RndF(k, j, -3, 33))
      b == Nudge(DF32(DMul(t, DPow2(-e))), k, j + 3)
  IN  IF Rnd(k, j + 5) % 3 = 0 THEN FNegBits(b) ELSE b
Expo(k) == IF k % 3 = 0 THEN 0 ELSE k % 32
\* halves: midpoints between neighbours and their float neighbours
HalfEdge(n) ==      \* n in 0 .. 190463 = 3 * 63488
  LET h0 == n \div 6
      v  == C!HVal(h0)
      w  == IF h0 = 31743 THEN DInt(65536) ELSE C!HVal(h0 + 1)
      mid == DF32(DMul(DAdd(v, w), DPow2(-1)))
      c  == n % 6
      m  == CASE c % 3 = 0 -> mid [] c % 3 = 1 -> mid + 1 [] OTHER -> mid - 1
  IN  IF c < 3 THEN m ELSE FNegBits(m)
Scen(o, k) ==
  CASE o = "XMConvertHalfToFloat" -> [i \in 1..64 |-> 64 * k + i - 1]
    [] o = "XMConvertFloatToHalf" -> IF k < 2976 THEN [i \in 1..64 |-> HalfEdge(64 * k + i - 1)]
                                     ELSE [i \in 1..64 |-> CASE i % 4 = 0 -> Lane("spec", k, i) [] i % 4 = 1 -> RndF(k, i, -28, 18) [] i % 4 = 2 -> Lane("grid", k, i) [] OTHER -> Lane("dict", k, i)]
    [] o = "XMConvertVectorIntToFloat" \/ o = "XMConvertVectorUIntToFloat" -> [i \in 1..4 |-> IntWord(k, 10 * i)] \o <<Expo(k)>>
    [] o = "XMConvertVectorFloatToInt" \/ o = "XMConvertVectorFloatToUInt" ->
         [i \in 1..4 |-> IF Rnd(k, 3 * i) % 8 = 0 THEN Lane(<<"spec", "dict", "grid">>[1 + (k % 3)], k, i) ELSE NearLimit(k, 10 * i, Expo(k))] \o <<Expo(k)>>
    [] OTHER -> <<Place(o, k)>> \o (IF o \in C!LoadVec \/ o \in C!LoadMat THEN Payload(C!Words(o), k \div 3)
                                    ELSE IF o \in C!StoreMat THEN Payload(16, k \div 3) ELSE Payload(4, k \div 3))
=============================================================================
