------------------------------- MODULE Lanes -------------------------------
(***************************************************************************)
(* Lane movement, bit operations and constant vectors: operations whose    *)
(* result is a fixed arrangement of the input words, bit for bit.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, Lib

\* the 4 lanes of the catenation v1 \o v2 selected by 0-based indices
Cat(v1, v2)           == v1 \o v2
Perm(v1, v2, ix)      == [k \in Lanes4 |-> Cat(v1, v2)[ix[k] + 1]]
ShiftL(v1, v2, n)     == [k \in Lanes4 |-> Cat(v1, v2)[k + n]]
RotL(v, n)            == ShiftL(v, v, n)
RotR(v, n)            == ShiftL(v, v, (4 - n) % 4)
Sel(v1, v2, m)        == [k \in Lanes4 |-> WOr(WAnd(v1[k], WNot(m[k])), WAnd(v2[k], m[k]))]
SetLane(v, k, x)      == [v EXCEPT ![k] = x]
InsertV(vd, vs, n, s) == [k \in Lanes4 |-> IF s[k] % 2 = 1 THEN RotL(vs, n)[k] ELSE vd[k]]
Odd(w)                == WAnd(w, 1) = 1

\* expected result of the operations that are total functions of their words
Expect(o, a) ==
  CASE o = "XMVectorZero" \/ o = "XMVectorFalseInt" -> Splat(0)
    [] o = "XMVectorTrueInt"        -> Splat(AllOnes)
    [] o = "XMVectorSplatOne"       -> Splat(OneB)
    [] o = "XMVectorSplatInfinity"  -> Splat(PInf)
    [] o = "XMVectorSplatQNaN"      -> Splat(QNaN)
    [] o = "XMVectorSplatEpsilon"   -> Splat(872415232)
    [] o = "XMVectorSplatSignMask"  -> Splat(SignBit)
    [] o = "XMVectorSet" \/ o = "XMVectorSetInt" -> At4(a, 1)
    [] o \in {"XMVectorReplicate", "XMVectorReplicateInt", "XMVectorReplicatePtr", "XMVectorSplatConstantInt"} -> Splat(a[1])
    [] o = "XMVectorSplatConstant"  -> Splat(DF32(DMul(DInt(a[1]), DPow2(-a[2]))))
    [] o = "XMVectorSetBinaryConstant" -> [k \in Lanes4 |-> IF Odd(a[k]) THEN OneB ELSE 0]
    [] o = "XMVectorSelectControl"  -> [k \in Lanes4 |-> Mask(a[k] # 0)]
    [] o = "XMVectorSplatX"         -> Splat(a[1])
    [] o = "XMVectorSplatY"         -> Splat(a[2])
    [] o = "XMVectorSplatZ"         -> Splat(a[3])
    [] o = "XMVectorSplatW"         -> Splat(a[4])
    [] o \in {"XMVectorGetX", "XMVectorGetIntX", "XMVectorGetXPtr"} -> <<a[1]>>
    [] o \in {"XMVectorGetY", "XMVectorGetIntY", "XMVectorGetYPtr"} -> <<a[2]>>
    [] o \in {"XMVectorGetZ", "XMVectorGetIntZ", "XMVectorGetZPtr"} -> <<a[3]>>
    [] o \in {"XMVectorGetW", "XMVectorGetIntW", "XMVectorGetWPtr"} -> <<a[4]>>
    [] o = "XMVectorGetByIndex" \/ o = "XMVectorGetIntByIndex" -> <<a[a[5] + 1]>>
    [] o = "XMVectorSetByIndex" \/ o = "XMVectorSetIntByIndex" -> SetLane(V(a, 0), a[6] + 1, a[5])
    [] o = "XMVectorSetX" \/ o = "XMVectorSetIntX" -> SetLane(V(a, 0), 1, a[5])
    [] o = "XMVectorSetY" \/ o = "XMVectorSetIntY" -> SetLane(V(a, 0), 2, a[5])
    [] o = "XMVectorSetZ" \/ o = "XMVectorSetIntZ" -> SetLane(V(a, 0), 3, a[5])
    [] o = "XMVectorSetW" \/ o = "XMVectorSetIntW" -> SetLane(V(a, 0), 4, a[5])
    [] o = "XMVectorSwizzle" \/ o = "SwizzleForm" -> Perm(V(a, 0), V(a, 0), At4(a, 5))
    [] o = "XMVectorPermute" \/ o = "PermuteForm" -> Perm(V(a, 0), V(a, 1), At4(a, 9))
    [] o = "XMVectorShiftLeft"      -> ShiftL(V(a, 0), V(a, 1), a[9])
    [] o = "XMVectorRotateLeft"     -> RotL(V(a, 0), a[5])
    [] o = "XMVectorRotateRight"    -> RotR(V(a, 0), a[5])
    [] o = "XMVectorInsert"         -> InsertV(V(a, 0), V(a, 1), a[9], At4(a, 10))
    [] o = "XMVectorMergeXY"        -> <<a[1], a[5], a[2], a[6]>>
    [] o = "XMVectorMergeZW"        -> <<a[3], a[7], a[4], a[8]>>
    [] o = "XMVectorSelect"         -> Sel(V(a, 0), V(a, 1), V(a, 2))
    [] o = "XMVectorAndInt"         -> [k \in Lanes4 |-> WAnd(a[k], a[k + 4])]
    [] o = "XMVectorAndCInt"        -> [k \in Lanes4 |-> WAnd(a[k], WNot(a[k + 4]))]
    [] o = "XMVectorOrInt"          -> [k \in Lanes4 |-> WOr(a[k], a[k + 4])]
    [] o = "XMVectorNorInt"         -> [k \in Lanes4 |-> WNot(WOr(a[k], a[k + 4]))]
    [] o = "XMVectorXorInt"         -> [k \in Lanes4 |-> WXor(a[k], a[k + 4])]
    [] o = "XMVectorEqualInt"       -> [k \in Lanes4 |-> Mask(a[k] = a[k + 4])]
    [] o = "XMVectorNotEqualInt"    -> [k \in Lanes4 |-> Mask(a[k] # a[k + 4])]

Ok(o, a, r) == r = Expect(o, a)
=============================================================================
