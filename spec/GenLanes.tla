------------------------------ MODULE GenLanes ------------------------------
(* Scenarios for Lanes.tla: every index combination, words of every kind. *)
EXTENDS GenBase, PermuteForms

Plan(p) ==
  CASE p = "C01" ->
     LET n == 16 * GScale IN
     << <<"XMVectorSet", n>>, <<"XMVectorSetInt", n>>, <<"XMVectorReplicate", n>>, <<"XMVectorReplicateInt", n>>, <<"XMVectorReplicatePtr", n>>,
        <<"XMVectorSplatX", n>>, <<"XMVectorSplatY", n>>, <<"XMVectorSplatZ", n>>, <<"XMVectorSplatW", n>>,
        <<"XMVectorGetX", n>>, <<"XMVectorGetY", n>>, <<"XMVectorGetZ", n>>, <<"XMVectorGetW", n>>,
        <<"XMVectorGetIntX", n>>, <<"XMVectorGetIntY", n>>, <<"XMVectorGetIntZ", n>>, <<"XMVectorGetIntW", n>>,
        <<"XMVectorGetXPtr", n>>, <<"XMVectorGetYPtr", n>>, <<"XMVectorGetZPtr", n>>, <<"XMVectorGetWPtr", n>>,
        <<"XMVectorGetByIndex", 4 * n>>, <<"XMVectorGetIntByIndex", 4 * n>>, <<"XMVectorSetByIndex", 4 * n>>, <<"XMVectorSetIntByIndex", 4 * n>>,
        <<"XMVectorSetX", n>>, <<"XMVectorSetY", n>>, <<"XMVectorSetZ", n>>, <<"XMVectorSetW", n>>,
        <<"XMVectorSetIntX", n>>, <<"XMVectorSetIntY", n>>, <<"XMVectorSetIntZ", n>>, <<"XMVectorSetIntW", n>>,
        <<"XMVectorSwizzle", 256 * GScale>>, <<"SwizzleForm", 256 * GScale>>,
        <<"XMVectorPermute", 4096 * GScale>>, <<"PermuteForm", Len(PermuteForms) * GScale>>,
        <<"XMVectorShiftLeft", 4 * n>>, <<"XMVectorRotateLeft", 4 * n>>, <<"XMVectorRotateRight", 4 * n>>, <<"XMVectorInsert", 128 * GScale>>,
        <<"XMVectorMergeXY", n>>, <<"XMVectorMergeZW", n>> >>
  [] p = "C02" ->
     LET n == 250 * GScale IN
     << <<"XMVectorZero", 1>>, <<"XMVectorFalseInt", 1>>, <<"XMVectorTrueInt", 1>>, <<"XMVectorSplatOne", 1>>, <<"XMVectorSplatInfinity", 1>>, <<"XMVectorSplatQNaN", 1>>,
        <<"XMVectorSplatEpsilon", 1>>, <<"XMVectorSplatSignMask", 1>>, <<"XMVectorSplatConstantInt", 32>>, <<"XMVectorSplatConstant", 1024>>,
        <<"XMVectorSetBinaryConstant", 256>>, <<"XMVectorSelectControl", 16>>, <<"XMVectorSelect", 2 * n>>,
        <<"XMVectorAndInt", n>>, <<"XMVectorAndCInt", n>>, <<"XMVectorOrInt", n>>, <<"XMVectorNorInt", n>>, <<"XMVectorXorInt", n>>, <<"XMVectorEqualInt", n>>, <<"XMVectorNotEqualInt", n>> >>

\* lanes that are all different, so that any misplaced lane shows
Vec(k, j) == VecM(<<"word", "spec", "word", "grid", "dict", "word">>[1 + (k % 6)], k, j)
Distinct(k, j) == IF k % 4 = 3 THEN Vec(k, j) ELSE [i \in 1..4 |-> Word(8192 * j + 1024 * i + (Rnd(k, i) % 1000), Rnd(k, i + 20))]
Digit(k, b, i) == (k \div (b ^ i)) % b
\* bits: equal or nearly equal lanes are interesting for the integer compares
Bitty(k, v, j) == [i \in 1..4 |-> IF Rnd(k, i + 8 * j) % 3 = 0 THEN v[i] ELSE IF Rnd(k, i + 8 * j) % 3 = 1 THEN WXor(v[i], 2 ^ (Rnd(k, i + 90) % 31)) ELSE Vec(k, j)[i]]
Masks(k) == CASE k % 3 = 0 -> [i \in 1..4 |-> Mask(Digit(k \div 3, 2, i - 1) = 1)]
              [] k % 3 = 1 -> VecM("word", k, 5)
              [] OTHER     -> Vec(k, 6)

Scen(o, k) ==
  CASE o \in {"XMVectorZero", "XMVectorFalseInt", "XMVectorTrueInt", "XMVectorSplatOne", "XMVectorSplatInfinity", "XMVectorSplatQNaN", "XMVectorSplatEpsilon", "XMVectorSplatSignMask"} -> <<>>
    [] o = "XMVectorSplatConstantInt" -> <<k - 16>>
    [] o = "XMVectorSplatConstant" -> <<(k % 32) - 16, k \div 32>>
    [] o = "XMVectorSelectControl" -> [i \in 1..4 |-> Digit(k, 2, i - 1)]
    [] o = "XMVectorSetBinaryConstant" -> [i \in 1..4 |-> Digit(k, 2, i - 1) + (IF k >= 16 THEN 2 * (Rnd(k, i) % 9) ELSE 0)]
    [] o \in {"XMVectorSet", "XMVectorSetInt", "XMVectorSplatX", "XMVectorSplatY", "XMVectorSplatZ", "XMVectorSplatW",
              "XMVectorGetX", "XMVectorGetY", "XMVectorGetZ", "XMVectorGetW", "XMVectorGetIntX", "XMVectorGetIntY", "XMVectorGetIntZ", "XMVectorGetIntW",
              "XMVectorGetXPtr", "XMVectorGetYPtr", "XMVectorGetZPtr", "XMVectorGetWPtr"} -> Distinct(k, 0)
    [] o \in {"XMVectorReplicate", "XMVectorReplicateInt", "XMVectorReplicatePtr"} -> <<Vec(k, 0)[1]>>
    [] o = "XMVectorGetByIndex" \/ o = "XMVectorGetIntByIndex" -> Distinct(k, 0) \o <<k % 4>>
    [] o = "XMVectorSetByIndex" \/ o = "XMVectorSetIntByIndex" -> Distinct(k \div 4, 0) \o <<Vec(k, 1)[2], k % 4>>
    [] o \in {"XMVectorSetX", "XMVectorSetY", "XMVectorSetZ", "XMVectorSetW", "XMVectorSetIntX", "XMVectorSetIntY", "XMVectorSetIntZ", "XMVectorSetIntW"} -> Distinct(k, 0) \o <<Vec(k, 1)[3]>>
    [] o = "XMVectorSwizzle" \/ o = "SwizzleForm" -> Distinct(k \div 256, 0) \o [i \in 1..4 |-> Digit(k % 256, 4, i - 1)]
    [] o = "XMVectorPermute" -> Distinct(k \div 4096, 0) \o Distinct(k \div 4096, 1) \o [i \in 1..4 |-> Digit(k % 4096, 8, i - 1)]
    [] o = "PermuteForm" -> LET f == PermuteForms[1 + (k % Len(PermuteForms))]
                            IN  Distinct(k \div Len(PermuteForms), 0) \o Distinct(k \div Len(PermuteForms), 1) \o [i \in 1..4 |-> Digit(f, 8, i - 1)]
    [] o = "XMVectorShiftLeft" -> Distinct(k \div 4, 0) \o Distinct(k \div 4, 1) \o <<k % 4>>
    [] o = "XMVectorRotateLeft" \/ o = "XMVectorRotateRight" -> Distinct(k \div 4, 0) \o <<k % 4>>
    [] o = "XMVectorInsert" -> Distinct(k \div 64, 0) \o Distinct(k \div 64, 1) \o <<k % 4>> \o [i \in 1..4 |-> Digit((k \div 4) % 16, 2, i - 1) + (IF k % 128 >= 64 THEN 2 * (Rnd(k, i) % 3) ELSE 0)]
    [] o = "XMVectorMergeXY" \/ o = "XMVectorMergeZW" -> Distinct(k, 0) \o Distinct(k, 1)
    [] o = "XMVectorSelect" -> Vec(k, 0) \o Vec(k + 1, 1) \o Masks(k)
    [] OTHER -> LET v == Vec(k, 0) IN v \o Bitty(k, v, 2)
=============================================================================
