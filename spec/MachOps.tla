------------------------------ MODULE MachOps ------------------------------
(* The instructions of Machine: function, operand signature, family (or size).  Written by tools/gen_mach.py. *)
Instr == <<
  <<"XMVectorAdd", "VV_V", "A">>,
  <<"XMVectorSubtract", "VV_V", "A">>,
  <<"XMVectorMultiply", "VV_V", "A">>,
  <<"XMVectorDivide", "VV_V", "A">>,
  <<"XMVectorMin", "VV_V", "A">>,
  <<"XMVectorMax", "VV_V", "A">>,
  <<"XMVectorMod", "VV_V", "A">>,
  <<"XMVectorNegate", "V_V", "A">>,
  <<"XMVectorAbs", "V_V", "A">>,
  <<"XMVectorSqrt", "V_V", "A">>,
  <<"XMVectorReciprocal", "V_V", "A">>,
  <<"XMVectorReciprocalSqrt", "V_V", "A">>,
  <<"XMVectorSaturate", "V_V", "A">>,
  <<"XMVectorRound", "V_V", "A">>,
  <<"XMVectorTruncate", "V_V", "A">>,
  <<"XMVectorFloor", "V_V", "A">>,
  <<"XMVectorCeiling", "V_V", "A">>,
  <<"XMVectorMultiplyAdd", "VVV_V", "A">>,
  <<"XMVectorNegativeMultiplySubtract", "VVV_V", "A">>,
  <<"XMVectorScale", "VF_V", "A">>,
  <<"XMVectorEqual", "VV_V", "C">>,
  <<"XMVectorNotEqual", "VV_V", "C">>,
  <<"XMVectorGreater", "VV_V", "C">>,
  <<"XMVectorGreaterOrEqual", "VV_V", "C">>,
  <<"XMVectorLess", "VV_V", "C">>,
  <<"XMVectorLessOrEqual", "VV_V", "C">>,
  <<"XMVectorInBounds", "VV_V", "C">>,
  <<"XMVector2Equal", "VV_B", "C">>,
  <<"XMVector2Greater", "VV_B", "C">>,
  <<"XMVector2LessOrEqual", "VV_B", "C">>,
  <<"XMVector3NotEqual", "VV_B", "C">>,
  <<"XMVector3Less", "VV_B", "C">>,
  <<"XMVector3GreaterOrEqual", "VV_B", "C">>,
  <<"XMVector3EqualInt", "VV_B", "C">>,
  <<"XMVector4Equal", "VV_B", "C">>,
  <<"XMVector4NotEqualInt", "VV_B", "C">>,
  <<"XMVector4Greater", "VV_B", "C">>,
  <<"XMVector4InBounds", "VV_B", "C">>,
  <<"XMQuaternionEqual", "VV_B", "C">>,
  <<"XMQuaternionNotEqual", "VV_B", "C">>,
  <<"XMPlaneEqual", "VV_B", "C">>,
  <<"XMPlaneNotEqual", "VV_B", "C">>,
  <<"XMVector2EqualR", "VV_U", "C">>,
  <<"XMVector3GreaterR", "VV_U", "C">>,
  <<"XMVector4GreaterOrEqualR", "VV_U", "C">>,
  <<"XMVector4EqualIntR", "VV_U", "C">>,
  <<"XMVectorEqualR", "VV_CRV", "C">>,
  <<"XMVectorGreaterR", "VV_CRV", "C">>,
  <<"XMVectorGreaterOrEqualR", "VV_CRV", "C">>,
  <<"XMVectorEqualIntR", "VV_CRV", "C">>,
  <<"XMVectorInBoundsR", "VV_CRV", "C">>,
  <<"XMVectorNearEqual", "VVV_V", "C">>,
  <<"XMVector2NearEqual", "VVV_B", "C">>,
  <<"XMVector3NearEqual", "VVV_B", "C">>,
  <<"XMVector4NearEqual", "VVV_B", "C">>,
  <<"XMVectorIsNaN", "V_V", "C">>,
  <<"XMVectorIsInfinite", "V_V", "C">>,
  <<"XMVector2IsNaN", "V_B", "C">>,
  <<"XMVector3IsInfinite", "V_B", "C">>,
  <<"XMVector4IsNaN", "V_B", "C">>,
  <<"XMQuaternionIsNaN", "V_B", "C">>,
  <<"XMQuaternionIsIdentity", "V_B", "C">>,
  <<"XMPlaneIsInfinite", "V_B", "C">>,
  <<"XMMatrixIsNaN", "M_B", "C">>,
  <<"XMMatrixIsInfinite", "M_B", "C">>,
  <<"XMMatrixIsIdentity", "M_B", "C">>,
  <<"XMConvertVectorIntToFloat", "VE_V", "K">>,
  <<"XMConvertVectorFloatToInt", "VE_V", "K">>,
  <<"XMConvertVectorUIntToFloat", "VE_V", "K">>,
  <<"XMConvertVectorFloatToUInt", "VE_V", "K">>,
  <<"XMVectorSin", "V_V", "F">>,
  <<"XMVectorCos", "V_V", "F">>,
  <<"XMVectorTan", "V_V", "F">>,
  <<"XMVectorASin", "V_V", "F">>,
  <<"XMVectorACos", "V_V", "F">>,
  <<"XMVectorATan", "V_V", "F">>,
  <<"XMVectorSinEst", "V_V", "F">>,
  <<"XMVectorCosEst", "V_V", "F">>,
  <<"XMVectorTanEst", "V_V", "F">>,
  <<"XMVectorASinEst", "V_V", "F">>,
  <<"XMVectorACosEst", "V_V", "F">>,
  <<"XMVectorATanEst", "V_V", "F">>,
  <<"XMVectorReciprocalEst", "V_V", "F">>,
  <<"XMVectorSqrtEst", "V_V", "F">>,
  <<"XMVectorReciprocalSqrtEst", "V_V", "F">>,
  <<"XMVectorExp2", "V_V", "F">>,
  <<"XMVectorSinH", "V_V", "F">>,
  <<"XMVectorCosH", "V_V", "F">>,
  <<"XMVectorTanH", "V_V", "F">>,
  <<"XMVectorModAngles", "V_V", "F">>,
  <<"XMVectorSinCos", "V_VV", "F">>,
  <<"XMVectorSinCosEst", "V_VV", "F">>,
  <<"XMVectorATan2", "VV_V", "F">>,
  <<"XMVectorATan2Est", "VV_V", "F">>,
  <<"XMVectorPow", "VV_V", "F">>,
  <<"XMVectorSplatX", "V_V", "L">>,
  <<"XMVectorSplatY", "V_V", "L">>,
  <<"XMVectorSplatZ", "V_V", "L">>,
  <<"XMVectorSplatW", "V_V", "L">>,
  <<"XMVectorSetX", "VF_V", "L">>,
  <<"XMVectorSetY", "VF_V", "L">>,
  <<"XMVectorSetZ", "VF_V", "L">>,
  <<"XMVectorSetW", "VF_V", "L">>,
  <<"XMVectorSetIntX", "VU_V", "L">>,
  <<"XMVectorSetIntY", "VU_V", "L">>,
  <<"XMVectorSetIntZ", "VU_V", "L">>,
  <<"XMVectorSetIntW", "VU_V", "L">>,
  <<"XMVectorRotateLeft", "VR_V", "L">>,
  <<"XMVectorRotateRight", "VR_V", "L">>,
  <<"XMVectorShiftLeft", "VVR_V", "L">>,
  <<"XMVectorSelect", "VVV_V", "L">>,
  <<"XMVectorMergeXY", "VV_V", "L">>,
  <<"XMVectorMergeZW", "VV_V", "L">>,
  <<"XMVectorAndInt", "VV_V", "L">>,
  <<"XMVectorAndCInt", "VV_V", "L">>,
  <<"XMVectorOrInt", "VV_V", "L">>,
  <<"XMVectorNorInt", "VV_V", "L">>,
  <<"XMVectorXorInt", "VV_V", "L">>,
  <<"XMVectorEqualInt", "VV_V", "L">>,
  <<"XMVectorNotEqualInt", "VV_V", "L">>,
  <<"XMMatrixMultiply", "MM_M", "T">>,
  <<"XMMatrixMultiplyTranspose", "MM_M", "T">>,
  <<"XMMatrixTranspose", "M_M", "T">>,
  <<"XMMatrixDeterminant", "M_V", "T">>,
  <<"XMMatrixInverse", "M_VM", "T">>,
  <<"XMMatrixVectorTensorProduct", "VV_M", "T">>,
  <<"XMMatrixTranslationFromVector", "V_M", "T">>,
  <<"XMMatrixScalingFromVector", "V_M", "T">>,
  <<"XMMatrixRotationRollPitchYawFromVector", "V_M", "T">>,
  <<"XMMatrixRotationQuaternion", "V_M", "T">>,
  <<"XMMatrixRotationX", "F_M", "T">>,
  <<"XMMatrixRotationY", "F_M", "T">>,
  <<"XMMatrixRotationZ", "F_M", "T">>,
  <<"XMMatrixTranslation", "FFF_M", "T">>,
  <<"XMMatrixScaling", "FFF_M", "T">>,
  <<"XMMatrixRotationRollPitchYaw", "FFF_M", "T">>,
  <<"XMQuaternionMultiply", "VV_V", "Q">>,
  <<"XMPlaneDot", "VV_V", "Q">>,
  <<"XMPlaneDotCoord", "VV_V", "Q">>,
  <<"XMPlaneDotNormal", "VV_V", "Q">>,
  <<"XMPlaneFromPointNormal", "VV_V", "Q">>,
  <<"XMQuaternionConjugate", "V_V", "Q">>,
  <<"XMQuaternionInverse", "V_V", "Q">>,
  <<"XMQuaternionRotationRollPitchYawFromVector", "V_V", "Q">>,
  <<"XMPlaneNormalize", "V_V", "Q">>,
  <<"XMPlaneTransform", "VM_V", "Q">>,
  <<"XMVector2Dot", "VV_V", "X">>,
  <<"XMVector3Dot", "VV_V", "X">>,
  <<"XMVector4Dot", "VV_V", "X">>,
  <<"XMVector2Cross", "VV_V", "X">>,
  <<"XMVector3Cross", "VV_V", "X">>,
  <<"XMVector2Reflect", "VV_V", "X">>,
  <<"XMVector3Reflect", "VV_V", "X">>,
  <<"XMVector4Reflect", "VV_V", "X">>,
  <<"XMVector3Rotate", "VV_V", "X">>,
  <<"XMVector3InverseRotate", "VV_V", "X">>,
  <<"XMQuaternionDot", "VV_V", "X">>,
  <<"XMVector2LengthSq", "V_V", "X">>,
  <<"XMVector3LengthSq", "V_V", "X">>,
  <<"XMVector4LengthSq", "V_V", "X">>,
  <<"XMVectorSum", "V_V", "X">>,
  <<"XMVector2Length", "V_V", "X">>,
  <<"XMVector3Length", "V_V", "X">>,
  <<"XMVector4Length", "V_V", "X">>,
  <<"XMVector2ReciprocalLength", "V_V", "X">>,
  <<"XMVector3ReciprocalLength", "V_V", "X">>,
  <<"XMVector4ReciprocalLength", "V_V", "X">>,
  <<"XMVector2Normalize", "V_V", "X">>,
  <<"XMVector3Normalize", "V_V", "X">>,
  <<"XMVector4Normalize", "V_V", "X">>,
  <<"XMVector2Orthogonal", "V_V", "X">>,
  <<"XMVector3Orthogonal", "V_V", "X">>,
  <<"XMVector4Orthogonal", "V_V", "X">>,
  <<"XMQuaternionLengthSq", "V_V", "X">>,
  <<"XMQuaternionLength", "V_V", "X">>,
  <<"XMQuaternionNormalize", "V_V", "X">>,
  <<"XMQuaternionReciprocalLength", "V_V", "X">>,
  <<"XMVector4Cross", "VVV_V", "X">>,
  <<"XMVectorLerpV", "VVV_V", "X">>,
  <<"XMVectorLerp", "VVF_V", "X">>,
  <<"XMVectorHermiteV", "VVVV5_V", "X">>,
  <<"XMVectorCatmullRomV", "VVVV5_V", "X">>,
  <<"XMVectorBaryCentricV", "VVVV5_V", "X">>,
  <<"XMVectorHermite", "VVVVF_V", "X">>,
  <<"XMVectorCatmullRom", "VVVVF_V", "X">>,
  <<"XMVector3ComponentsFromNormal", "VV_VV", "X">>,
  <<"XMVector2Transform", "VM_V", "X">>,
  <<"XMVector3Transform", "VM_V", "X">>,
  <<"XMVector4Transform", "VM_V", "X">>,
  <<"XMVector2TransformCoord", "VM_V", "X">>,
  <<"XMVector3TransformCoord", "VM_V", "X">>,
  <<"XMVector2TransformNormal", "VM_V", "X">>,
  <<"XMVector3TransformNormal", "VM_V", "X">>,
  <<"XMVectorAdd", "V=V", "A">>,
  <<"XMVectorSubtract", "V=V", "A">>,
  <<"XMVectorMultiply", "V=V", "A">>,
  <<"XMVectorDivide", "V=V", "A">>,
  <<"XMVectorScale", "V=F", "A">>,
  <<"XMMatrixMultiply", "M=M", "T">>,
  <<"M+M", "M=M", "+">>,
  <<"M-M", "M=M", "-">>,
  <<"GetRow", "GetRow", "">>,
  <<"SetRow", "SetRow", "">>,
  <<"VPoke", "VPoke", "">>,
  <<"MPoke", "MPoke", "">>,
  <<"XMStoreFloat2", "St", 2>>,
  <<"XMStoreFloat3", "St", 3>>,
  <<"XMStoreInt3", "St", 3>>,
  <<"XMStoreFloat4", "St", 4>>,
  <<"XMLoadFloat2", "Ld", 2>>,
  <<"XMLoadFloat3", "Ld", 3>>,
  <<"XMLoadInt3", "Ld", 3>>,
  <<"XMLoadFloat4", "Ld", 4>>,
  <<"XMStoreFloat3x3", "StM", <<3, 3>>>>,
  <<"XMStoreFloat4x3", "StM", <<4, 3>>>>,
  <<"XMStoreFloat4x4", "StM", <<4, 4>>>>,
  <<"XMStoreFloat3x4", "StM", <<3, 4>>>>,
  <<"XMLoadFloat3x3", "LdM", <<3, 3>>>>,
  <<"XMLoadFloat4x3", "LdM", <<4, 3>>>>,
  <<"XMLoadFloat4x4", "LdM", <<4, 4>>>>,
  <<"XMLoadFloat3x4", "LdM", <<3, 4>>>>
>>
NInstr == 221
=============================================================================
