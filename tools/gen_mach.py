#!/usr/bin/env python3
"""Writes the instruction table of the call-sequence machine: spec/MachOps.tla and the matching dispatch of
harness/src/bin/mach.rs (between the GENERATED markers).  Development helper; its output is committed."""
import re, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def V(s): return ["XMVector" + x for x in s.split()]
def N(p, s): return ["XM" + p + x for x in s.split()]
G = [  # family, signature, names
 ("A", "VV_V", V("Add Subtract Multiply Divide Min Max Mod")),
 ("A", "V_V", V("Negate Abs Sqrt Reciprocal ReciprocalSqrt Saturate Round Truncate Floor Ceiling")),
 ("A", "VVV_V", V("MultiplyAdd NegativeMultiplySubtract")),
 ("A", "VF_V", V("Scale")),
 ("C", "VV_V", V("Equal NotEqual Greater GreaterOrEqual Less LessOrEqual InBounds")),
 ("C", "VV_B", V("2Equal 2Greater 2LessOrEqual 3NotEqual 3Less 3GreaterOrEqual 3EqualInt 4Equal 4NotEqualInt 4Greater 4InBounds") + N("Quaternion", "Equal NotEqual") + N("Plane", "Equal NotEqual")),
 ("C", "VV_U", V("2EqualR 3GreaterR 4GreaterOrEqualR 4EqualIntR")),
 ("C", "VV_CRV", V("EqualR GreaterR GreaterOrEqualR EqualIntR InBoundsR")),
 ("C", "VVV_V", V("NearEqual")),
 ("C", "VVV_B", V("2NearEqual 3NearEqual 4NearEqual")),
 ("C", "V_V", V("IsNaN IsInfinite")),
 ("C", "V_B", V("2IsNaN 3IsInfinite 4IsNaN") + N("Quaternion", "IsNaN IsIdentity") + N("Plane", "IsInfinite")),
 ("C", "M_B", N("Matrix", "IsNaN IsInfinite IsIdentity")),
 ("K", "VE_V", N("ConvertVector", "IntToFloat FloatToInt UIntToFloat FloatToUInt")),
 ("F", "V_V", V("Sin Cos Tan ASin ACos ATan SinEst CosEst TanEst ASinEst ACosEst ATanEst ReciprocalEst SqrtEst ReciprocalSqrtEst Exp2 SinH CosH TanH ModAngles")),
 ("F", "V_VV", V("SinCos SinCosEst")),
 ("F", "VV_V", V("ATan2 ATan2Est Pow")),
 ("L", "V_V", V("SplatX SplatY SplatZ SplatW")),
 ("L", "VF_V", V("SetX SetY SetZ SetW")),
 ("L", "VU_V", V("SetIntX SetIntY SetIntZ SetIntW")),
 ("L", "VR_V", V("RotateLeft RotateRight")),
 ("L", "VVR_V", V("ShiftLeft")),
 ("L", "VVV_V", V("Select")),
 ("L", "VV_V", V("MergeXY MergeZW AndInt AndCInt OrInt NorInt XorInt EqualInt NotEqualInt")),
 ("T", "MM_M", N("Matrix", "Multiply MultiplyTranspose")),
 ("T", "M_M", N("Matrix", "Transpose")),
 ("T", "M_V", N("Matrix", "Determinant")),
 ("T", "M_VM", N("Matrix", "Inverse")),
 ("T", "VV_M", N("Matrix", "VectorTensorProduct")),
 ("T", "V_M", N("Matrix", "TranslationFromVector ScalingFromVector RotationRollPitchYawFromVector RotationQuaternion")),
 ("T", "F_M", N("Matrix", "RotationX RotationY RotationZ")),
 ("T", "FFF_M", N("Matrix", "Translation Scaling RotationRollPitchYaw")),
 ("Q", "VV_V", N("Quaternion", "Multiply") + N("Plane", "Dot DotCoord DotNormal FromPointNormal")),
 ("Q", "V_V", N("Quaternion", "Conjugate Inverse RotationRollPitchYawFromVector") + N("Plane", "Normalize")),
 ("Q", "VM_V", N("Plane", "Transform")),
 ("X", "VV_V", V("2Dot 3Dot 4Dot 2Cross 3Cross 2Reflect 3Reflect 4Reflect 3Rotate 3InverseRotate") + N("Quaternion", "Dot")),
 ("X", "V_V", V("2LengthSq 3LengthSq 4LengthSq Sum 2Length 3Length 4Length 2ReciprocalLength 3ReciprocalLength 4ReciprocalLength 2Normalize 3Normalize 4Normalize 2Orthogonal 3Orthogonal 4Orthogonal") + N("Quaternion", "LengthSq Length Normalize ReciprocalLength")),
 ("X", "VVV_V", V("4Cross LerpV")),
 ("X", "VVF_V", V("Lerp")),
 ("X", "VVVV5_V", V("HermiteV CatmullRomV BaryCentricV")),
 ("X", "VVVVF_V", V("Hermite CatmullRom")),
 ("X", "VV_VV", V("3ComponentsFromNormal")),
 ("X", "VM_V", V("2Transform 3Transform 4Transform 2TransformCoord 3TransformCoord 2TransformNormal 3TransformNormal")),
 ("A", "V=V", [("XMVectorAdd", "+="), ("XMVectorSubtract", "-="), ("XMVectorMultiply", "*="), ("XMVectorDivide", "/=")]),
 ("A", "V=F", [("XMVectorScale", "*=")]),
 ("T", "M=M", [("XMMatrixMultiply", "*=")]),
 ("+", "M=M", [("M+M", "+=")]),
 ("-", "M=M", [("M-M", "-=")]),
 ("", "GetRow", ["GetRow"]), ("", "SetRow", ["SetRow"]), ("", "VPoke", ["VPoke"]), ("", "MPoke", ["MPoke"]),
 (2, "St", [("XMStoreFloat2", "XMFLOAT2")]), (3, "St", [("XMStoreFloat3", "XMFLOAT3"), ("XMStoreInt3", "[u32; 3]")]), (4, "St", [("XMStoreFloat4", "XMFLOAT4")]),
 (2, "Ld", [("XMLoadFloat2", "XMFLOAT2")]), (3, "Ld", [("XMLoadFloat3", "XMFLOAT3"), ("XMLoadInt3", "[u32; 3]")]), (4, "Ld", [("XMLoadFloat4", "XMFLOAT4")]),
 ((3, 3), "StM", [("XMStoreFloat3x3", "XMFLOAT3X3")]), ((4, 3), "StM", [("XMStoreFloat4x3", "XMFLOAT4X3")]), ((4, 4), "StM", [("XMStoreFloat4x4", "XMFLOAT4X4")]), ((3, 4), "StM", [("XMStoreFloat3x4", "XMFLOAT3X4")]),
 ((3, 3), "LdM", [("XMLoadFloat3x3", "XMFLOAT3X3")]), ((4, 3), "LdM", [("XMLoadFloat4x3", "XMFLOAT4X3")]), ((4, 4), "LdM", [("XMLoadFloat4x4", "XMFLOAT4X4")]), ((3, 4), "LdM", [("XMLoadFloat3x4", "XMFLOAT3X4")]),
]
rows, arms = [], []
for fam, sig, names in G:
    for n in names:
        x = None
        if isinstance(n, tuple): n, x = n
        k = len(rows) + 1
        f = '"%s"' % fam if isinstance(fam, str) else str(fam) if isinstance(fam, int) else "<<%d, %d>>" % fam
        rows.append('  <<"%s", "%s", %s>>' % (n, sig, f))
        m = {"VV_V": "v2!(%s)" % n, "V_V": "v1!(%s)" % n, "VVV_V": "v3!(%s)" % n, "VF_V": "vf!(%s)" % n, "VU_V": "vu!(%s)" % n, "VE_V": "vu!(%s)" % n, "VR_V": "vu!(%s)" % n,
             "VVR_V": "{ s.v[d] = %s(s.v[a], s.v[b], c[5]); o.v(s.v[d]) }" % n, "VVF_V": "{ s.v[d] = %s(s.v[a], s.v[b], f); o.v(s.v[d]) }" % n,
             "VVVV5_V": "five!(%s)" % n, "VVVVF_V": "fourf!(%s)" % n,
             "VV_B": "o.b(%s(s.v[a], s.v[b]))" % n, "VVV_B": "o.b(%s(s.v[a], s.v[b], s.v[e]))" % n, "V_B": "o.b(%s(s.v[a]))" % n, "M_B": "o.b(%s(s.m[a]))" % n, "VV_U": "o.u(%s(s.v[a], s.v[b]))" % n,
             "VV_CRV": "{ let mut cr = 0xDEADBEEFu32; s.v[d] = %s(&mut cr, s.v[a], s.v[b]); o.u(cr); o.v(s.v[d]) }" % n,
             "V_VV": "{ let x = s.v[a]; let (mut p, mut q) = (s.v[d], s.v[b]); %s(&mut p, &mut q, x); s.v[d] = p; s.v[b] = q; o.v(p); o.v(q) }" % n,
             "VV_VV": "{ let (x, y) = (s.v[a], s.v[e]); let (mut p, mut q) = (s.v[d], s.v[b]); %s(&mut p, &mut q, x, y); s.v[d] = p; s.v[b] = q; o.v(p); o.v(q) }" % n,
             "MM_M": "{ s.m[d] = %s(s.m[a], &s.m[b]); o.m(s.m[d]) }" % n, "M_M": "{ s.m[d] = %s(s.m[a]); o.m(s.m[d]) }" % n, "M_V": "{ s.v[d] = %s(s.m[a]); o.v(s.v[d]) }" % n,
             "M_VM": "{ let src = s.m[a]; s.m[b] = %s(Some(&mut s.v[d]), src); o.m(s.m[b]); o.v(s.v[d]) }" % n,
             "VV_M": "{ s.m[d] = %s(s.v[a], s.v[b]); o.m(s.m[d]) }" % n, "V_M": "v_m!(%s)" % n, "F_M": "{ s.m[d] = %s(f); o.m(s.m[d]) }" % n,
             "FFF_M": "{ let g = |i| XMVectorGetByIndex(s.v[a], i); s.m[d] = %s(g(0), g(1), g(2)); o.m(s.m[d]) }" % n, "VM_V": "vm!(%s)" % n,
             "V=V": "va!(%s)" % x, "V=F": "{ let mut y = W(s.v[d]); y *= f; s.v[d] = y.0; o.v(s.v[d]) }", "M=M": "ma!(%s)" % x,
             "GetRow": "{ s.v[d] = unsafe { s.m[a].r[k] }; o.v(s.v[d]) }", "SetRow": "{ unsafe { s.m[d].r[k] = s.v[a]; } o.m(s.m[d]) }",
             "VPoke": "{ s.v[d] = XMVectorSetIntByIndex(s.v[d], c[5], b); o.v(s.v[d]) }", "MPoke": "{ unsafe { s.m[d].r[a] = XMVectorSetIntByIndex(s.m[d].r[a], c[5], b); } o.m(s.m[d]) }",
             "St": "st!(%s, %s)" % (n, x), "Ld": "ld!(%s, %s)" % (n, x), "StM": "stm!(%s, %s)" % (n, x), "LdM": "ldm!(%s, %s)" % (n, x)}[sig]
        arms.append("        %d => %s," % (k, m))
open(ROOT + "/spec/MachOps.tla", "w").write("""------------------------------ MODULE MachOps ------------------------------
(* The instructions of Machine: function, operand signature, family (or size).  Written by tools/gen_mach.py. *)
Instr == <<
%s
>>
NInstr == %d
=============================================================================
""" % (",\n".join(rows), len(rows)))
p = ROOT + "/harness/src/bin/mach.rs"; t = open(p).read()
t = re.sub(r"(        // GENERATED\n).*?(        // END GENERATED\n)", lambda m: m.group(1) + "\n".join(arms) + "\n" + m.group(2), t, flags=re.S)
open(p, "w").write(t)
print(len(rows))
