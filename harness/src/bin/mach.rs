//! Interpreter of spec/Machine.tla programs: registers, memory, one API call per instruction.
#![allow(non_snake_case)]
use directx_math::*;
use dxharness::*;
use directx_math::XMVector as W;
use directx_math::XMMatrix as MM;
#[derive(Clone)]
struct S { v: [XMVECTOR; 8], m: [XMMATRIX; 3], mem: [f32; 24] }
fn dump(s: &S, o: &mut Out) { for x in s.v { o.v(x) } for x in s.m { o.m(x) } for x in s.mem { o.f(x) } }
fn memd(s: &S, o: &mut Out) { for x in s.mem { o.f(x) } }
fn at<T>(s: &S, k: usize) -> &T { unsafe { assert!(k * 4 + std::mem::size_of::<T>() <= 96); &*(s.mem.as_ptr().add(k) as *const T) } }
fn atm<T>(s: &mut S, k: usize) -> &mut T { unsafe { assert!(k * 4 + std::mem::size_of::<T>() <= 96); &mut *(s.mem.as_mut_ptr().add(k) as *mut T) } }
fn exec(s: &mut S, c: &[u32], o: &mut Out) {
    let (d, a, b, e, k) = (c[1] as usize, c[2] as usize, c[3] as usize, c[4] as usize, c[5] as usize);
    let f = f32::from_bits(c[5]);
    macro_rules! v1 { ($f:ident) => {{ s.v[d] = $f(s.v[a]); o.v(s.v[d]) }} }
    macro_rules! v2 { ($f:ident) => {{ s.v[d] = $f(s.v[a], s.v[b]); o.v(s.v[d]) }} }
    macro_rules! v3 { ($f:ident) => {{ s.v[d] = $f(s.v[a], s.v[b], s.v[e]); o.v(s.v[d]) }} }
    macro_rules! vf { ($f:ident) => {{ s.v[d] = $f(s.v[a], f); o.v(s.v[d]) }} }
    macro_rules! vu { ($f:ident) => {{ s.v[d] = $f(s.v[a], c[5]); o.v(s.v[d]) }} }
    macro_rules! five { ($f:ident) => {{ s.v[d] = $f(s.v[a], s.v[b], s.v[e], s.v[k & 7], s.v[(k >> 3) & 7]); o.v(s.v[d]) }} }
    macro_rules! fourf { ($f:ident) => {{ s.v[d] = $f(s.v[a], s.v[b], s.v[e], s.v[d], f); o.v(s.v[d]) }} }
    macro_rules! vm { ($f:ident) => {{ s.v[d] = $f(s.v[a], s.m[b]); o.v(s.v[d]) }} }
    macro_rules! v_m { ($f:ident) => {{ s.m[d] = $f(s.v[a]); o.m(s.m[d]) }} }
    macro_rules! va { ($op:tt) => {{ let y = W(s.v[a]); let mut x = W(s.v[d]); x $op y; s.v[d] = x.0; o.v(s.v[d]) }} }
    macro_rules! ma { ($op:tt) => {{ let y = MM(s.m[a]); let mut x = MM(s.m[d]); x $op y; s.m[d] = x.0; o.m(s.m[d]) }} }
    macro_rules! st { ($f:ident, $t:ty) => {{ let x = s.v[a]; $f(atm::<$t>(s, k), x); memd(s, o) }} }
    macro_rules! ld { ($f:ident, $t:ty) => {{ s.v[d] = $f(at::<$t>(s, k)); o.v(s.v[d]) }} }
    macro_rules! stm { ($f:ident, $t:ty) => {{ let x = s.m[a]; $f(atm::<$t>(s, k), x); memd(s, o) }} }
    macro_rules! ldm { ($f:ident, $t:ty) => {{ s.m[d] = $f(at::<$t>(s, k)); o.m(s.m[d]) }} }
    match c[0] {
        // GENERATED
        1 => v2!(XMVectorAdd),
        2 => v2!(XMVectorSubtract),
        3 => v2!(XMVectorMultiply),
        4 => v2!(XMVectorDivide),
        5 => v2!(XMVectorMin),
        6 => v2!(XMVectorMax),
        7 => v2!(XMVectorMod),
        8 => v1!(XMVectorNegate),
        9 => v1!(XMVectorAbs),
        10 => v1!(XMVectorSqrt),
        11 => v1!(XMVectorReciprocal),
        12 => v1!(XMVectorReciprocalSqrt),
        13 => v1!(XMVectorSaturate),
        14 => v1!(XMVectorRound),
        15 => v1!(XMVectorTruncate),
        16 => v1!(XMVectorFloor),
        17 => v1!(XMVectorCeiling),
        18 => v3!(XMVectorMultiplyAdd),
        19 => v3!(XMVectorNegativeMultiplySubtract),
        20 => vf!(XMVectorScale),
        21 => v2!(XMVectorEqual),
        22 => v2!(XMVectorNotEqual),
        23 => v2!(XMVectorGreater),
        24 => v2!(XMVectorGreaterOrEqual),
        25 => v2!(XMVectorLess),
        26 => v2!(XMVectorLessOrEqual),
        27 => v2!(XMVectorInBounds),
        28 => o.b(XMVector2Equal(s.v[a], s.v[b])),
        29 => o.b(XMVector2Greater(s.v[a], s.v[b])),
        30 => o.b(XMVector2LessOrEqual(s.v[a], s.v[b])),
        31 => o.b(XMVector3NotEqual(s.v[a], s.v[b])),
        32 => o.b(XMVector3Less(s.v[a], s.v[b])),
        33 => o.b(XMVector3GreaterOrEqual(s.v[a], s.v[b])),
        34 => o.b(XMVector3EqualInt(s.v[a], s.v[b])),
        35 => o.b(XMVector4Equal(s.v[a], s.v[b])),
        36 => o.b(XMVector4NotEqualInt(s.v[a], s.v[b])),
        37 => o.b(XMVector4Greater(s.v[a], s.v[b])),
        38 => o.b(XMVector4InBounds(s.v[a], s.v[b])),
        39 => o.b(XMQuaternionEqual(s.v[a], s.v[b])),
        40 => o.b(XMQuaternionNotEqual(s.v[a], s.v[b])),
        41 => o.b(XMPlaneEqual(s.v[a], s.v[b])),
        42 => o.b(XMPlaneNotEqual(s.v[a], s.v[b])),
        43 => o.u(XMVector2EqualR(s.v[a], s.v[b])),
        44 => o.u(XMVector3GreaterR(s.v[a], s.v[b])),
        45 => o.u(XMVector4GreaterOrEqualR(s.v[a], s.v[b])),
        46 => o.u(XMVector4EqualIntR(s.v[a], s.v[b])),
        47 => { let mut cr = 0xDEADBEEFu32; s.v[d] = XMVectorEqualR(&mut cr, s.v[a], s.v[b]); o.u(cr); o.v(s.v[d]) },
        48 => { let mut cr = 0xDEADBEEFu32; s.v[d] = XMVectorGreaterR(&mut cr, s.v[a], s.v[b]); o.u(cr); o.v(s.v[d]) },
        49 => { let mut cr = 0xDEADBEEFu32; s.v[d] = XMVectorGreaterOrEqualR(&mut cr, s.v[a], s.v[b]); o.u(cr); o.v(s.v[d]) },
        50 => { let mut cr = 0xDEADBEEFu32; s.v[d] = XMVectorEqualIntR(&mut cr, s.v[a], s.v[b]); o.u(cr); o.v(s.v[d]) },
        51 => { let mut cr = 0xDEADBEEFu32; s.v[d] = XMVectorInBoundsR(&mut cr, s.v[a], s.v[b]); o.u(cr); o.v(s.v[d]) },
        52 => v3!(XMVectorNearEqual),
        53 => o.b(XMVector2NearEqual(s.v[a], s.v[b], s.v[e])),
        54 => o.b(XMVector3NearEqual(s.v[a], s.v[b], s.v[e])),
        55 => o.b(XMVector4NearEqual(s.v[a], s.v[b], s.v[e])),
        56 => v1!(XMVectorIsNaN),
        57 => v1!(XMVectorIsInfinite),
        58 => o.b(XMVector2IsNaN(s.v[a])),
        59 => o.b(XMVector3IsInfinite(s.v[a])),
        60 => o.b(XMVector4IsNaN(s.v[a])),
        61 => o.b(XMQuaternionIsNaN(s.v[a])),
        62 => o.b(XMQuaternionIsIdentity(s.v[a])),
        63 => o.b(XMPlaneIsInfinite(s.v[a])),
        64 => o.b(XMMatrixIsNaN(s.m[a])),
        65 => o.b(XMMatrixIsInfinite(s.m[a])),
        66 => o.b(XMMatrixIsIdentity(s.m[a])),
        67 => vu!(XMConvertVectorIntToFloat),
        68 => vu!(XMConvertVectorFloatToInt),
        69 => vu!(XMConvertVectorUIntToFloat),
        70 => vu!(XMConvertVectorFloatToUInt),
        71 => v1!(XMVectorSin),
        72 => v1!(XMVectorCos),
        73 => v1!(XMVectorTan),
        74 => v1!(XMVectorASin),
        75 => v1!(XMVectorACos),
        76 => v1!(XMVectorATan),
        77 => v1!(XMVectorSinEst),
        78 => v1!(XMVectorCosEst),
        79 => v1!(XMVectorTanEst),
        80 => v1!(XMVectorASinEst),
        81 => v1!(XMVectorACosEst),
        82 => v1!(XMVectorATanEst),
        83 => v1!(XMVectorReciprocalEst),
        84 => v1!(XMVectorSqrtEst),
        85 => v1!(XMVectorReciprocalSqrtEst),
        86 => v1!(XMVectorExp2),
        87 => v1!(XMVectorSinH),
        88 => v1!(XMVectorCosH),
        89 => v1!(XMVectorTanH),
        90 => v1!(XMVectorModAngles),
        91 => { let x = s.v[a]; let (mut p, mut q) = (s.v[d], s.v[b]); XMVectorSinCos(&mut p, &mut q, x); s.v[d] = p; s.v[b] = q; o.v(p); o.v(q) },
        92 => { let x = s.v[a]; let (mut p, mut q) = (s.v[d], s.v[b]); XMVectorSinCosEst(&mut p, &mut q, x); s.v[d] = p; s.v[b] = q; o.v(p); o.v(q) },
        93 => v2!(XMVectorATan2),
        94 => v2!(XMVectorATan2Est),
        95 => v2!(XMVectorPow),
        96 => v1!(XMVectorSplatX),
        97 => v1!(XMVectorSplatY),
        98 => v1!(XMVectorSplatZ),
        99 => v1!(XMVectorSplatW),
        100 => vf!(XMVectorSetX),
        101 => vf!(XMVectorSetY),
        102 => vf!(XMVectorSetZ),
        103 => vf!(XMVectorSetW),
        104 => vu!(XMVectorSetIntX),
        105 => vu!(XMVectorSetIntY),
        106 => vu!(XMVectorSetIntZ),
        107 => vu!(XMVectorSetIntW),
        108 => vu!(XMVectorRotateLeft),
        109 => vu!(XMVectorRotateRight),
        110 => { s.v[d] = XMVectorShiftLeft(s.v[a], s.v[b], c[5]); o.v(s.v[d]) },
        111 => v3!(XMVectorSelect),
        112 => v2!(XMVectorMergeXY),
        113 => v2!(XMVectorMergeZW),
        114 => v2!(XMVectorAndInt),
        115 => v2!(XMVectorAndCInt),
        116 => v2!(XMVectorOrInt),
        117 => v2!(XMVectorNorInt),
        118 => v2!(XMVectorXorInt),
        119 => v2!(XMVectorEqualInt),
        120 => v2!(XMVectorNotEqualInt),
        121 => { s.m[d] = XMMatrixMultiply(s.m[a], &s.m[b]); o.m(s.m[d]) },
        122 => { s.m[d] = XMMatrixMultiplyTranspose(s.m[a], &s.m[b]); o.m(s.m[d]) },
        123 => { s.m[d] = XMMatrixTranspose(s.m[a]); o.m(s.m[d]) },
        124 => { s.v[d] = XMMatrixDeterminant(s.m[a]); o.v(s.v[d]) },
        125 => { let src = s.m[a]; s.m[b] = XMMatrixInverse(Some(&mut s.v[d]), src); o.m(s.m[b]); o.v(s.v[d]) },
        126 => { s.m[d] = XMMatrixVectorTensorProduct(s.v[a], s.v[b]); o.m(s.m[d]) },
        127 => v_m!(XMMatrixTranslationFromVector),
        128 => v_m!(XMMatrixScalingFromVector),
        129 => v_m!(XMMatrixRotationRollPitchYawFromVector),
        130 => v_m!(XMMatrixRotationQuaternion),
        131 => { s.m[d] = XMMatrixRotationX(f); o.m(s.m[d]) },
        132 => { s.m[d] = XMMatrixRotationY(f); o.m(s.m[d]) },
        133 => { s.m[d] = XMMatrixRotationZ(f); o.m(s.m[d]) },
        134 => { let g = |i| XMVectorGetByIndex(s.v[a], i); s.m[d] = XMMatrixTranslation(g(0), g(1), g(2)); o.m(s.m[d]) },
        135 => { let g = |i| XMVectorGetByIndex(s.v[a], i); s.m[d] = XMMatrixScaling(g(0), g(1), g(2)); o.m(s.m[d]) },
        136 => { let g = |i| XMVectorGetByIndex(s.v[a], i); s.m[d] = XMMatrixRotationRollPitchYaw(g(0), g(1), g(2)); o.m(s.m[d]) },
        137 => v2!(XMQuaternionMultiply),
        138 => v2!(XMPlaneDot),
        139 => v2!(XMPlaneDotCoord),
        140 => v2!(XMPlaneDotNormal),
        141 => v2!(XMPlaneFromPointNormal),
        142 => v1!(XMQuaternionConjugate),
        143 => v1!(XMQuaternionInverse),
        144 => v1!(XMQuaternionRotationRollPitchYawFromVector),
        145 => v1!(XMPlaneNormalize),
        146 => vm!(XMPlaneTransform),
        147 => v2!(XMVector2Dot),
        148 => v2!(XMVector3Dot),
        149 => v2!(XMVector4Dot),
        150 => v2!(XMVector2Cross),
        151 => v2!(XMVector3Cross),
        152 => v2!(XMVector2Reflect),
        153 => v2!(XMVector3Reflect),
        154 => v2!(XMVector4Reflect),
        155 => v2!(XMVector3Rotate),
        156 => v2!(XMVector3InverseRotate),
        157 => v2!(XMQuaternionDot),
        158 => v1!(XMVector2LengthSq),
        159 => v1!(XMVector3LengthSq),
        160 => v1!(XMVector4LengthSq),
        161 => v1!(XMVectorSum),
        162 => v1!(XMVector2Length),
        163 => v1!(XMVector3Length),
        164 => v1!(XMVector4Length),
        165 => v1!(XMVector2ReciprocalLength),
        166 => v1!(XMVector3ReciprocalLength),
        167 => v1!(XMVector4ReciprocalLength),
        168 => v1!(XMVector2Normalize),
        169 => v1!(XMVector3Normalize),
        170 => v1!(XMVector4Normalize),
        171 => v1!(XMVector2Orthogonal),
        172 => v1!(XMVector3Orthogonal),
        173 => v1!(XMVector4Orthogonal),
        174 => v1!(XMQuaternionLengthSq),
        175 => v1!(XMQuaternionLength),
        176 => v1!(XMQuaternionNormalize),
        177 => v1!(XMQuaternionReciprocalLength),
        178 => v3!(XMVector4Cross),
        179 => v3!(XMVectorLerpV),
        180 => { s.v[d] = XMVectorLerp(s.v[a], s.v[b], f); o.v(s.v[d]) },
        181 => five!(XMVectorHermiteV),
        182 => five!(XMVectorCatmullRomV),
        183 => five!(XMVectorBaryCentricV),
        184 => fourf!(XMVectorHermite),
        185 => fourf!(XMVectorCatmullRom),
        186 => { let (x, y) = (s.v[a], s.v[e]); let (mut p, mut q) = (s.v[d], s.v[b]); XMVector3ComponentsFromNormal(&mut p, &mut q, x, y); s.v[d] = p; s.v[b] = q; o.v(p); o.v(q) },
        187 => vm!(XMVector2Transform),
        188 => vm!(XMVector3Transform),
        189 => vm!(XMVector4Transform),
        190 => vm!(XMVector2TransformCoord),
        191 => vm!(XMVector3TransformCoord),
        192 => vm!(XMVector2TransformNormal),
        193 => vm!(XMVector3TransformNormal),
        194 => va!(+=),
        195 => va!(-=),
        196 => va!(*=),
        197 => va!(/=),
        198 => { let mut y = W(s.v[d]); y *= f; s.v[d] = y.0; o.v(s.v[d]) },
        199 => ma!(*=),
        200 => ma!(+=),
        201 => ma!(-=),
        202 => { s.v[d] = unsafe { s.m[a].r[k] }; o.v(s.v[d]) },
        203 => { unsafe { s.m[d].r[k] = s.v[a]; } o.m(s.m[d]) },
        204 => { s.v[d] = XMVectorSetIntByIndex(s.v[d], c[5], b); o.v(s.v[d]) },
        205 => { unsafe { s.m[d].r[a] = XMVectorSetIntByIndex(s.m[d].r[a], c[5], b); } o.m(s.m[d]) },
        206 => st!(XMStoreFloat2, XMFLOAT2),
        207 => st!(XMStoreFloat3, XMFLOAT3),
        208 => st!(XMStoreInt3, [u32; 3]),
        209 => st!(XMStoreFloat4, XMFLOAT4),
        210 => ld!(XMLoadFloat2, XMFLOAT2),
        211 => ld!(XMLoadFloat3, XMFLOAT3),
        212 => ld!(XMLoadInt3, [u32; 3]),
        213 => ld!(XMLoadFloat4, XMFLOAT4),
        214 => stm!(XMStoreFloat3x3, XMFLOAT3X3),
        215 => stm!(XMStoreFloat4x3, XMFLOAT4X3),
        216 => stm!(XMStoreFloat4x4, XMFLOAT4X4),
        217 => stm!(XMStoreFloat3x4, XMFLOAT3X4),
        218 => ldm!(XMLoadFloat3x3, XMFLOAT3X3),
        219 => ldm!(XMLoadFloat4x3, XMFLOAT4X3),
        220 => ldm!(XMLoadFloat4x4, XMFLOAT4X4),
        221 => ldm!(XMLoadFloat3x4, XMFLOAT3X4),
        // END GENERATED
        n => { eprintln!("opcode {}", n); std::process::exit(3) }
    }
}
fn main() {
    let mut t = Table::default();
    t.add("Run", |a, o| {
        let mut s = S { v: [a.v(), a.v(), a.v(), a.v(), a.v(), a.v(), a.v(), a.v()], m: [a.m(), a.m(), a.m()], mem: [0.0; 24] };
        for i in 0..24 { s.mem[i] = a.f(); }
        let code = a.rest();
        let mut again = s.clone();
        for c in code.chunks(6) { exec(&mut s, c, o); }
        dump(&s, o);
        let mut sink = Out::new();
        for c in code.chunks(6) { exec(&mut again, c, &mut sink); }
        dump(&again, o);
    });
    replay(t, false)
}
