#![allow(non_snake_case)]
use directx_math::*;
use dxharness::*;
include!("lane_traits.inc");
fn main() {
    let mut t = Table::default();
    ops!(t;
        _V: XMVectorZero XMVectorTrueInt XMVectorFalseInt XMVectorSplatOne XMVectorSplatInfinity XMVectorSplatQNaN XMVectorSplatEpsilon XMVectorSplatSignMask;
        FFFF_V: XMVectorSet; UUUU_V: XMVectorSetInt XMVectorSelectControl XMVectorSetBinaryConstant;
        F_V: XMVectorReplicate; U_V: XMVectorReplicateInt; I_V: XMVectorSplatConstantInt; IU_V: XMVectorSplatConstant;
        V_V: XMVectorSplatX XMVectorSplatY XMVectorSplatZ XMVectorSplatW;
        VZ_F: XMVectorGetByIndex; VZ_U: XMVectorGetIntByIndex;
        V_F: XMVectorGetX XMVectorGetY XMVectorGetZ XMVectorGetW;
        V_U: XMVectorGetIntX XMVectorGetIntY XMVectorGetIntZ XMVectorGetIntW;
        V_PF: XMVectorGetXPtr XMVectorGetYPtr XMVectorGetZPtr XMVectorGetWPtr;
        VFZ_V: XMVectorSetByIndex; VUZ_V: XMVectorSetIntByIndex;
        VF_V: XMVectorSetX XMVectorSetY XMVectorSetZ XMVectorSetW;
        VU_V: XMVectorSetIntX XMVectorSetIntY XMVectorSetIntZ XMVectorSetIntW XMVectorRotateLeft XMVectorRotateRight;
        VVV_V: XMVectorSelect; VV_V: XMVectorMergeXY XMVectorMergeZW XMVectorAndInt XMVectorAndCInt XMVectorOrInt XMVectorNorInt XMVectorXorInt XMVectorEqualInt XMVectorNotEqualInt;
        VVU_V: XMVectorShiftLeft;
    );
    t.add("XMVectorReplicatePtr", |a, o| { let x = a.f(); o.v(XMVectorReplicatePtr(&x)) });
    t.add("XMVectorSwizzle", |a, o| { let x = a.v(); let (p, q, r, s) = (a.u(), a.u(), a.u(), a.u()); o.v(XMVectorSwizzle(x, p, q, r, s)) });
    t.add("XMVectorPermute", |a, o| { let x = a.v(); let y = a.v(); let (p, q, r, s) = (a.u(), a.u(), a.u(), a.u()); o.v(XMVectorPermute(x, y, p, q, r, s)) });
    t.add("XMVectorInsert", |a, o| { let x = a.v(); let y = a.v(); let (n, p, q, r, s) = (a.u(), a.u(), a.u(), a.u(), a.u()); o.v(XMVectorInsert(x, y, n, p, q, r, s)) });
    t.add("SwizzleForm", |a, o| { let x = a.v(); let (p, q, r, s) = (a.u(), a.u(), a.u(), a.u()); o.v(swz(p | q << 2 | r << 4 | s << 6, x)) });
    t.add("PermuteForm", |a, o| { let x = a.v(); let y = a.v(); let (p, q, r, s) = (a.u(), a.u(), a.u(), a.u()); o.v(prm(p | q << 3 | r << 6 | s << 9, x, y).expect("form not instantiated")) });
    run(t)
}
