#![allow(non_snake_case)]
use directx_math::*;
use dxharness::*;
fn main() {
    let mut t = Table::default();
    ops!(t;
        MM_M: XMMatrixMultiply XMMatrixMultiplyTranspose;
        M_M: XMMatrixTranspose;
        M_V: XMMatrixDeterminant;
        VV_M: XMMatrixVectorTensorProduct XMMatrixShadow;
        _M: XMMatrixIdentity;
        FFF_M: XMMatrixTranslation XMMatrixScaling XMMatrixRotationRollPitchYaw;
        V_M: XMMatrixTranslationFromVector XMMatrixScalingFromVector XMMatrixRotationRollPitchYawFromVector XMMatrixRotationQuaternion XMMatrixReflect;
        F_M: XMMatrixRotationX XMMatrixRotationY XMMatrixRotationZ;
        VF_M: XMMatrixRotationNormal XMMatrixRotationAxis;
        VVV_M: XMMatrixLookAtLH XMMatrixLookAtRH XMMatrixLookToLH XMMatrixLookToRH;
        FFFF_M: XMMatrixPerspectiveLH XMMatrixPerspectiveRH XMMatrixPerspectiveFovLH XMMatrixPerspectiveFovRH XMMatrixOrthographicLH XMMatrixOrthographicRH;
        FFFFFF_M: XMMatrixPerspectiveOffCenterLH XMMatrixPerspectiveOffCenterRH;
    );
    t.add("XMMatrixInverse", |a, o| { let m = a.m(); let mut d = vnan(); let r = XMMatrixInverse(Some(&mut d), m); o.m(r); o.v(d); });
    t.add("XMMatrixInverse(None)", |a, o| { let m = a.m(); let r = XMMatrixInverse(None, m); o.m(r); });
    t.add("XMMatrixSet", |a, o| {
        let mut f = || a.f();
        o.m(XMMatrixSet(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()));
    });
    t.add("XMMatrixDecompose", |a, o| {
        let m = a.m();
        let (mut s, mut q, mut p) = (vnan(), vnan(), vnan());
        let ok = XMMatrixDecompose(&mut s, &mut q, &mut p, m);
        o.b(ok); o.v(s); if ok { o.v(q) } else { o.v(XMVectorZero()) } o.v(p);
    });
    t.add("XMMatrixTransformation2D", |a, o| { let so = a.v(); let w = a.f(); let s = a.v(); let ro = a.v(); let r = a.f(); let p = a.v(); o.m(XMMatrixTransformation2D(so, w, s, ro, r, p)) });
    t.add("XMMatrixTransformation", |a, o| { let so = a.v(); let w = a.v(); let s = a.v(); let ro = a.v(); let r = a.v(); let p = a.v(); o.m(XMMatrixTransformation(so, w, s, ro, r, p)) });
    t.add("XMMatrixAffineTransformation2D", |a, o| { let s = a.v(); let ro = a.v(); let r = a.f(); let p = a.v(); o.m(XMMatrixAffineTransformation2D(s, ro, r, p)) });
    t.add("XMMatrixAffineTransformation", |a, o| { let s = a.v(); let ro = a.v(); let r = a.v(); let p = a.v(); o.m(XMMatrixAffineTransformation(s, ro, r, p)) });
    run(t)
}
