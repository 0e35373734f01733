#![allow(non_snake_case)]
use directx_math::*;
use dxharness::*;
fn main() {
    let mut t = Table::default();
    ops!(t;
        VV_V: XMQuaternionMultiply XMPlaneDot XMPlaneDotCoord XMPlaneDotNormal XMPlaneFromPointNormal;
        V_V: XMQuaternionConjugate XMQuaternionInverse XMQuaternionLn XMQuaternionExp XMQuaternionRotationRollPitchYawFromVector XMPlaneNormalize XMPlaneNormalizeEst;
        _V: XMQuaternionIdentity;
        FFF_V: XMQuaternionRotationRollPitchYaw;
        VF_V: XMQuaternionRotationNormal XMQuaternionRotationAxis;
        M_V: XMQuaternionRotationMatrix;
        VVF_V: XMQuaternionSlerp;
        VVV_V: XMQuaternionSlerpV XMPlaneIntersectLine XMPlaneFromPoints;
        VVVVF_V: XMQuaternionSquad;
        VVVVV_V: XMQuaternionSquadV XMQuaternionBaryCentricV;
        VVVFF_V: XMQuaternionBaryCentric;
        VVVV_VVV: XMQuaternionSquadSetup;
        VV_VV: XMPlaneIntersectPlane;
        VM_V: XMPlaneTransform;
        VVV_B: XMPlaneNearEqual;
    );
    t.add("XMQuaternionToAxisAngle", |a, o| { let q = a.v(); let mut x = vnan(); let mut f = 9e9f32; XMQuaternionToAxisAngle(&mut x, &mut f, q); o.v(x); o.f(f) });
    run(t)
}
