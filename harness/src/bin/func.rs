#![allow(non_snake_case)]
use directx_math::*;
use dxharness::*;
fn main() {
    let mut t = Table::default();
    ops!(t;
        V_V: XMVectorSin XMVectorCos XMVectorTan XMVectorASin XMVectorACos XMVectorATan
             XMVectorSinEst XMVectorCosEst XMVectorTanEst XMVectorASinEst XMVectorACosEst XMVectorATanEst
             XMVectorReciprocalEst XMVectorSqrtEst XMVectorReciprocalSqrtEst
             XMVectorExp2 XMVectorExp XMVectorSinH XMVectorCosH XMVectorTanH XMVectorModAngles;
        V_VV: XMVectorSinCos XMVectorSinCosEst;
        VV_V: XMVectorATan2 XMVectorATan2Est XMVectorPow XMVectorAddAngles XMVectorSubtractAngles;
        F_F: XMScalarSin XMScalarCos XMScalarASin XMScalarACos XMScalarSinEst XMScalarCosEst XMScalarASinEst XMScalarACosEst XMScalarModAngle XMConvertToRadians XMConvertToDegrees;
        F_FF: XMScalarSinCos XMScalarSinCosEst;
    );
    run(t)
}
