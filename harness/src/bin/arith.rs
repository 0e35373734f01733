#![allow(non_snake_case)]
use directx_math::*;
use dxharness::*;
fn main() {
    let mut t = Table::default();
    ops!(t;
        VV_V: XMVectorAdd XMVectorSubtract XMVectorMultiply XMVectorDivide XMVectorMin XMVectorMax XMVectorMod;
        V_V: XMVectorNegate XMVectorAbs XMVectorSqrt XMVectorReciprocal XMVectorReciprocalSqrt XMVectorSaturate XMVectorRound XMVectorTruncate XMVectorFloor XMVectorCeiling;
        VVV_V: XMVectorMultiplyAdd XMVectorNegativeMultiplySubtract XMVectorClamp;
        VF_V: XMVectorScale;
    );
    run(t)
}
