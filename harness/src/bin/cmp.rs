#![allow(non_snake_case)]
use directx_math::*;
use dxharness::*;
fn main() {
    let mut t = Table::default();
    ops!(t;
        VV_V: XMVectorEqual XMVectorNotEqual XMVectorEqualInt XMVectorNotEqualInt XMVectorGreater XMVectorGreaterOrEqual XMVectorLess XMVectorLessOrEqual XMVectorInBounds;
        VV_B: XMVector2Equal XMVector2NotEqual XMVector2EqualInt XMVector2NotEqualInt XMVector2Greater XMVector2GreaterOrEqual XMVector2Less XMVector2LessOrEqual XMVector2InBounds
              XMVector3Equal XMVector3NotEqual XMVector3EqualInt XMVector3NotEqualInt XMVector3Greater XMVector3GreaterOrEqual XMVector3Less XMVector3LessOrEqual XMVector3InBounds
              XMVector4Equal XMVector4NotEqual XMVector4EqualInt XMVector4NotEqualInt XMVector4Greater XMVector4GreaterOrEqual XMVector4Less XMVector4LessOrEqual XMVector4InBounds
              XMQuaternionEqual XMQuaternionNotEqual XMPlaneEqual XMPlaneNotEqual;
        VV_U: XMVector2EqualR XMVector2EqualIntR XMVector2GreaterR XMVector2GreaterOrEqualR XMVector3EqualR XMVector3EqualIntR XMVector3GreaterR XMVector3GreaterOrEqualR
              XMVector4EqualR XMVector4EqualIntR XMVector4GreaterR XMVector4GreaterOrEqualR;
        VV_CRV: XMVectorEqualR XMVectorEqualIntR XMVectorGreaterR XMVectorGreaterOrEqualR XMVectorInBoundsR;
        VVV_V: XMVectorNearEqual; VVV_B: XMVector2NearEqual XMVector3NearEqual XMVector4NearEqual;
        V_V: XMVectorIsNaN XMVectorIsInfinite;
        V_B: XMVector2IsNaN XMVector2IsInfinite XMVector3IsNaN XMVector3IsInfinite XMVector4IsNaN XMVector4IsInfinite XMQuaternionIsNaN XMQuaternionIsInfinite XMPlaneIsNaN XMPlaneIsInfinite XMQuaternionIsIdentity;
        M_B: XMMatrixIsNaN XMMatrixIsInfinite XMMatrixIsIdentity; FFF_B: XMScalarNearEqual;
        U_B: XMComparisonAllTrue XMComparisonAnyTrue XMComparisonAllFalse XMComparisonAnyFalse XMComparisonMixed XMComparisonAllInBounds XMComparisonAnyOutOfBounds;
    );
    run(t)
}
