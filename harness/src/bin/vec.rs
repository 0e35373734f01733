#![allow(non_snake_case)]
use directx_math::*;
use dxharness::*;
fn main() {
    let mut t = Table::default();
    ops!(t;
        VV_V: XMVector2Dot XMVector3Dot XMVector4Dot XMVector2Cross XMVector3Cross XMQuaternionDot
              XMVector2Reflect XMVector3Reflect XMVector4Reflect
              XMVector2AngleBetweenNormals XMVector3AngleBetweenNormals XMVector4AngleBetweenNormals
              XMVector2AngleBetweenNormalsEst XMVector3AngleBetweenNormalsEst XMVector4AngleBetweenNormalsEst
              XMVector2AngleBetweenVectors XMVector3AngleBetweenVectors XMVector4AngleBetweenVectors
              XMVector3Rotate XMVector3InverseRotate XMFresnelTerm;
        V_V: XMVector2LengthSq XMVector3LengthSq XMVector4LengthSq XMQuaternionLengthSq XMVectorSum
             XMVector2Length XMVector3Length XMVector4Length XMQuaternionLength
             XMVector2ReciprocalLength XMVector3ReciprocalLength XMVector4ReciprocalLength XMQuaternionReciprocalLength
             XMVector2LengthEst XMVector3LengthEst XMVector4LengthEst
             XMVector2ReciprocalLengthEst XMVector3ReciprocalLengthEst XMVector4ReciprocalLengthEst
             XMVector2Normalize XMVector3Normalize XMVector4Normalize XMQuaternionNormalize
             XMVector2NormalizeEst XMVector3NormalizeEst XMVector4NormalizeEst XMQuaternionNormalizeEst
             XMVector2Orthogonal XMVector3Orthogonal XMVector4Orthogonal;
        VVV_V: XMVector4Cross XMVector2ClampLengthV XMVector3ClampLengthV XMVector4ClampLengthV
               XMVector2RefractV XMVector3RefractV XMVector4RefractV
               XMVector2LinePointDistance XMVector3LinePointDistance XMVectorLerpV;
        VFF_V: XMVector2ClampLength XMVector3ClampLength XMVector4ClampLength;
        VVF_V: XMVector2Refract XMVector3Refract XMVector4Refract XMVectorLerp;
        VVVV_V: XMVector2IntersectLine;
        VV_VV: XMVector3ComponentsFromNormal;
        VVVVF_V: XMVectorHermite XMVectorCatmullRom;
        VVVVV_V: XMVectorHermiteV XMVectorCatmullRomV XMVectorBaryCentricV;
        VVVFF_V: XMVectorBaryCentric;
        VM_V: XMVector2Transform XMVector3Transform XMVector4Transform XMVector2TransformCoord XMVector3TransformCoord
              XMVector2TransformNormal XMVector3TransformNormal;
    );
    t.add("XMVector3Project", |a, o| { let v = a.v(); let (x, y, w, h, n, f) = (a.f(), a.f(), a.f(), a.f(), a.f(), a.f()); let (p, q, r) = (a.m(), a.m(), a.m()); o.v(XMVector3Project(v, x, y, w, h, n, f, p, &q, &r)) });
    t.add("XMVector3Unproject", |a, o| { let v = a.v(); let (x, y, w, h, n, f) = (a.f(), a.f(), a.f(), a.f(), a.f(), a.f()); let (p, q, r) = (a.m(), a.m(), a.m()); o.v(XMVector3Unproject(v, x, y, w, h, n, f, p, &q, &r)) });
    run(t)
}
