#![allow(non_snake_case)]
use directx_math::collision::*;
use directx_math::*;
use dxharness::*;
fn s(a: &mut In) -> BoundingSphere { BoundingSphere { Center: a.f3(), Radius: a.f() } }
fn b(a: &mut In) -> BoundingBox { BoundingBox { Center: a.f3(), Extents: a.f3() } }
fn ob(a: &mut In) -> BoundingOrientedBox { BoundingOrientedBox { Center: a.f3(), Extents: a.f3(), Orientation: a.f4() } }
fn fr(a: &mut In) -> BoundingFrustum {
    BoundingFrustum { Origin: a.f3(), Orientation: a.f4(), RightSlope: a.f(), LeftSlope: a.f(), TopSlope: a.f(), BottomSlope: a.f(), Near: a.f(), Far: a.f() }
}
const N3: XMFLOAT3 = XMFLOAT3 { x: f32::NAN, y: f32::NAN, z: f32::NAN };
const N4: XMFLOAT4 = XMFLOAT4 { x: f32::NAN, y: f32::NAN, z: f32::NAN, w: f32::NAN };
fn ns() -> BoundingSphere { BoundingSphere { Center: N3, Radius: f32::NAN } }
fn nb() -> BoundingBox { BoundingBox { Center: N3, Extents: N3 } }
fn no() -> BoundingOrientedBox { BoundingOrientedBox { Center: N3, Extents: N3, Orientation: N4 } }
fn nf() -> BoundingFrustum { let n = f32::NAN; BoundingFrustum { Origin: N3, Orientation: N4, RightSlope: n, LeftSlope: n, TopSlope: n, BottomSlope: n, Near: n, Far: n } }
fn os(o: &mut Out, x: BoundingSphere) { o.f3(x.Center); o.f(x.Radius) }
fn obx(o: &mut Out, x: BoundingBox) { o.f3(x.Center); o.f3(x.Extents) }
fn oob(o: &mut Out, x: BoundingOrientedBox) { o.f3(x.Center); o.f3(x.Extents); o.f4(x.Orientation) }
fn of(o: &mut Out, x: BoundingFrustum) { o.f3(x.Origin); o.f4(x.Orientation); for v in [x.RightSlope, x.LeftSlope, x.TopSlope, x.BottomSlope, x.Near, x.Far] { o.f(v) } }
fn pts(a: &mut In) -> Vec<XMFLOAT3> { let n = a.u(); (0..n).map(|_| a.f3()).collect() }
macro_rules! body {
    ($t:ident, $k:ident, $n:literal) => {
        $t.add(concat!("Intersects_", $n, "S"), |a, o| { let p = $k(a); let q = s(a); o.b(p.IntersectsSphere(&q)) });
        $t.add(concat!("Intersects_", $n, "B"), |a, o| { let p = $k(a); let q = b(a); o.b(p.IntersectsBox(&q)) });
        $t.add(concat!("Intersects_", $n, "O"), |a, o| { let p = $k(a); let q = ob(a); o.b(p.IntersectsOrientedBox(&q)) });
        $t.add(concat!("Intersects_", $n, "F"), |a, o| { let p = $k(a); let q = fr(a); o.b(p.IntersectsFrustum(&q)) });
        $t.add(concat!("Intersects_", $n, "T"), |a, o| { let p = $k(a); let (x, y, z) = (a.v(), a.v(), a.v()); o.b(p.IntersectsTriangle(x, y, z)) });
        $t.add(concat!("Contains_", $n, "P"), |a, o| { let p = $k(a); let q = a.v(); o.u(p.ContainsPoint(q) as u32) });
        $t.add(concat!("Contains_", $n, "S"), |a, o| { let p = $k(a); let q = s(a); o.u(p.ContainsSphere(&q) as u32) });
        $t.add(concat!("Contains_", $n, "B"), |a, o| { let p = $k(a); let q = b(a); o.u(p.ContainsBox(&q) as u32) });
        $t.add(concat!("Contains_", $n, "O"), |a, o| { let p = $k(a); let q = ob(a); o.u(p.ContainsOrientedBox(&q) as u32) });
        $t.add(concat!("Contains_", $n, "F"), |a, o| { let p = $k(a); let q = fr(a); o.u(p.ContainsFrustum(&q) as u32) });
        $t.add(concat!("Contains_", $n, "T"), |a, o| { let p = $k(a); let (x, y, z) = (a.v(), a.v(), a.v()); o.u(p.ContainsTriangle(x, y, z) as u32) });
        $t.add(concat!("Ray_", $n), |a, o| { let p = $k(a); let (x, d) = (a.v(), a.v()); let mut t = f32::NAN; o.b(p.IntersectsRay(x, d, &mut t)); o.f(t) });
        $t.add(concat!("Plane_", $n), |a, o| { let p = $k(a); let x = a.v(); o.u(p.IntersectsPlane(x) as u32) });
        $t.add(concat!("ContainedBy_", $n), |a, o| {
            let p = $k(a);
            let x = [a.v(), a.v(), a.v(), a.v(), a.v(), a.v()];
            o.u(p.ContainedBy(x[0], x[1], x[2], x[3], x[4], x[5]) as u32)
        });
    };
}
const SCENE: &[&str] = &include!("scene_ops.inc");
static TABLE: std::sync::OnceLock<Table> = std::sync::OnceLock::new();
const NMEM: usize = 174;
/// One run of a scene program: results of its instructions, then the memory.
fn scene(start: &[u32], prog: &[u32], o: &mut Out, record: bool) {
    let t = TABLE.get_or_init(table);
    let mut mem = start.to_vec();
    for ins in prog.chunks(10) {
        if ins[0] == 0 {
            let (f, n) = (ins[2] as usize, ins[3]);
            if ins[1] == 999 { mem[f] = n } else if ins[1] == 998 { mem[f] ^= 0x8000_0000 } else { let w = mem[f..f + n as usize].to_vec(); let d = ins[1] as usize; mem[d..d + w.len()].copy_from_slice(&w) }
            continue
        }
        let mut a = Vec::with_capacity(48);
        for w in ins[2..].chunks(2) { a.extend_from_slice(&mem[w[0] as usize..(w[0] + w[1]) as usize]) }
        let r = t.call(SCENE[ins[0] as usize - 1], &a);
        if ins[1] != 999 { let d = ins[1] as usize; mem[d..d + r.len()].copy_from_slice(&r) }
        if record { for x in r { o.u(x) } }
    }
    for x in mem { o.u(x) }
}
fn main() {
    let mut t = table();
    t.add("Scene", |a, o| {
        let w = a.rest().to_vec();
        let (start, prog) = w.split_at(NMEM);
        scene(start, prog, o, true);
        scene(start, prog, o, false);
    });
    run(t)
}
fn table() -> Table {
    let mut t = Table::default();
    body!(t, s, "S");
    body!(t, b, "B");
    body!(t, ob, "O");
    body!(t, fr, "F");
    t.add("Triangle_IntersectsTriangle", |a, o| {
        let x = [a.v(), a.v(), a.v(), a.v(), a.v(), a.v()];
        o.b(triangle_tests::IntersectsTriangle(x[0], x[1], x[2], x[3], x[4], x[5]))
    });
    t.add("Ray_T", |a, o| { let x = [a.v(), a.v(), a.v()]; let (p, d) = (a.v(), a.v()); let mut t = f32::NAN; o.b(triangle_tests::IntersectsRay(p, d, x[0], x[1], x[2], &mut t)); o.f(t) });
    t.add("Plane_T", |a, o| { let x = [a.v(), a.v(), a.v()]; let p = a.v(); o.u(triangle_tests::IntersectsPlane(x[0], x[1], x[2], p) as u32) });
    t.add("ContainedBy_T", |a, o| {
        let v = [a.v(), a.v(), a.v()];
        let x = [a.v(), a.v(), a.v(), a.v(), a.v(), a.v()];
        o.u(triangle_tests::ContainedBy(v[0], v[1], v[2], x[0], x[1], x[2], &x[3], &x[4], &x[5]) as u32)
    });
    macro_rules! corners { ($n:literal, $k:ident) => { t.add(concat!("Corners_", $n), |a, o| { let p = $k(a); let mut c = [XMFLOAT3 { x: f32::NAN, y: f32::NAN, z: f32::NAN }; 8]; p.GetCorners(&mut c); for x in c { o.f3(x) } }); } }
    corners!("B", b);
    corners!("O", ob);
    corners!("F", fr);
    t.add("Planes_F", |a, o| {
        let p = fr(a);
        let m = a.u();
        let n = f32::from_bits(0x7FC00000);
        let mut x = [XMVectorSet(n, n, n, n); 6];
        {
            let [x0, x1, x2, x3, x4, x5] = &mut x;
            fn opt<'a>(m: u32, i: u32, x: &'a mut XMVECTOR) -> Option<&'a mut XMVECTOR> { if m >> i & 1 == 1 { Some(x) } else { None } }
            p.GetPlanes(opt(m, 0, x0), opt(m, 1, x1), opt(m, 2, x2), opt(m, 3, x3), opt(m, 4, x4), opt(m, 5, x5));
        }
        for v in x { o.v(v) }
    });
    t.add("FromMatrix_F", |a, o| { let m = a.m(); let rh = a.u(); let mut x = nf(); BoundingFrustum::CreateFromMatrix(&mut x, m, rh != 0); of(o, x) });
    t.add("Merged_S", |a, o| { let (x, y) = (s(a), s(a)); let mut z = ns(); BoundingSphere::CreateMerged(&mut z, &x, &y); os(o, z) });
    t.add("Merged_B", |a, o| { let (x, y) = (b(a), b(a)); let mut z = nb(); BoundingBox::CreateMerged(&mut z, &x, &y); obx(o, z) });
    t.add("SphereFromBox", |a, o| { let x = b(a); let mut z = ns(); BoundingSphere::CreateFromBoundingBox(&mut z, &x); os(o, z) });
    t.add("SphereFromOBox", |a, o| { let x = ob(a); let mut z = ns(); BoundingSphere::CreateFromBoundingOrientedBox(&mut z, &x); os(o, z) });
    t.add("SphereFromFrustum", |a, o| { let x = fr(a); let mut z = ns(); BoundingSphere::CreateFromFrustum(&mut z, &x); os(o, z) });
    t.add("SphereFromPoints", |a, o| { let x = pts(a); let mut z = ns(); BoundingSphere::CreateFromPoints(&mut z, x.iter()); os(o, z) });
    t.add("BoxFromSphere", |a, o| { let x = s(a); let mut z = nb(); BoundingBox::CreateFromSphere(&mut z, &x); obx(o, z) });
    t.add("BoxFromPoints", |a, o| { let x = pts(a); let mut z = nb(); BoundingBox::CreateFromPoints(&mut z, x.iter()); obx(o, z) });
    t.add("OBoxFromBox", |a, o| { let x = b(a); let mut z = no(); BoundingOrientedBox::CreateFromBoundingBox(&mut z, &x); oob(o, z) });
    t.add("OBoxFromPoints", |a, o| { let x = pts(a); let mut z = no(); BoundingOrientedBox::CreateFromPoints(&mut z, x.iter()); oob(o, z) });
    t.add("Empty_S", |a, o| { let p = a.v(); let x: [XMFLOAT3; 0] = []; let mut z = BoundingSphere::default(); BoundingSphere::CreateFromPoints(&mut z, x.iter()); o.u(z.ContainsPoint(p) as u32) });
    t.add("Empty_B", |a, o| { let p = a.v(); let x: [XMFLOAT3; 0] = []; let mut z = BoundingBox::default(); BoundingBox::CreateFromPoints(&mut z, x.iter()); o.u(z.ContainsPoint(p) as u32) });
    t.add("Empty_O", |a, o| { let p = a.v(); let x: [XMFLOAT3; 0] = []; let mut z = BoundingOrientedBox::default(); BoundingOrientedBox::CreateFromPoints(&mut z, x.iter()); o.u(z.ContainsPoint(p) as u32) });
    macro_rules! xf { ($n:literal, $k:ident, $z:ident, $w:ident) => {
        t.add(concat!("Matrix_", $n), |a, o| { let p = $k(a); let m = a.m(); let mut z = $z(); p.TransformMatrix(&mut z, m); $w(o, z) });
        t.add(concat!("Decomp_", $n), |a, o| { let p = $k(a); let c = a.f(); let (q, x) = (a.v(), a.v()); let mut z = $z(); p.TransformDecomposed(&mut z, c, q, x); $w(o, z) });
    } }
    xf!("S", s, ns, os);
    xf!("B", b, nb, obx);
    xf!("O", ob, no, oob);
    xf!("F", fr, nf, of);
    t
}
