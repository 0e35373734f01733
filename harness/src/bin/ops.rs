//! Operators of the wrapper types, storage conversions, XMMin/XMMax.
#![allow(non_snake_case)]
use directx_math::*;
use dxharness::*;
use directx_math::XMVector as W;
use directx_math::XMMatrix as M;
fn fl(a: &mut In, n: usize) -> Vec<f32> { (0..n).map(|_| a.f()).collect() }
fn nums(s: &str) -> Vec<f32> {
    s.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '+')).filter_map(|t| t.parse::<f32>().ok()).collect()
}
// every conversion of a storage struct, in the order: From array, From &array, set/fields, Into array, Into &array, AsRef, AsMut (read and written through)
macro_rules! strct {
    ($t:ident, $n:expr, $name:ident, $ty:ty, $rd:ident, $wr:ident, $($f:ident),*) => {
        $t.add(stringify!($name), |a, o| {
            let mut arr: [$ty; $n] = Default::default();
            for i in 0..$n { arr[i] = a.$rd(); }
            let s: $name = arr.into(); $( o.$wr(s.$f); )*
            let s: &$name = (&arr).into(); $( o.$wr(s.$f); )*
            let s = { let mut k = 0; $( let $f = arr[k]; k += 1; )* let _ = k; $name::set($($f),*) }; $( o.$wr(s.$f); )*
            let b: [$ty; $n] = s.into(); for x in b { o.$wr(x) }
            let b: &[$ty; $n] = (&s).into(); for x in b { o.$wr(*x) }
            let b: &[$ty; $n] = s.as_ref(); for x in b { o.$wr(*x) }
            let mut q = $name::default(); { let b: &mut [$ty; $n] = q.as_mut(); for i in 0..$n { b[i] = arr[i]; } } $( o.$wr(q.$f); )*
            let al: Align16<$name> = s.into(); $( o.$wr(al.$f); )*
            let mut al2 = Align16(q); { let r: &mut $name = al2.as_mut(); *r = s; } let r: &$name = al2.as_ref(); $( o.$wr(r.$f); )*
        });
    };
}
macro_rules! mstrct {
    ($t:ident, $name:ident, $r:expr, $c:expr) => {
        $t.add(stringify!($name), |a, o| {
            let mut arr = [0f32; $r * $c]; for x in arr.iter_mut() { *x = a.f(); }
            let mut nest = [[0f32; $c]; $r]; for i in 0..$r { for j in 0..$c { nest[i][j] = arr[i * $c + j]; } }
            fn w(o: &mut Out, s: &$name) { for i in 0..$r { for j in 0..$c { o.f(s.m[i][j]) } } }
            let s: $name = arr.into(); w(o, &s);
            let s: $name = nest.into(); w(o, &s);
            let p: &$name = (&arr).into(); w(o, p);
            let p: &$name = (&nest).into(); w(o, p);
            let b: [f32; $r * $c] = s.into(); for x in b { o.f(x) }
            let b: [[f32; $c]; $r] = s.into(); for x in b { for y in x { o.f(y) } }
            let b: &[f32; $r * $c] = (&s).into(); for x in b { o.f(*x) }
            let b: &[[f32; $c]; $r] = (&s).into(); for x in b { for y in x { o.f(*y) } }
            let b: &[f32; $r * $c] = s.as_ref(); for x in b { o.f(*x) }
            let b: &[[f32; $c]; $r] = s.as_ref(); for x in b { for y in x { o.f(*y) } }
            let mut q = $name::default(); { let b: &mut [f32; $r * $c] = q.as_mut(); b.copy_from_slice(&arr); } w(o, &q);
            let mut q = $name::default(); { let b: &mut [[f32; $c]; $r] = q.as_mut(); b.copy_from_slice(&nest); } w(o, &q);
        });
    };
}
fn main() {
    let mut t = Table::default();
    macro_rules! vv { ($n:expr, $op:tt, $as:tt, $f:ident) => { t.add($n, |a, o| { let x = a.v(); let y = a.v(); o.v((W(x) $op W(y)).0); let mut z = W(x); z $as W(y); o.v(z.0); o.v($f(x, y)) }); } }
    vv!("V+V", +, +=, XMVectorAdd); vv!("V-V", -, -=, XMVectorSubtract); vv!("V*V", *, *=, XMVectorMultiply); vv!("V/V", /, /=, XMVectorDivide);
    t.add("V*S", |a, o| { let x = a.v(); let s = a.f(); o.v((W(x) * s).0); o.v((s * W(x)).0); let mut z = W(x); z *= s; o.v(z.0); o.v(XMVectorScale(x, s)) });
    t.add("V/S", |a, o| { let x = a.v(); let s = a.f(); o.v((W(x) / s).0); let mut z = W(x); z /= s; o.v(z.0); o.v(XMVectorDivide(x, XMVectorReplicate(s))) });
    t.add("-V", |a, o| { let x = a.v(); o.v((-W(x)).0); o.v(XMVectorNegate(x)) });
    t.add("V==V", |a, o| { let x = a.v(); let y = a.v(); o.b(W(x) == W(y)); o.b(W(x) != W(y)) });
    t.add("VSet", |a, o| { let v = fl(a, 4); o.v(W::set(v[0], v[1], v[2], v[3]).0); let q = [v[0], v[1], v[2], v[3]]; o.v(W::from(&q).0);
        let mut z = W::set(0.0, 0.0, 0.0, 0.0); *z = XMVectorSet(v[0], v[1], v[2], v[3]); o.v(*z) });
    t.add("VDebug", |a, o| { let x = a.v(); for f in nums(&format!("{:?}", W(x))) { o.f(f) } });
    t.add("MDebug", |a, o| { let x = a.m(); for f in nums(&format!("{:?}", M(x))) { o.f(f) } for f in nums(&format!("{:?}", x)) { o.f(f) } });
    macro_rules! mm { ($n:expr, $op:tt, $as:tt) => { t.add($n, |a, o| { let x = a.m(); let y = a.m(); o.m((M(x) $op M(y)).0); let mut z = M(x); z $as M(y); o.m(z.0) }); } }
    mm!("M+M", +, +=); mm!("M-M", -, -=);
    t.add("M*M", |a, o| { let x = a.m(); let y = a.m(); o.m((M(x) * M(y)).0); let mut z = M(x); z *= M(y); o.m(z.0); o.m(XMMatrixMultiply(x, &y)) });
    t.add("M*S", |a, o| { let x = a.m(); let s = a.f(); o.m((M(x) * s).0); o.m((s * M(x)).0); let mut z = M(x); z *= s; o.m(z.0) });
    t.add("M/S", |a, o| { let x = a.m(); let s = a.f(); o.m((M(x) / s).0); let mut z = M(x); z /= s; o.m(z.0) });
    t.add("-M", |a, o| { let x = a.m(); o.m((-M(x)).0) });
    t.add("M==M", |a, o| { let x = a.m(); let y = a.m(); o.b(M(x) == M(y)); o.b(M(x) != M(y)) });
    t.add("MSet", |a, o| { let v = fl(a, 16); 
        o.m(M::set(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]).0);
        let mut q = [0f32; 16]; q.copy_from_slice(&v); let mut n = [[0f32; 4]; 4]; for i in 0..16 { n[i / 4][i % 4] = v[i]; }
        o.m(M::from(&q).0); o.m(M::from(&n).0);
        let mut d = M(XMMatrixIdentity()); *d = M::from(&q).0; o.m(*d);
        let b: [f32; 16] = d.into(); for x in b { o.f(x) }
        let b: [[f32; 4]; 4] = d.into(); for r in b { for x in r { o.f(x) } } });
    t.add("XMMin", |a, o| { let x = a.f(); let y = a.f(); o.f(XMMin(x, y)); o.f(XMMax(x, y)) });
    t.add("XMMinI", |a, o| { let x = a.i(); let y = a.i(); o.i(XMMin(x, y)); o.i(XMMax(x, y)); o.u(XMMin(x as u32, y as u32)); o.u(XMMax(x as u32, y as u32)) });
    strct!(t, 2, XMINT2, i32, i, i, x, y); strct!(t, 3, XMINT3, i32, i, i, x, y, z); strct!(t, 4, XMINT4, i32, i, i, x, y, z, w);
    strct!(t, 2, XMUINT2, u32, u, u, x, y); strct!(t, 3, XMUINT3, u32, u, u, x, y, z); strct!(t, 4, XMUINT4, u32, u, u, x, y, z, w);
    strct!(t, 2, XMFLOAT2, f32, f, f, x, y); strct!(t, 3, XMFLOAT3, f32, f, f, x, y, z); strct!(t, 4, XMFLOAT4, f32, f, f, x, y, z, w);
    mstrct!(t, XMFLOAT3X3, 3, 3); mstrct!(t, XMFLOAT4X3, 4, 3); mstrct!(t, XMFLOAT3X4, 3, 4); mstrct!(t, XMFLOAT4X4, 4, 4);
    // layout: a struct is exactly its words, in order, and 16-byte alignment where promised
    t.add("Layout", |_, o| { use std::mem::{align_of, size_of};
        for x in [size_of::<XMFLOAT2>(), size_of::<XMFLOAT3>(), size_of::<XMFLOAT4>(), size_of::<XMINT3>(), size_of::<XMUINT4>(), size_of::<XMFLOAT3X3>(), size_of::<XMFLOAT4X3>(), size_of::<XMFLOAT3X4>(),
                  size_of::<XMFLOAT4X4>(), size_of::<XMVECTOR>(), size_of::<XMMATRIX>(), size_of::<XMVector>(), size_of::<XMMatrix>(), align_of::<XMVECTOR>(), align_of::<XMMATRIX>(), align_of::<Align16<XMFLOAT3>>()] { o.u(x as u32) } });
    run(t)
}
