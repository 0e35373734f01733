//! Replays scenarios (one API call per line, arguments as 32-bit words) into directx_math and
//! records the results.  It judges nothing: the TLA+ specification does.
#![allow(non_snake_case)]
use directx_math::*;
use std::collections::HashMap;
use std::io::{BufWriter, Write};

pub struct In<'a> { a: &'a [u32], p: usize }
impl<'a> In<'a> {
    pub fn u(&mut self) -> u32 { let x = self.a[self.p]; self.p += 1; std::hint::black_box(x) }
    pub fn i(&mut self) -> i32 { self.u() as i32 }
    pub fn z(&mut self) -> usize { self.u() as usize }
    pub fn f(&mut self) -> f32 { f32::from_bits(self.u()) }
    pub fn u4(&mut self) -> [u32; 4] { [self.u(), self.u(), self.u(), self.u()] }
    pub fn v(&mut self) -> XMVECTOR { let w = self.u4(); unsafe { std::mem::transmute(w) } }
    pub fn m(&mut self) -> XMMATRIX { XMMATRIX { r: [self.v(), self.v(), self.v(), self.v()] } }
    pub fn f3(&mut self) -> XMFLOAT3 { XMFLOAT3 { x: self.f(), y: self.f(), z: self.f() } }
    pub fn f4(&mut self) -> XMFLOAT4 { XMFLOAT4 { x: self.f(), y: self.f(), z: self.f(), w: self.f() } }
    pub fn rest(&mut self) -> &'a [u32] { let r = &self.a[self.p..]; self.p = self.a.len(); r }
    pub fn left(&self) -> usize { self.a.len() - self.p }
}
pub struct Out { r: Vec<u32> }
impl Out {
    pub fn new() -> Out { Out { r: Vec::new() } }
    pub fn u(&mut self, x: u32) { self.r.push(x) }
    pub fn i(&mut self, x: i32) { self.r.push(x as u32) }
    pub fn b(&mut self, x: bool) { self.r.push(x as u32) }
    pub fn f(&mut self, x: f32) { self.r.push(x.to_bits()) }
    pub fn v(&mut self, x: XMVECTOR) { let w: [u32; 4] = unsafe { std::mem::transmute(x) }; self.r.extend_from_slice(&w) }
    pub fn m(&mut self, x: XMMATRIX) { unsafe { for i in 0..4 { self.v(x.r[i]) } } }
    pub fn f3(&mut self, x: XMFLOAT3) { self.f(x.x); self.f(x.y); self.f(x.z) }
    pub fn f4(&mut self, x: XMFLOAT4) { self.f(x.x); self.f(x.y); self.f(x.z); self.f(x.w) }
}
pub type Op = fn(&mut In, &mut Out);
#[derive(Default)]
pub struct Table { t: HashMap<&'static str, Op> }
impl Table {
    pub fn add(&mut self, n: &'static str, f: Op) { assert!(self.t.insert(n, f).is_none(), "duplicate op {}", n) }
    /// one call, for operations made of calls
    pub fn call(&self, n: &str, args: &[u32]) -> Vec<u32> {
        let mut i = In { a: args, p: 0 };
        let mut o = Out { r: Vec::with_capacity(32) };
        (self.t[n])(&mut i, &mut o);
        assert!(i.p == args.len(), "op {} consumed {} of {} words", n, i.p, args.len());
        o.r
    }
}
pub fn vnan() -> XMVECTOR { unsafe { std::mem::transmute([0xFFEEDDCCu32; 4]) } }

/// `ops!(table; VV_V: XMVectorAdd XMVectorSubtract; V_V: ...)`
#[macro_export]
macro_rules! ops {
    ($t:ident; $( $sig:ident : $($f:ident)+ );* $(;)?) => { $( $( $t.add(stringify!($f), |a, o| { $crate::call!($sig, $f, a, o); let _ = (&a, &o); }); )+ )* };
}
#[macro_export]
macro_rules! call {
    (_V, $f:ident, $a:ident, $o:ident) => { $o.v($f()) };
    (V_V, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); $o.v($f(x)) };
    (VV_V, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.v(); $o.v($f(x, y)) };
    (VVV_V, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.v(); let z = $a.v(); $o.v($f(x, y, z)) };
    (VVVV_V, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.v(); let z = $a.v(); let w = $a.v(); $o.v($f(x, y, z, w)) };
    (VVVVV_V, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.v(); let z = $a.v(); let w = $a.v(); let q = $a.v(); $o.v($f(x, y, z, w, q)) };
    (VF_V, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.f(); $o.v($f(x, y)) };
    (VFF_V, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.f(); let z = $a.f(); $o.v($f(x, y, z)) };
    (VVF_V, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.v(); let z = $a.f(); $o.v($f(x, y, z)) };
    (VVVFF_V, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.v(); let z = $a.v(); let s = $a.f(); let t = $a.f(); $o.v($f(x, y, z, s, t)) };
    (VVVVF_V, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.v(); let z = $a.v(); let w = $a.v(); let t = $a.f(); $o.v($f(x, y, z, w, t)) };
    (VU_V, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.u(); $o.v($f(x, y)) };
    (VVU_V, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.v(); let z = $a.u(); $o.v($f(x, y, z)) };
    (UUUU_V, $f:ident, $a:ident, $o:ident) => { let x = $a.u(); let y = $a.u(); let z = $a.u(); let w = $a.u(); $o.v($f(x, y, z, w)) };
    (FFFF_V, $f:ident, $a:ident, $o:ident) => { let x = $a.f(); let y = $a.f(); let z = $a.f(); let w = $a.f(); $o.v($f(x, y, z, w)) };
    (FFF_V, $f:ident, $a:ident, $o:ident) => { let x = $a.f(); let y = $a.f(); let z = $a.f(); $o.v($f(x, y, z)) };
    (F_V, $f:ident, $a:ident, $o:ident) => { let x = $a.f(); $o.v($f(x)) };
    (U_V, $f:ident, $a:ident, $o:ident) => { let x = $a.u(); $o.v($f(x)) };
    (I_V, $f:ident, $a:ident, $o:ident) => { let x = $a.i(); $o.v($f(x)) };
    (IU_V, $f:ident, $a:ident, $o:ident) => { let x = $a.i(); let y = $a.u(); $o.v($f(x, y)) };
    (V_F, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); $o.f($f(x)) };
    (VZ_F, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.z(); $o.f($f(x, y)) };
    (V_U, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); $o.u($f(x)) };
    (VZ_U, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.z(); $o.u($f(x, y)) };
    (V_PF, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let mut r = f32::from_bits(0x12345678); $f(&mut r, x); $o.f(r) };
    (VFZ_V, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.f(); let z = $a.z(); $o.v($f(x, y, z)) };
    (VUZ_V, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.u(); let z = $a.z(); $o.v($f(x, y, z)) };
    (V_B, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); $o.b($f(x)) };
    (VV_B, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.v(); $o.b($f(x, y)) };
    (VVV_B, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.v(); let z = $a.v(); $o.b($f(x, y, z)) };
    (VV_U, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.v(); $o.u($f(x, y)) };
    (VV_CRV, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.v(); let mut c = 0xDEADBEEFu32; let v = $f(&mut c, x, y); $o.u(c); $o.v(v) };
    (U_B, $f:ident, $a:ident, $o:ident) => { let x = $a.u(); $o.b($f(x)) };
    (F_F, $f:ident, $a:ident, $o:ident) => { let x = $a.f(); $o.f($f(x)) };
    (FFF_B, $f:ident, $a:ident, $o:ident) => { let x = $a.f(); let y = $a.f(); let z = $a.f(); $o.b($f(x, y, z)) };
    (F_FF, $f:ident, $a:ident, $o:ident) => { let x = $a.f(); let mut p = 9e9f32; let mut q = 9e9f32; $f(&mut p, &mut q, x); $o.f(p); $o.f(q) };
    (V_VV, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let mut p = $crate::vnan(); let mut q = $crate::vnan(); $f(&mut p, &mut q, x); $o.v(p); $o.v(q) };
    (VV_VV, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.v(); let mut p = $crate::vnan(); let mut q = $crate::vnan(); $f(&mut p, &mut q, x, y); $o.v(p); $o.v(q) };
    (VVVV_VVV, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.v(); let z = $a.v(); let w = $a.v(); let mut p = $crate::vnan(); let mut q = $crate::vnan(); let mut r = $crate::vnan(); $f(&mut p, &mut q, &mut r, x, y, z, w); $o.v(p); $o.v(q); $o.v(r) };
    (VM_V, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let m = $a.m(); $o.v($f(x, m)) };
    (M_V, $f:ident, $a:ident, $o:ident) => { let m = $a.m(); $o.v($f(m)) };
    (M_B, $f:ident, $a:ident, $o:ident) => { let m = $a.m(); $o.b($f(m)) };
    (M_M, $f:ident, $a:ident, $o:ident) => { let m = $a.m(); $o.m($f(m)) };
    (MM_M, $f:ident, $a:ident, $o:ident) => { let m = $a.m(); let n = $a.m(); $o.m($f(m, &n)) };
    (VV_M, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.v(); $o.m($f(x, y)) };
    (VVV_M, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.v(); let z = $a.v(); $o.m($f(x, y, z)) };
    (V_M, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); $o.m($f(x)) };
    (VF_M, $f:ident, $a:ident, $o:ident) => { let x = $a.v(); let y = $a.f(); $o.m($f(x, y)) };
    (_M, $f:ident, $a:ident, $o:ident) => { $o.m($f()) };
    (F_M, $f:ident, $a:ident, $o:ident) => { let x = $a.f(); $o.m($f(x)) };
    (FFF_M, $f:ident, $a:ident, $o:ident) => { let x = $a.f(); let y = $a.f(); let z = $a.f(); $o.m($f(x, y, z)) };
    (FFFF_M, $f:ident, $a:ident, $o:ident) => { let x = $a.f(); let y = $a.f(); let z = $a.f(); let w = $a.f(); $o.m($f(x, y, z, w)) };
    (FFFFFF_M, $f:ident, $a:ident, $o:ident) => { let x = $a.f(); let y = $a.f(); let z = $a.f(); let w = $a.f(); let p = $a.f(); let q = $a.f(); $o.m($f(x, y, z, w, p, q)) };
}

/// The history before a recorded call: the same operation with one or two large words of its arguments
/// changed (sign, exponent or last bits of one, two exchanged, one infinite or no number), with all
/// of them zero, or no such call at all.  Its result is not recorded; the
/// specification judges the recorded call, whose result has to be a function of its own arguments
/// whatever was called before it.  Small words (indices, counts, offsets) are left alone.
fn neighbour(line: usize, words: &[u32]) -> Option<Vec<u32>> {
    let n = words.len();
    let h = line.wrapping_mul(2654435761) >> 7;
    let large = |from: usize| (0..n).map(|j| (from + j) % n).find(|&j| words[j] & 0x7FFF_FFFF >= 0x0080_0000);
    let k = large(h)?;
    let mut v = words.to_vec();
    match (h >> 8) & 15 {
        0..=4 => v[k] ^= 0x8000_0000,
        5 | 6 => v[k] ^= 0x0080_0000,
        7 | 8 => v[k] ^= 1 + ((h >> 12) & 0x3F) as u32,
        9 | 10 => { let q = large(k + 1)?; v.swap(k, q) }
        11 | 12 => for w in v.iter_mut() { if *w & 0x7FFF_FFFF >= 0x0080_0000 { *w = 0 } },
        13 => v[k] = if h >> 12 & 1 == 0 { 0x7FC0_0000 } else { 0x7F80_0000 },
        _ => return None,
    }
    Some(v)
}

/// argv: SCENARIOS OUT START [flush]; one result line per scenario line from START on:
/// words as signed decimals, or "P" for a panic.
pub fn run(t: Table) { replay(t, true) }
pub fn replay(t: Table, history: bool) {
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).expect("scenarios");
    let start: usize = args[3].parse().unwrap();
    let flush = args.len() > 4;
    let file = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).expect("out");
    let mut w = BufWriter::with_capacity(1 << 20, file);
    if std::env::var_os("VERIF_PANIC").is_none() { std::panic::set_hook(Box::new(|_| {})); }
    let mut words: Vec<u32> = Vec::with_capacity(128);
    for (number, line) in text.lines().enumerate().skip(start) {
        let mut it = line.split(' ');
        let name = it.next().unwrap();
        words.clear();
        for s in it { words.push(s.parse::<i64>().unwrap() as u32); }
        let f = match t.t.get(name) { Some(f) => *f, None => { eprintln!("unknown op {}", name); std::process::exit(3) } };
        let ws = &words;
        if history {
            if let Some(v) = neighbour(number, ws) {
                let _ = std::panic::catch_unwind(move || { let mut o = Out { r: Vec::with_capacity(16) }; f(&mut In { a: &v, p: 0 }, &mut o); std::hint::black_box(&o.r); });
            }
        }
        let r = std::panic::catch_unwind(move || {
            let mut i = In { a: ws, p: 0 };
            let mut o = Out { r: Vec::with_capacity(16) };
            f(&mut i, &mut o);
            (o.r, i.p)
        });
        match r {
            Ok((r, p)) => {
                if p != words.len() { eprintln!("op {} consumed {} of {} words", name, p, words.len()); std::process::exit(3) }
                let mut s = String::with_capacity(16 * r.len());
                for (k, x) in r.iter().enumerate() { if k > 0 { s.push(' '); } s.push_str(&(*x as i32).to_string()); }
                s.push('\n');
                w.write_all(s.as_bytes()).unwrap();
            }
            Err(_) => w.write_all(b"P\n").unwrap(),
        }
        if flush { w.flush().unwrap(); }
    }
    w.flush().unwrap();
}
