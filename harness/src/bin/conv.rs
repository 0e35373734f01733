#![allow(non_snake_case)]
use directx_math::*;
use dxharness::*;
use std::cell::RefCell;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
const PAGE: usize = 4096;
const CANARY: u32 = 0xC0DEC0DE;
thread_local!(static MID: RefCell<*mut u8> = RefCell::new(std::ptr::null_mut()));
/// start of an accessible page whose neighbours on both sides are inaccessible
fn page() -> *mut u8 {
    MID.with(|m| {
        let mut m = m.borrow_mut();
        if m.is_null() {
            unsafe {
                let p = mmap(std::ptr::null_mut(), 3 * PAGE, 3, 0x22, -1, 0);
                assert!(!p.is_null() && p as isize != -1);
                assert_eq!(mprotect(p, PAGE, 0), 0);
                assert_eq!(mprotect(p.add(2 * PAGE), PAGE, 0), 0);
                *m = p.add(PAGE);
            }
        }
        *m
    })
}
/// where n words go: 0 flush with the end of the page, 1 at its start, k>=2 inside at word offset k
fn place(how: u32, n: usize) -> *mut u32 {
    let p = page();
    unsafe {
        for i in 0..PAGE / 4 { (p as *mut u32).add(i).write_volatile(CANARY) }
        match how { 0 => p.add(PAGE - 4 * n) as *mut u32, 1 => p as *mut u32, k => (p as *mut u32).add(64 + k as usize) }
    }
}
/// four words before, the n words, four words after; inaccessible ones are reported untouched
fn window(o: &mut Out, how: u32, d: *mut u32, n: usize) {
    unsafe {
        for i in -4..(n as isize + 4) {
            let inside = i >= 0 && i < n as isize;
            let ok = inside || how >= 2 || (how == 0 && i < 0) || (how == 1 && i >= 0);
            o.u(if ok { d.offset(i).read_volatile() } else { CANARY })
        }
    }
}
macro_rules! load_v { ($t:ident, $n:expr, $($f:ident : $ty:ty),+) => { $( $t.add(stringify!($f), |a, o| { let how = a.u(); let d = place(how, $n); for i in 0..$n { unsafe { d.add(i).write(a.u()) } } let s: &$ty = unsafe { &*(d as *const $ty) }; o.v($f(s)); window(o, how, d, $n); }); )+ } }
macro_rules! load_m { ($t:ident, $n:expr, $($f:ident : $ty:ty),+) => { $( $t.add(stringify!($f), |a, o| { let how = a.u(); let d = place(how, $n); for i in 0..$n { unsafe { d.add(i).write(a.u()) } } let s: &$ty = unsafe { &*(d as *const $ty) }; o.m($f(s)); window(o, how, d, $n); }); )+ } }
macro_rules! store_v { ($t:ident, $n:expr, $($f:ident : $ty:ty),+) => { $( $t.add(stringify!($f), |a, o| { let how = a.u(); let v = a.v(); let d = place(how, $n); let s: &mut $ty = unsafe { &mut *(d as *mut $ty) }; $f(s, v); window(o, how, d, $n); }); )+ } }
macro_rules! store_m { ($t:ident, $n:expr, $($f:ident : $ty:ty),+) => { $( $t.add(stringify!($f), |a, o| { let how = a.u(); let m = a.m(); let d = place(how, $n); let s: &mut $ty = unsafe { &mut *(d as *mut $ty) }; $f(s, m); window(o, how, d, $n); }); )+ } }
fn main() {
    let mut t = Table::default();
    load_v!(t, 2, XMLoadInt2: [u32; 2], XMLoadFloat2: XMFLOAT2);
    load_v!(t, 3, XMLoadInt3: [u32; 3], XMLoadFloat3: XMFLOAT3);
    load_v!(t, 4, XMLoadInt4: [u32; 4], XMLoadFloat4: XMFLOAT4, XMLoadFloat3A: Align16<XMFLOAT3>, XMLoadFloat4A: Align16<XMFLOAT4>);
    load_m!(t, 9, XMLoadFloat3x3: XMFLOAT3X3);
    load_m!(t, 12, XMLoadFloat4x3: XMFLOAT4X3, XMLoadFloat3x4: XMFLOAT3X4);
    load_m!(t, 16, XMLoadFloat4x4: XMFLOAT4X4, XMLoadFloat4x4A: Align16<XMFLOAT4X4>);
    store_v!(t, 1, XMStoreFloat: f32);
    store_v!(t, 2, XMStoreInt2: [u32; 2], XMStoreFloat2: XMFLOAT2);
    store_v!(t, 3, XMStoreInt3: [u32; 3], XMStoreFloat3: XMFLOAT3);
    store_v!(t, 4, XMStoreInt4: [u32; 4], XMStoreFloat4: XMFLOAT4, XMStoreFloat4A: Align16<XMFLOAT4>, XMStoreFloat3A: Align16<XMFLOAT3>);
    store_m!(t, 9, XMStoreFloat3x3: XMFLOAT3X3);
    store_m!(t, 12, XMStoreFloat4x3: XMFLOAT4X3, XMStoreFloat3x4: XMFLOAT3X4);
    store_m!(t, 16, XMStoreFloat4x4: XMFLOAT4X4, XMStoreFloat4x4A: Align16<XMFLOAT4X4>);
    ops!(t; VU_V: XMConvertVectorIntToFloat XMConvertVectorFloatToInt XMConvertVectorUIntToFloat XMConvertVectorFloatToUInt;);
    t.add("XMConvertHalfToFloat", |a, o| { while a.left() > 0 { let h = a.u(); o.f(XMConvertHalfToFloat(h as u16)) } });
    t.add("XMConvertFloatToHalf", |a, o| { while a.left() > 0 { let f = a.f(); o.u(XMConvertFloatToHalf(f) as u32) } });
    run(t)
}
