//! Shared helpers: element encoding, JSON output, panic capture.
#![allow(dead_code)]
use faster::vecs::{Packable, Packed};
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Logged in place of a value which no program of the harness can produce.
pub const JUNK: i64 = 987_654_321;

/// A scalar which can be logged as a small integer.
pub trait Elt: Packable + 'static {
    const NAME: &'static str;
    const SIGNED: bool;
    fn enc(x: i64) -> Self;
    fn dec(self) -> i64;
}

macro_rules! elt_int { ($($t:ty, $n:expr, $s:expr);*) => { $(
    impl Elt for $t {
        const NAME: &'static str = $n;
        const SIGNED: bool = $s;
        fn enc(x: i64) -> Self { x as $t }
        fn dec(self) -> i64 {
            let v = self as i128;
            if v > 2_147_483_647 || v < -2_147_483_647 { JUNK } else { v as i64 }
        }
    } )* } }
elt_int!(u8, "u8", false; i8, "i8", true; u16, "u16", false; i16, "i16", true;
         u32, "u32", false; i32, "i32", true; u64, "u64", false; i64, "i64", true);

macro_rules! elt_float { ($($t:ty, $n:expr);*) => { $(
    impl Elt for $t {
        const NAME: &'static str = $n;
        const SIGNED: bool = true;
        fn enc(x: i64) -> Self { x as $t }
        fn dec(self) -> i64 {
            if self != self || self > 1.0e9 || self < -1.0e9 { return JUNK; }
            let r = self as i64;
            if r as $t == self { r } else { JUNK }
        }
    } )* } }
elt_float!(f32, "f32"; f64, "f64");

/// Element `i` of a test collection, and lane `j` of a test default vector.
/// `salt` tells the streams of a zip apart.
pub fn data_val<T: Elt>(i: usize, salt: usize) -> T { T::enc(((i + 7 * salt) % 95 + 1) as i64) }
pub fn def_val<T: Elt>(j: usize, salt: usize) -> T {
    let j = ((j + 3 * salt) % 32) as i64;
    if T::SIGNED { T::enc(-(j + 1)) } else { T::enc(127 - j) }
}
pub fn def_vec<T: Elt>(salt: usize) -> T::Vector {
    let mut v = T::Vector::default();
    for j in 0..T::Vector::WIDTH { v = v.replace(j, def_val::<T>(j, salt)); }
    v
}
pub fn lanes<V: Packed>(v: V) -> Vec<i64> where V::Scalar: Elt {
    (0..V::WIDTH).map(|i| v.extract(i).dec()).collect()
}
/// The scalars of `v`, through memory rather than through `extract`.
pub fn lanes_raw<V: Packed>(v: V) -> Vec<i64> where V::Scalar: Elt {
    assert_eq!(std::mem::size_of::<V>(), V::WIDTH * std::mem::size_of::<V::Scalar>());
    let p = &v as *const V as *const V::Scalar;
    (0..V::WIDTH).map(|i| unsafe { std::ptr::read_unaligned(p.add(i)) }.dec()).collect()
}
pub fn vec_raw<V: Packed>(l: &[V::Scalar]) -> V {
    assert_eq!(std::mem::size_of::<V>(), l.len() * std::mem::size_of::<V::Scalar>());
    unsafe { std::ptr::read_unaligned(l.as_ptr() as *const V) }
}

pub fn js(out: &mut String, v: &[i64]) {
    out.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 { out.push(','); }
        write!(out, "{}", x).unwrap();
    }
    out.push(']');
}
pub fn jss(out: &mut String, v: &[Vec<i64>]) {
    out.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 { out.push(','); }
        js(out, x);
    }
    out.push(']');
}

/// Run `f`; a panic is data, not an error.
pub fn guarded<R, F: FnOnce() -> R>(f: F) -> Option<R> { catch_unwind(AssertUnwindSafe(f)).ok() }
pub fn quiet_panics() { std::panic::set_hook(Box::new(|_| {})); }
