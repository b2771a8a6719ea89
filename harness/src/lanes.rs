//! The vector operations of the library, each as a function on bytes.
use faster::*;
use faster::vecs::*;
use faster::arch::current::vecs::*;

pub trait Same { type S: Copy; }
fn vget<V: Copy>(b: &[u8]) -> V {
    assert_eq!(b.len(), std::mem::size_of::<V>(), "operand size");
    unsafe { std::ptr::read_unaligned(b.as_ptr() as *const V) }
}
pub fn bytes<V: Copy>(v: V) -> Vec<u8> {
    let n = std::mem::size_of::<V>();
    let mut out = vec![0u8; n];
    unsafe { std::ptr::copy_nonoverlapping(&v as *const V as *const u8, out.as_mut_ptr(), n); }
    out
}
/// Lane 0 of the vector given as an operand, without going through the library.
fn sget<S: Copy>(b: &[u8]) -> S { unsafe { std::ptr::read_unaligned(b.as_ptr() as *const S) } }

/// What a call returned: vectors or scalars as bytes, and a number.
pub struct Out(pub Vec<Vec<u8>>, pub i64);
fn v1<V: Copy>(v: V) -> Out { Out(vec![bytes(v)], 0) }
fn v2<V: Copy>(p: (V, V)) -> Out { Out(vec![bytes(p.0), bytes(p.1)], 0) }
fn v4<V: Copy>(p: (V, V, V, V)) -> Out { Out(vec![bytes(p.0), bytes(p.1), bytes(p.2), bytes(p.3)], 0) }

pub type Fun = fn(&[Vec<u8>], usize) -> Out;
pub struct Entry(pub &'static str, pub &'static str, pub Fun);

// ---- one macro per kind of operation; each yields table entries ----
macro_rules! unary { ($tab:ident; $op:expr, $f:expr; $($v:ident)*) => { $(
    $tab.push(Entry($op, stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1($f(&x)) })); )* } }
macro_rules! binary { ($tab:ident; $op:expr, $f:expr; $($v:ident)*) => { $(
    $tab.push(Entry($op, stringify!($v), |a, _| { let x: $v = vget(&a[0]); let y: $v = vget(&a[1]); v1($f(&x, y)) })); )* } }

#[inline(never)]
fn patterns(tab: &mut Vec<Entry>) {
    macro_rules! p { ($($v:ident)*) => { $(
        tab.push(Entry("halfs", stringify!($v), |a, _| { type S = <$v as Packed>::Scalar; v1(<$v as Pattern>::halfs(sget::<S>(&a[0]), sget::<S>(&a[1]))) }));
        tab.push(Entry("interleave", stringify!($v), |a, _| { type S = <$v as Packed>::Scalar; v1(<$v as Pattern>::interleave(sget::<S>(&a[0]), sget::<S>(&a[1]))) }));
        tab.push(Entry("partition", stringify!($v), |a, n| { type S = <$v as Packed>::Scalar; v1(<$v as Pattern>::partition(sget::<S>(&a[0]), sget::<S>(&a[1]), n)) }));
        tab.push(Entry("partition_mask", stringify!($v), |_, n| v1(<$v as Pattern>::partition_mask(n))));
        tab.push(Entry("ones", stringify!($v), |_, _| v1(<$v as Pattern>::ones())));
        tab.push(Entry("zeroes", stringify!($v), |_, _| v1(<$v as Pattern>::zeroes())));
        tab.push(Entry("merge_halves", stringify!($v), |a, _| { let x: $v = vget(&a[0]); let y: $v = vget(&a[1]); v1(Merge::merge_halves(&x, y)) }));
        tab.push(Entry("merge_interleaved", stringify!($v), |a, _| { let x: $v = vget(&a[0]); let y: $v = vget(&a[1]); v1(Merge::merge_interleaved(&x, y)) }));
        tab.push(Entry("merge_partitioned", stringify!($v), |a, n| { let x: $v = vget(&a[0]); let y: $v = vget(&a[1]); v1(Merge::merge_partitioned(&x, y, n)) }));
        tab.push(Entry("splat", stringify!($v), |a, _| { type S = <$v as Packed>::Scalar; v1(<$v as Packed>::splat(sget::<S>(&a[0]))) }));
        tab.push(Entry("default", stringify!($v), |_, _| v1(<$v as Packed>::default())));
    )* } }
    p!(u8x16 u8x32 u8x64 i8x16 i8x32 i8x64 u16x8 u16x16 u16x32 i16x8 i16x16 i16x32 u32x4 u32x8 u32x16 i32x4 i32x8 i32x16
       u64x2 u64x4 u64x8 i64x2 i64x4 i64x8 f32x4 f32x8 f32x16 f64x2 f64x4 f64x8);
}

/// A call which may refuse: what it returned, and whether it panicked.
fn refusing(f: impl FnOnce() -> Vec<u8>) -> Out {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(v) => Out(vec![v], 0), Err(_) => Out(vec![], 1) }
}
/// The first two operands, one after the other, as elements.
fn elements<V: Packed>(a: &[Vec<u8>]) -> Vec<V::Scalar> {
    let mut v = Vec::with_capacity(2 * V::WIDTH);
    for x in &a[..2] { for c in x.chunks(x.len() / V::WIDTH) { v.push(sget::<V::Scalar>(c)); } }
    v
}
fn all_bytes<S: Copy>(v: &[S]) -> Vec<u8> { v.iter().flat_map(|x| bytes(*x)).collect() }
fn storing<V: Packed>(a: &[Vec<u8>], f: fn(V, &mut [V::Scalar], usize), n: usize) -> Out {
    let mut b = elements::<V>(a);
    let x: V = vget(&a[2]);
    let r = refusing(|| { f(x, &mut b, n); vec![] });
    Out(vec![all_bytes(&b)], r.1)
}

#[inline(never)]
fn memory(tab: &mut Vec<Entry>) {
    macro_rules! m { ($($v:ident)*) => { $(
        tab.push(Entry("load", stringify!($v), |a, n| { let b = elements::<$v>(a); refusing(|| bytes(<$v as Packed>::load(&b, n))) }));
        tab.push(Entry("uload", stringify!($v), |a, n| { let b = elements::<$v>(a); refusing(|| bytes(unsafe { <$v as Packed>::load_unchecked(&b, n) })) }));
        tab.push(Entry("store", stringify!($v), |a, n| storing::<$v>(a, |x, b, n| Packed::store(x, b, n), n)));
        tab.push(Entry("ustore", stringify!($v), |a, n| storing::<$v>(a, |x, b, n| unsafe { Packed::store_unchecked(x, b, n) }, n)));
        tab.push(Entry("extract", stringify!($v), |a, n| { let x: $v = vget(&a[0]); refusing(|| bytes(Packed::extract(&x, n))) }));
        tab.push(Entry("uextract", stringify!($v), |a, n| { let x: $v = vget(&a[0]); refusing(|| bytes(unsafe { Packed::extract_unchecked(&x, n) })) }));
        tab.push(Entry("replace", stringify!($v), |a, n| { let mut x: $v = vget(&a[0]); let y = sget(&a[1]); refusing(|| bytes(Packed::replace(&mut x, n, y))) }));
        tab.push(Entry("ureplace", stringify!($v), |a, n| { let mut x: $v = vget(&a[0]); let y = sget(&a[1]); refusing(|| bytes(unsafe { Packed::replace_unchecked(&mut x, n, y) })) }));
    )* } }
    m!(u8x16 u8x32 u8x64 i8x16 i8x32 i8x64 u16x8 u16x16 u16x32 i16x8 i16x16 i16x32 u32x4 u32x8 u32x16 i32x4 i32x8 i32x16
       u64x2 u64x4 u64x8 i64x2 i64x4 i64x8 f32x4 f32x8 f32x16 f64x2 f64x4 f64x8);
}

#[inline(never)]
fn arith(tab: &mut Vec<Entry>) {
    unary!(tab; "abs", Abs::abs; i8x16 i8x32 i16x8 i16x16 i32x4 i32x8 i64x2 i64x4 i64x8 f32x4 f32x8 f64x2 f64x4);
    binary!(tab; "min", |x: &_, y| Cmp::min(x, y); u8x16 u8x32 i8x16 i8x32 u16x8 u16x16 i16x8 i16x16 u32x4 u32x8 i32x4 i32x8 f32x4 f32x8 f64x2 f64x4);
    binary!(tab; "max", |x: &_, y| Cmp::max(x, y); u8x16 u8x32 i8x16 i8x32 u16x8 u16x16 i16x8 i16x16 u32x4 u32x8 i32x4 i32x8 f32x4 f32x8 f64x2 f64x4);
    binary!(tab; "saturating_add", |x: &_, y| SaturatingAdd::saturating_add(x, y); u8x16 u8x32 i8x16 i8x32 u16x8 u16x16 i16x8 i16x16);
    binary!(tab; "saturating_sub", |x: &_, y| SaturatingSub::saturating_sub(x, y); u8x16 u8x32 i8x16 i8x32 u16x8 u16x16 i16x8 i16x16);
}

#[inline(never)]
fn horizontal(tab: &mut Vec<Entry>) {
    macro_rules! h { ($($v:ident)*) => { $(
        tab.push(Entry("hadd", stringify!($v), |a, _| { let x: $v = vget(&a[0]); let y: $v = vget(&a[1]); v1(HAdd::hadd(&x, y)) }));
        tab.push(Entry("hsub", stringify!($v), |a, _| { let x: $v = vget(&a[0]); let y: $v = vget(&a[1]); v1(HSub::hsub(&x, y)) }));
    )* } }
    macro_rules! s { ($($v:ident)*) => { $(
        tab.push(Entry("saturating_hadd", stringify!($v), |a, _| { let x: $v = vget(&a[0]); let y: $v = vget(&a[1]); v1(SaturatingHAdd::saturating_hadd(&x, y)) }));
        tab.push(Entry("saturating_hsub", stringify!($v), |a, _| { let x: $v = vget(&a[0]); let y: $v = vget(&a[1]); v1(SaturatingHSub::saturating_hsub(&x, y)) }));
    )* } }
    h!(u8x16 u8x32 u8x64 i8x16 i8x32 i8x64 u16x8 u16x16 u16x32 i16x8 i16x16 i16x32 u32x4 u32x8 u32x16 i32x4 i32x8 i32x16
       u64x2 u64x4 u64x8 i64x2 i64x4 i64x8 f32x4 f32x8 f32x16 f64x2 f64x4 f64x8);
    s!(u8x16 u8x32 u8x64 i8x16 i8x32 i8x64 u16x8 u16x16 u16x32 i16x8 i16x16 i16x32 u32x4 u32x8 u32x16 i32x4 i32x8 i32x16
       u64x2 u64x4 u64x8 i64x2 i64x4 i64x8);
}

#[inline(never)]
fn casts(tab: &mut Vec<Entry>) {
    macro_rules! up { ($($v:ident $t:ident),*) => { $(
        tab.push(Entry(concat!("upcast.", stringify!($t)), stringify!($v), |a, _| { let x: $v = vget(&a[0]); v2(Upcast::<$t>::upcast(x)) }));
    )* } }
    up!(u8x16 u16x8, i8x16 i16x8, u16x8 u32x4, i16x8 i32x4, u8x32 u16x16, i8x32 i16x16, u16x16 u32x8, i16x16 i32x8,
        f32x4 f64x2, i32x4 f64x2, i32x4 i64x2, u32x4 u64x2, f32x8 f64x4, i32x8 f64x4, i32x8 i64x4, u32x8 u64x4,
        f32x16 f64x8, i32x16 f64x8, i32x16 i64x8, u32x16 u64x8);
    macro_rules! down { ($($v:ident $t:ident),*) => { $(
        tab.push(Entry(concat!("saturating_downcast.", stringify!($t)), stringify!($v), |a, _| {
            let x: $v = vget(&a[0]); let y: $v = vget(&a[1]); v1(Downcast::<$t>::saturating_downcast(x, y)) }));
    )* } }
    down!(i32x4 i16x8, i64x2 i32x4, u64x2 u32x4, f64x2 f32x4, i16x8 i8x16, u32x4 u16x8, u16x8 u8x16,
          i32x8 i16x16, i16x16 i8x32, u32x8 u16x16, u16x16 u8x32, i64x4 i32x8, u64x4 u32x8, f64x4 f32x8);
    macro_rules! updown { ($($v:ident $t:ident),*) => { $(
        tab.push(Entry(concat!("updown.", stringify!($t)), stringify!($v), |a, _| {
            let x: $v = vget(&a[0]); let (p, q) = Upcast::<$t>::upcast(x); v1(Downcast::<$v>::saturating_downcast(p, q)) }));
    )* } }
    updown!(u8x16 u16x8, i8x16 i16x8, u16x8 u32x4, i16x8 i32x4, u8x32 u16x16, i8x32 i16x16, u16x16 u32x8, i16x16 i32x8,
            f32x4 f64x2, i32x4 i64x2, u32x4 u64x2, f32x8 f64x4, i32x8 i64x4, u32x8 u64x4);
}

#[inline(never)]
fn masks(tab: &mut Vec<Entry>) {
    macro_rules! e { ($($v:ident)*) => { $(
        tab.push(Entry("eq_mask", stringify!($v), |a, _| { let x: $v = vget(&a[0]); let y: $v = vget(&a[1]); v1(faster::Eq::eq_mask(&x, y)) }));
        tab.push(Entry("ne_mask", stringify!($v), |a, _| { let x: $v = vget(&a[0]); let y: $v = vget(&a[1]); v1(faster::Eq::ne_mask(&x, y)) }));
    )* } }
    e!(u8x16 u8x32 i8x16 i8x32 u16x8 u16x16 i16x8 i16x16 u32x4 u32x8 i32x4 i32x8 u64x2 u64x4 i64x2 i64x4 f32x4 f32x8 f64x2 f64x4);
}

#[inline(never)]
fn bits(tab: &mut Vec<Entry>) {
    macro_rules! b { ($($v:ident)*) => { $(
        tab.push(Entry("be_u8s", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(Transmute::be_u8s(&x)) }));
        tab.push(Entry("be_i8s", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(Transmute::be_i8s(&x)) }));
        tab.push(Entry("be_u16s", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(Transmute::be_u16s(&x)) }));
        tab.push(Entry("be_i16s", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(Transmute::be_i16s(&x)) }));
        tab.push(Entry("be_u32s", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(Transmute::be_u32s(&x)) }));
        tab.push(Entry("be_i32s", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(Transmute::be_i32s(&x)) }));
        tab.push(Entry("be_u64s", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(Transmute::be_u64s(&x)) }));
        tab.push(Entry("be_i64s", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(Transmute::be_i64s(&x)) }));
        tab.push(Entry("be_f32s_unchecked", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(unsafe { Transmute::be_f32s_unchecked(&x) }) }));
        tab.push(Entry("be_f64s_unchecked", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(unsafe { Transmute::be_f64s_unchecked(&x) }) }));
    )* } }
    b!(u8x16 u8x32 u8x64 i8x16 i8x32 i8x64 u16x8 u16x16 u16x32 i16x8 i16x16 i16x32 u32x4 u32x8 u32x16 i32x4 i32x8 i32x16
       u64x2 u64x4 u64x8 i64x2 i64x4 i64x8 f32x4 f32x8 f32x16 f64x2 f64x4 f64x8);
    macro_rules! c { ($($v:ident)*) => { $(
        tab.push(Entry("count_ones", stringify!($v), |a, _| { let x: $v = vget(&a[0]); Out(vec![], Popcnt::count_ones(&x) as i64) }));
        tab.push(Entry("count_zeroes", stringify!($v), |a, _| { let x: $v = vget(&a[0]); Out(vec![], Popcnt::count_zeroes(&x) as i64) }));
        tab.push(Entry("swap_bytes", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(Reendianize::swap_bytes(&x)) }));
        tab.push(Entry("to_be", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(Reendianize::to_be(&x)) }));
        tab.push(Entry("to_le", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(Reendianize::to_le(&x)) }));
        tab.push(Entry("from_be", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(Reendianize::from_be(&x)) }));
        tab.push(Entry("from_le", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(Reendianize::from_le(&x)) }));
    )* } }
    c!(u8x16 u8x32 u8x64 i8x16 i8x32 i8x64 u16x8 u16x16 u16x32 i16x8 i16x16 i16x32 u32x4 u32x8 u32x16 i32x4 i32x8 i32x16
       u64x2 u64x4 u64x8 i64x2 i64x4 i64x8);
}

#[inline(never)]
fn folds(tab: &mut Vec<Entry>) {
    macro_rules! f { ($($v:ident)*) => { $(
        tab.push(Entry("sum", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(Sum::sum(&x)) }));
        tab.push(Entry("sum_upcast", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(UpcastSum::sum_upcast(&x)) }));
        tab.push(Entry("product", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(Packed::product(&x)) }));
        tab.push(Entry("scalar_reduce", stringify!($v), |a, _| { let x: $v = vget(&a[0]);
            let r = Packed::scalar_reduce(&x, Vec::new(), |mut acc: Vec<u8>, s| { acc.extend(bytes(s)); acc }); Out(vec![r], 0) }));
        tab.push(Entry("coalesce", stringify!($v), |a, _| { let x: $v = vget(&a[0]); v1(Packed::coalesce(x)) }));
    )* } }
    f!(u8x16 u8x32 u8x64 i8x16 i8x32 i8x64 u16x8 u16x16 u16x32 i16x8 i16x16 i16x32 u32x4 u32x8 u32x16 i32x4 i32x8 i32x16
       u64x2 u64x4 u64x8 i64x2 i64x4 i64x8 f32x4 f32x8 f32x16 f64x2 f64x4 f64x8);
}

#[inline(never)]
fn misc(tab: &mut Vec<Entry>) {
    macro_rules! d { ($($v:ident)*) => { $(
        tab.push(Entry("destride_two", stringify!($v), |a, _| { let x: $v = vget(&a[0]); let y: $v = vget(&a[1]); v2(Destride::destride_two(x, y)) }));
        tab.push(Entry("destride_four", stringify!($v), |a, _| {
            let x: $v = vget(&a[0]); let y: $v = vget(&a[1]); let z: $v = vget(&a[2]); let w: $v = vget(&a[3]); v4(Destride::destride_four(x, y, z, w)) }));
    )* } }
    d!(u8x16 u8x32 i8x16 i8x32 u16x8 u16x16 i16x8 i16x16 u32x4 u32x8 i32x4 i32x8);
    unary!(tab; "floor", Round::floor; f32x4 f32x8 f64x2 f64x4);
    unary!(tab; "ceil", Round::ceil; f32x4 f32x8 f64x2 f64x4);
    unary!(tab; "trunc", Round::trunc; f32x4 f32x8 f64x2 f64x4);
    unary!(tab; "round", Round::round; f32x4 f32x8 f64x2 f64x4);
    unary!(tab; "recip", Recip::recip; f32x4 f32x8);
    unary!(tab; "rsqrt", Rsqrt::rsqrt; f32x4 f32x8);
    unary!(tab; "sqrt", faster::intrin::sqrt::Sqrt::sqrt; f32x4 f32x8 f64x2 f64x4);
    // the same on scalars, lane by lane
    macro_rules! each { ($x:ident, $v:ident, $f:expr) => { {
        let mut y = $x;
        for i in 0..<$v as Packed>::WIDTH { let z: f32 = $f(Packed::extract(&$x, i)); y = Packed::replace(&mut y, i, z); }
        v1(y) } } }
    tab.push(Entry("rsqrt.f32x1", "f32x4", |a, _| { let x: f32x4 = vget(&a[0]); each!(x, f32x4, |z: f32| Rsqrt::rsqrt(&z)) }));
    tab.push(Entry("rsqrt.f64x1", "f32x4", |a, _| { let x: f32x4 = vget(&a[0]); each!(x, f32x4, |z: f32| Rsqrt::rsqrt(&(z as f64)) as f32) }));
}

/// Bytes of a vector type, from its name.
pub fn size(t: &str) -> usize {
    let k = t.find('x').unwrap();
    t[1..k].parse::<usize>().unwrap() / 8 * t[k + 1..].parse::<usize>().unwrap()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

/// Every operation: its name, its vector type and how to run it.
pub fn table() -> Vec<Entry> {
    let mut tab: Vec<Entry> = Vec::new();
    patterns(&mut tab);
    memory(&mut tab);
    arith(&mut tab);
    horizontal(&mut tab);
    casts(&mut tab);
    masks(&mut tab);
    bits(&mut tab);
    folds(&mut tab);
    misc(&mut tab);
    tab
}
