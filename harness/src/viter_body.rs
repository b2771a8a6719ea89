// Executes iterator programs (generated from the TLA+ specification) on the
// real crate and logs one JSON line per public call.
// 
//   viter info                 widths of this build
//   viter run < programs       one program per line: ID KIND ARGS... | op | op ...
use crate::common::*;
use crate::zoned::{beat, watchdog};
use faster::iters::*;
use faster::into_iters::*;
use faster::stride::{PackedStride, Stride};
use faster::stride_zip::{IntoStrideZip, StrideZip};
use faster::vecs::{Packable, Packed};
use faster::zip::*;
use faster::intrin::destride::Destride;
use std::fmt::Write as _;
use std::io::{BufRead, Write};

#[global_allocator]
static MEMORY: zoned::Zoned = zoned::Zoned;

/// What one call returned. Mirrors the `obs` record of Iter.tla.
#[derive(Clone)]
struct Obs { r: &'static str, n: i64, v: Vec<Vec<i64>>, pos: i64 }
fn obs(r: &'static str, n: i64, v: Vec<Vec<i64>>, pos: i64) -> Obs { Obs { r, n, v, pos } }
fn unsup() -> Obs { obs("unsup", 0, vec![], -1) }

type Args<'x> = &'x [i64];

/// Offsets near the top (-1, -2, ...) and the middle (-1000, ...) of the address range.
fn offset(a: i64) -> usize {
    if a <= -1000 { (1usize << 63) + (-a - 1000) as usize } else if a < 0 { std::usize::MAX - ((-a - 1) as usize) } else { a as usize }
}

/// One object under test, with its calls made dynamic.
trait Obj {
    fn call(&mut self, op: &str, a: Args) -> Obs;
}

// Number of closure calls so far, shared with the boxed map functions.
thread_local! { static CALLS: std::cell::Cell<i64> = std::cell::Cell::new(0); }
fn tick() { CALLS.with(|c| { c.set(c.get() + 1); cap(c.get() as usize); }); }
/// No program needs this many calls: a call which never ends becomes a panic.
fn cap(n: usize) { assert!(n < LIMIT.with(|l| l.get()), "runaway"); }
thread_local! { static LIMIT: std::cell::Cell<usize> = std::cell::Cell::new(0); }

fn opt1<V: Packed>(o: Option<V>, pos: usize) -> Obs where V::Scalar: Elt {
    match o { Some(v) => obs("some", 0, vec![lanes_raw(v)], pos as i64), None => obs("none", 0, vec![], pos as i64) }
}
fn optn<V: Packed>(o: Option<(V, usize)>, pos: usize) -> Obs where V::Scalar: Elt {
    match o { Some((v, n)) => obs("some", n as i64, vec![lanes_raw(v)], pos as i64), None => obs("none", 0, vec![], pos as i64) }
}

// The helpers below do not depend on the iterator's type: there are hundreds of
// those, and every closure inside `call_iter` is compiled once for each.
fn logged(log: Vec<Vec<i64>>, n: i64, pos: usize) -> Obs { obs("ok", n, log, pos as i64) }
fn put<V: Packed>(log: &mut Vec<Vec<i64>>, acc: Option<i64>, v: V) where V::Scalar: Elt {
    cap(log.len());
    let mut l = vec![];
    if let Some(a) = acc { l.push(a); }
    l.extend(lanes_raw(v));
    log.push(l);
}
fn put_all<V: Packed>(log: &mut Vec<Vec<i64>>, c: &[V]) where V::Scalar: Elt {
    let mut x = vec![];
    for v in c { x.extend(lanes_raw(*v)); }
    log.push(x);
}
fn calls() -> i64 { CALLS.with(|c| c.get()) }
fn reset_calls() { CALLS.with(|c| c.set(0)); }
fn decs<T: Elt>(v: &[T]) -> Vec<i64> { v.iter().map(|x| x.dec()).collect() }
/// A buffer of m elements 101, 102, ... between guard zones.
const GUARD: usize = 64;
// how many elements past an aligned address slices start in this program
thread_local! { static SHIFT: std::cell::Cell<usize> = std::cell::Cell::new(0); }
fn shift() -> usize { SHIFT.with(|s| s.get()) }
fn gap() -> usize { GUARD + shift() }
fn guarded_buf<T: Elt>(m: usize) -> Vec<T> {
    let mut buf: Vec<T> = (0..m + 2 * gap()).map(|_| T::enc(99)).collect();
    for i in 0..m { buf[gap() + i] = T::enc(101 + (i % 20) as i64); }
    buf
}
fn filled<T: Elt>(buf: &[T], m: usize, same: bool, pos: usize) -> Obs {
    let guard = buf[..gap()].iter().chain(buf[gap() + m..].iter()).all(|x| x.dec() == 99);
    let r = if !same { "wrongslice" } else if !guard { "guard" } else { "ok" };
    obs(r, calls(), vec![decs(&buf[gap()..gap() + m])], pos as i64)
}

/// Calls shared by every SIMDIterator.
#[inline(never)]
fn it_next<I>(it: &mut I, op: &str, a: Args) -> Obs
    where I: SIMDIterator + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt
{ let o = it.next(); opt1(o, it.scalar_pos()) }

#[inline(never)]
fn it_end<I>(it: &mut I, op: &str, a: Args) -> Obs
    where I: SIMDIterator + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt
{ let o = it.end(); optn(o, it.scalar_pos()) }

#[inline(never)]
fn it_adv<I>(it: &mut I, op: &str, a: Args) -> Obs
    where I: SIMDIterator + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt
{ it.advance(a[0] as usize); logged(vec![], 0, it.scalar_pos()) }

#[inline(never)]
fn it_fin<I>(it: &mut I, op: &str, a: Args) -> Obs
    where I: SIMDIterator + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt
{ it.finalize(); logged(vec![], 0, it.scalar_pos()) }

#[inline(never)]
fn it_q<I>(it: &mut I, op: &str, a: Args) -> Obs
    where I: SIMDIterator + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt
{
    let v = vec![it.scalar_pos() as i64, it.scalar_len() as i64, it.vector_pos() as i64, it.vector_len() as i64,
                 SIMDObject::width(it) as i64, SIMDObject::size(it) as i64, ExactSizeIterator::len(it) as i64];
    logged(vec![v], 0, it.scalar_pos())
}

#[inline(never)]
fn it_dflt<I>(it: &mut I, op: &str, a: Args) -> Obs
    where I: SIMDIterator + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt
{ let d = SIMDIterable::default(it); logged(vec![lanes_raw(d)], 0, it.scalar_pos()) }

#[inline(never)]
fn it_reduce<I>(it: &mut I, op: &str, a: Args) -> Obs
    where I: SIMDIterator + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt
{
    let mut log = vec![];
    let acc = it.simd_reduce(7i64, |acc, v| { put(&mut log, Some(acc), v); acc + 1 });
    logged(log, acc, it.scalar_pos())
}

#[inline(never)]
fn it_doeach<I>(it: &mut I, op: &str, a: Args) -> Obs
    where I: SIMDIterator + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt
{
    let mut log = vec![];
    it.simd_do_each(|v| put(&mut log, None, v));
    logged(log, 0, it.scalar_pos())
}

#[inline(never)]
fn one_collect<I>(it: &mut I) -> Vec<I::Scalar>
    where I: SIMDIterator + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt
{ it.scalar_collect() }
#[inline(never)]
fn all_collect<I>(it: &mut I) -> Vec<I::Scalar>
    where I: SIMDIterator + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt
{ it.scalar_collect_all() }
#[inline(never)]
fn one_fill<'a, I>(it: &mut I, s: &'a mut [I::Scalar]) -> &'a mut [I::Scalar]
    where I: SIMDIterator + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt
{ it.scalar_fill(s) }
#[inline(never)]
fn all_fill<'a, I>(it: &mut I, s: &'a mut [I::Scalar]) -> &'a mut [I::Scalar]
    where I: SIMDIterator + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt
{ it.scalar_fill_all(s) }

#[inline(never)]
fn it_collect<I>(it: &mut I, op: &str, a: Args) -> Obs
    where I: SIMDIterator + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt
{
    reset_calls();
    let r = if op == "collect" { one_collect(it) } else { all_collect(it) };
    logged(vec![decs(&r)], calls(), it.scalar_pos())
}

#[inline(never)]
fn it_fill<I>(it: &mut I, op: &str, a: Args) -> Obs
    where I: SIMDIterator + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt
{
    reset_calls();
    let m = a[0] as usize;
    let mut buf: Vec<I::Scalar> = guarded_buf(m);
    let p = &buf[gap()] as *const I::Scalar;
    let same;
    {
        let s: &mut [I::Scalar] = &mut buf[gap()..gap() + m];
        let r = if op == "fill" { one_fill(it, s) } else { all_fill(it, s) };
        same = r.as_ptr() == p && r.len() == m;
    }
    filled(&buf, m, same, it.scalar_pos())
}

#[inline(never)]
fn it_unroll<I>(it: &mut I, op: &str, a: Args) -> Obs
    where I: SIMDIterator + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt
{
    // unroll(amt), then up to `k` chunks. Chunks are copied before the next one is asked for.
    let mut log = vec![];
    let mut bad = false;
    let mut chunk = 0;
    {
        let mut u = it.unroll(a[0] as usize);
        if a[0] > 0 && (u.chunk_len() != a[0] as usize) { bad = true; }
        for _ in 0..a[1] {
            match u.next() {
                Some(c) => { bad |= c.len() == 0; put_all(&mut log, c) }
                None => log.push(vec![]),
            }
        }
        if a[0] > 0 { chunk = u.chunk_pos() as i64; }
    }
    obs(if bad { "badlen" } else { "ok" }, chunk, log, it.scalar_pos() as i64)
}

/// One function per call: the crate inlines much.
fn call_iter<I>(it: &mut I, op: &str, a: Args) -> Obs
    where I: SIMDIterator + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt {
    match op {
        "next" => it_next(it, op, a),
        "end" => it_end(it, op, a),
        "adv" => it_adv(it, op, a),
        "fin" => it_fin(it, op, a),
        "q" => it_q(it, op, a),
        "dflt" => it_dflt(it, op, a),
        "reduce" => it_reduce(it, op, a),
        "doeach" => it_doeach(it, op, a),
        "collect" | "collect_all" => it_collect(it, op, a),
        "fill" | "fill_all" => it_fill(it, op, a),
        "unroll" => it_unroll(it, op, a),
        _ => unsup(),
    }
}

struct Plain<I>(I);
impl<I> Obj for Plain<I> where I: SIMDIterator + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt {
    fn call(&mut self, op: &str, a: Args) -> Obs { call_iter(&mut self.0, op, a) }
}

/// An iterator that is also a random-access array.
struct Src<I>(Option<I>);
fn call_src<I>(s: &mut Option<I>, op: &str, a: Args) -> Obs
    where I: SIMDIterator + SIMDArray + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt {
    match op {
        "unpack" => {
            let mut u = s.take().unwrap().unpack();
            let mut got = vec![];
            for _ in 0..a[0] { match u.next() { Some(x) => got.push(x.dec()), None => break } }
            let it = u.pack();
            let pos = it.scalar_pos() as i64;
            *s = Some(it);
            obs("ok", 0, vec![got], pos)
        }
        "unpackall" => { // the whole rest through the Iterator interface
            let u = s.take().unwrap().unpack();
            let got: Vec<i64> = u.map(|x| x.dec()).take(6000).collect();
            obs("ok", 0, vec![got], -1)
        }
        "load" => {
            let it = s.as_ref().unwrap();
            let off = offset(a[0]);
            match guarded(|| lanes_raw(it.load(off))) {
                Some(v) => obs("ok", 0, vec![v], it.scalar_pos() as i64),
                None => obs("panic", 0, vec![], it.scalar_pos() as i64),
            }
        }
        "loads" => {
            let it = s.as_ref().unwrap();
            let off = offset(a[0]);
            match guarded(|| it.load_scalar(off).dec()) {
                Some(x) => obs("ok", 0, vec![vec![x]], it.scalar_pos() as i64),
                None => obs("panic", 0, vec![], it.scalar_pos() as i64),
            }
        }
        _ => call_iter(s.as_mut().unwrap(), op, a),
    }
}
impl<I> Obj for Src<I> where I: SIMDIterator + SIMDArray + ExactSizeIterator + IntoScalar<<I as SIMDObject>::Scalar>, I::Scalar: Elt {
    fn call(&mut self, op: &str, a: Args) -> Obs { call_src(&mut self.0, op, a) }
}

/// A mutable-slice iterator; the slice sits between guard zones.
struct MutSrc<T: Elt + Packable> where T::Vector: Packed<Scalar = T> {
    it: Option<SIMDIter<&'static mut [T]>>,
    buf: *mut T,
    total: usize,
    g: usize,
}
const LANEFNS: [&str; 3] = ["inc", "lane", "dbl"];
fn lane_fn(f: &str, x: i64, j: usize) -> i64 {
    match f { "inc" => x + 1, "lane" => x + j as i64, "dbl" => 2 * x, _ => x }
}
fn lane_map<V: Packed>(f: &str, v: V) -> V where V::Scalar: Elt {
    let l: Vec<V::Scalar> = lanes_raw(v).iter().enumerate().map(|(j, x)| <V::Scalar as Elt>::enc(lane_fn(f, *x, j))).collect();
    vec_raw(&l)
}
impl<T: Elt> Obj for MutSrc<T> where T::Vector: Packed<Scalar = T> {
    fn call(&mut self, op: &str, a: Args) -> Obs {
        if op != "foreach" { return call_src(&mut self.it, op, a); }
        let f = LANEFNS[a[0] as usize];
        let mut n = 0;
        let it = self.it.as_mut().unwrap();
        it.simd_for_each(|v| { n += 1; cap(n as usize); *v = lane_map(f, *v); });
        let pos = it.scalar_pos() as i64;
        let all: Vec<i64> = (0..self.total).map(|i| unsafe { std::ptr::read_volatile(self.buf.add(i)) }.dec()).collect();
        let len = self.total - 2 * self.g;
        let guard = all[..self.g].iter().chain(all[self.g + len..].iter()).all(|x| *x == 99);
        obs(if guard { "ok" } else { "guard" }, n, vec![all[self.g..self.g + len].to_vec()], pos)
    }
}

/// Logging of a tuple of vectors.
trait Tup { fn tup(&self) -> Vec<Vec<i64>>; }
macro_rules! tups { ($(($($v:ident $n:tt),*));*) => { $(
    impl<$($v: Packed),*> Tup for ($($v),*) where $($v::Scalar: Elt),* {
        fn tup(&self) -> Vec<Vec<i64>> { vec![$(lanes_raw(self.$n)),*] }
    } )* } }
tups!((A 0, B 1); (A 0, B 1, C 2); (A 0, B 1, C 2, D 3); (A 0, B 1, C 2, D 3, E 4);
      (A 0, B 1, C 2, D 3, E 4, F 5); (A 0, B 1, C 2, D 3, E 4, F 5, G 6);
      (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7); (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
      (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9); (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
      (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
      (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12));

struct Zipped<Z>(Z);
impl<Z> Obj for Zipped<Z> where Z: SIMDZippedIterator + ExactSizeIterator, Z::Vectors: Tup, Z: Iterator<Item = <Z as SIMDZippedObject>::Vectors> {
    fn call(&mut self, op: &str, a: Args) -> Obs {
        let it = &mut self.0;
        match op {
            "next" => {
                let o: Option<<Z as SIMDZippedObject>::Vectors> = it.next();
                let pos = it.scalar_pos() as i64;
                match o { Some(v) => obs("some", 0, v.tup(), pos), None => obs("none", 0, vec![], pos) }
            }
            "end" => {
                let o = it.end();
                let pos = it.scalar_pos() as i64;
                match o { Some((v, n)) => obs("some", n as i64, v.tup(), pos), None => obs("none", 0, vec![], pos) }
            }
            "adv" => { it.advance(a[0] as usize); obs("ok", 0, vec![], it.scalar_pos() as i64) }
            "fin" => { it.finalize(); obs("ok", 0, vec![], it.scalar_pos() as i64) }
            "q" => {
                let pos = it.scalar_pos() as i64;
                let v = vec![pos, it.scalar_len() as i64, it.vector_pos() as i64, it.vector_len() as i64,
                             it.width() as i64, it.size() as i64, ExactSizeIterator::len(it) as i64];
                obs("ok", 0, vec![v], pos)
            }
            "dflt" => { let d = it.default(); obs("ok", 0, d.tup(), it.scalar_pos() as i64) }
            "reduce" => {
                let mut log = vec![];
                let acc = it.simd_reduce(7i64, |acc, v| {
                    cap(log.len());
                    let mut l = vec![acc];
                    for x in v.tup() { l.extend(x); }
                    log.push(l);
                    acc + 1
                });
                obs("ok", acc, log, it.scalar_pos() as i64)
            }
            "doeach" => {
                let mut log = vec![];
                it.simd_do_each(|v| { cap(log.len()); let mut l = vec![]; for x in v.tup() { l.extend(x); } log.push(l); });
                obs("ok", 0, log, it.scalar_pos() as i64)
            }
            _ => unsup(),
        }
    }
}

// ---- programs --------------------------------------------------------------

struct Stream { d: Vec<i64>, f: Vec<i64>, p: Vec<(usize, usize)>, pre: usize }
struct Built { obj: Option<Box<dyn Obj>>, streams: Vec<Stream>, w: usize, size: usize }
fn signed(t: &str) -> i64 { match t { "u8" | "u16" | "u32" | "u64" => 0, _ => 1 } }
type Maps = Vec<String>;

/// `v` for good, at an address which SHIFT decides.
fn leak<T>(v: Vec<T>) -> &'static mut [T] {
    let sh = shift();
    let mut w: Vec<T> = Vec::with_capacity(v.len() + sh + 1);
    unsafe {
        let p = w.as_mut_ptr().add(sh);
        std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
        std::mem::forget(w);
        std::slice::from_raw_parts_mut(p, v.len())
    }
}
fn data<T: Elt>(len: usize, salt: usize) -> Vec<T> { (0..len).map(|i| data_val::<T>(i, salt)).collect() }
fn stream<T: Elt>(len: usize, salt: usize, fsalt: usize, p: Vec<(usize, usize)>) -> Stream {
    Stream { d: (0..len).map(|i| data_val::<T>(i, salt).dec()).collect(),
             f: (0..T::Vector::WIDTH).map(|j| def_val::<T>(j, fsalt).dec()).collect(), p, pre: 0 }
}

/// default vector made through memory
fn defv<T: Elt>(salt: usize) -> T::Vector where T::Vector: Packed<Scalar = T> {
    vec_raw(&(0..T::Vector::WIDTH).map(|j| def_val::<T>(j, salt)).collect::<Vec<T>>())
}

type BF<V, A> = Box<dyn FnMut(V) -> A>;
fn bf<V: Packed + 'static>(name: String) -> BF<V, V> where V::Scalar: Elt { Box::new(move |v| { tick(); lane_map(&name, v) }) }
fn conv<V: Packed + 'static, A: Packed + 'static>() -> BF<V, A> {
    Box::new(move |v| { tick(); assert_eq!(std::mem::size_of::<V>(), std::mem::size_of::<A>()); unsafe { std::mem::transmute_copy(&v) } })
}

/// `it` under zero to two lane-wise maps.
fn mapped<I>(it: I, maps: &Maps) -> Box<dyn Obj>
    where I: SIMDIterator + ExactSizeIterator + 'static, I::Scalar: Elt, I::Vector: 'static {
    match maps.len() {
        0 => Box::new(Plain(it)),
        1 => Box::new(Plain(it.simd_map(bf(maps[0].clone())))),
        _ => mapped2(it, maps),
    }
}
fn mapped2<I>(it: I, maps: &Maps) -> Box<dyn Obj>
    where I: SIMDIterator + ExactSizeIterator + 'static, I::Scalar: Elt, I::Vector: 'static {
    Box::new(Plain(it.simd_map(bf(maps[0].clone())).simd_map(bf(maps[1].clone()))))
}
/// at most one map
fn mapped1<I>(it: I, maps: &Maps) -> Box<dyn Obj>
    where I: SIMDIterator + ExactSizeIterator + 'static, I::Scalar: Elt, I::Vector: 'static {
    assert!(maps.len() == 1);
    Box::new(Plain(it.simd_map(bf(maps[0].clone()))))
}

/// `it` under a map that changes the element type (by bytes), maybe after a lane-wise one.
trait ConvTo: Elt {
    fn conv_to<I>(it: I, maps: &Maps) -> Option<Box<dyn Obj>>
        where I: SIMDIterator<Scalar = Self, Vector = <Self as Packable>::Vector> + ExactSizeIterator + 'static, Self: Sized;
}
macro_rules! conv_to { ($($t:ty => [$($o:tt),*]);*) => { $(
    impl ConvTo for $t {
        #[allow(unused_variables)]
        fn conv_to<I>(it: I, maps: &Maps) -> Option<Box<dyn Obj>>
            where I: SIMDIterator<Scalar = Self, Vector = <Self as Packable>::Vector> + ExactSizeIterator + 'static {
            let last = maps[maps.len() - 1].as_str();
            $( if last == concat!("to:", stringify!($o)) {
                return Some(if maps.len() == 1 {
                    Box::new(Plain(it.simd_map(conv::<I::Vector, <$o as Packable>::Vector>())))
                } else {
                    Box::new(Plain(it.simd_map(bf(maps[0].clone())).simd_map(conv::<I::Vector, <$o as Packable>::Vector>())))
                });
            } )*
            None
        }
    } )* } }
conv_to!(u8 => [u16, u32]; i8 => []; u16 => [u8, u32]; i16 => []; u32 => [u8, u16]; i32 => []; f32 => []; u64 => [u8, u16, u32]; i64 => []; f64 => []);

fn build_iter<T: ConvTo>(backing: &str, len: usize, maps: &Maps) -> Built
    where Vec<T>: IntoSIMDIterator<Iter = SIMDIter<Vec<T>>>,
          for<'a> [T]: IntoSIMDRefIterator<'a, Iter = SIMDIter<&'a [T]>> + IntoSIMDRefMutIterator<'a, Iter = SIMDIter<&'a mut [T]>>,
          &'static [T]: IntoSIMDRefIterator<'static, Iter = SIMDIter<&'static [T]>>,
          &'static mut [T]: IntoSIMDRefMutIterator<'static, Iter = SIMDIter<&'static mut [T]>>,
          T::Vector: Packed<Scalar = T> + 'static {
    let streams = vec![stream::<T>(len, 0, 0, vec![])];
    let is_conv = maps.last().map_or(false, |m| m.starts_with("to:"));
    let obj: Option<Box<dyn Obj>> = match backing {
        "vec" => {
            let it = data::<T>(len, 0).into_simd_iter(defv::<T>(0));
            if is_conv { T::conv_to(it, maps) } else if maps.is_empty() { Some(Box::new(Src(Some(it)))) } else { Some(mapped(it, maps)) }
        }
        "ref" => {
            // between guards, to place the slice at an odd address
            let all = leak(data::<T>(len + 6, 5));
            for i in 0..len { all[3 + i] = data_val::<T>(i, 0); }
            let s: &'static [T] = &all[3..3 + len];
            // slices and references to them have implementations of their own
            let it = if shift() % 2 == 0 { <[T] as IntoSIMDRefIterator>::simd_iter(s, defv::<T>(0)) } else { <&'static [T] as IntoSIMDRefIterator>::simd_iter(&*Box::leak(Box::new(s)), defv::<T>(0)) };
            if is_conv { T::conv_to(it, maps) } else if maps.is_empty() { Some(Box::new(Src(Some(it)))) } else { Some(mapped(it, maps)) }
        }
        "mut" => {
            let g = gap();
            let all = leak((0..len + 2 * g).map(|_| T::enc(99)).collect::<Vec<T>>());
            for i in 0..len { all[g + i] = data_val::<T>(i, 0); }
            let buf = all.as_mut_ptr();
            let s: &'static mut [T] = unsafe { std::slice::from_raw_parts_mut(buf.add(g), len) };
            let it = if shift() % 2 == 0 { <[T] as IntoSIMDRefMutIterator>::simd_iter_mut(s, defv::<T>(0)) } else { <&'static mut [T] as IntoSIMDRefMutIterator>::simd_iter_mut(Box::leak(Box::new(s)), defv::<T>(0)) };
            if is_conv { T::conv_to(it, maps) } else if maps.is_empty() {
                Some(Box::new(MutSrc { it: Some(it), buf, total: len + 2 * g, g }))
            } else { Some(mapped(it, maps)) }
        }
        _ => None,
    };
    Built { obj, streams, w: T::Vector::WIDTH, size: T::SIZE }
}

/// The iterator `k` of a stride made by constructor `ctor` ("two", "three", "four", "nine", "dynN", "intoN").
fn stride_k<A: SIMDArray>(a: &'static A, ctor: &str, k: usize) -> (usize, PackedStride<'static, A>)
    where A::Scalar: Elt + Packable<Vector = A::Vector>, A::Vector: Packed<Scalar = A::Scalar> {
    let d = |i: usize| defv::<A::Scalar>(i);
    match ctor {
        "two" => { let t = a.stride_two((d(0), d(1))); (2, if k == 0 { t.0 } else { t.1 }) }
        "three" => { let t = a.stride_three((d(0), d(1), d(2))); (3, match k { 0 => t.0, 1 => t.1, _ => t.2 }) }
        "four" => { let t = a.stride_four((d(0), d(1), d(2), d(3))); (4, match k { 0 => t.0, 1 => t.1, 2 => t.2, _ => t.3 }) }
        "nine" => {
            let t = a.stride_nine((d(0), d(1), d(2), d(3), d(4), d(5), d(6), d(7), d(8)));
            (9, match k { 0 => t.0, 1 => t.1, 2 => t.2, 3 => t.3, 4 => t.4, 5 => t.5, 6 => t.6, 7 => t.7, _ => t.8 })
        }
        _ => {
            let into = ctor.starts_with("into");
            // "dyn3x2" has two defaults only
            let num = &ctor[if into { 4 } else { 3 }..];
            let n: usize = num.split('x').next().unwrap().parse().unwrap();
            let m: usize = num.split('x').last().unwrap().parse().unwrap();
            let ds: Vec<A::Vector> = (0..m).map(|i| d(i)).collect();
            if into {
                let v: std::collections::VecDeque<PackedStride<'static, A>> = a.stride_into(n, &ds);
                assert_eq!(v.len(), n);
                (n, v.into_iter().nth(k).unwrap())
            } else {
                let v = a.stride(n, &ds);
                assert_eq!(v.len(), n);
                (n, v.into_iter().nth(k).unwrap())
            }
        }
    }
}

fn build_stride<T: ConvTo>(backing: &str, len: usize, path: &str, maps: &Maps) -> Built
    where for<'a> [T]: IntoSIMDRefIterator<'a, Iter = SIMDIter<&'a [T]>>, T::Vector: Packed<Scalar = T> + 'static {
    let segs: Vec<(&str, usize)> = path.split('/').map(|s| { let mut x = s.split('.'); (x.next().unwrap(), x.next().unwrap().parse().unwrap()) }).collect();
    let mut p = vec![];
    let obj: Option<Box<dyn Obj>>;
    let s: &'static [T] = leak(data::<T>(len, 0));
    if segs.len() == 1 {
        let (ctor, k) = segs[0];
        macro_rules! fin { ($src:expr) => { {
            let src: &'static _ = Box::leak(Box::new($src));
            if ctor.contains('x') {
                // must be rejected
                if guarded(|| { stride_k(src, ctor, k); }).is_none() { return Built { obj: None, streams: vec![], w: T::Vector::WIDTH, size: T::SIZE }; }
            }
            let (n, it) = stride_k(src, ctor, k);
            p.push((n, k));
            if maps.is_empty() { Some(Box::new(Src(Some(it))) as Box<dyn Obj>) } else { Some(mapped1(it, maps)) }
        } } }
        obj = match backing {
            "ref" => fin!(s),
            "vec" => fin!(s.to_vec()),
            "iter" => fin!(s.simd_iter(defv::<T>(0))),
            _ => None,
        };
    } else {
        let (n0, outer) = stride_k(Box::leak(Box::new(s)), segs[0].0, segs[0].1);
        let (n1, it) = stride_k(Box::leak(Box::new(outer)), segs[1].0, segs[1].1);
        p.push((n0, segs[0].1));
        p.push((n1, segs[1].1));
        obj = if maps.is_empty() { Some(Box::new(Src(Some(it)))) } else { Some(mapped1(it, maps)) };
    }
    let k = segs[segs.len() - 1].1;
    Built { obj, streams: vec![stream::<T>(len, 0, k, p)], w: T::Vector::WIDTH, size: T::SIZE }
}

/// Adapter under test: packs a scalar iterator.
fn build_adapt<T: Elt>(len: usize, maps: &Maps) -> Built where T::Vector: Packed<Scalar = T> + 'static {
    let it = SIMDAdapter { iter: data::<T>(len, 0).into_iter(), scratch: T::Vector::default(), default: defv::<T>(0), position: 0 };
    Built { obj: Some(mapped(it, maps)), streams: vec![stream::<T>(len, 0, 0, vec![])], w: T::Vector::WIDTH, size: T::SIZE }
}

/// A zip `z` under the maps: none, or a combiner ("pick:k", "add") then lane-wise ones.
fn zmapped<Z, T>(z: Z, maps: &Maps) -> Box<dyn Obj>
    where Z: SIMDZippedIterator + ExactSizeIterator + Iterator<Item = <Z as SIMDZippedObject>::Vectors> + 'static, Z::Vectors: Tup + 'static,
          T: Elt, T::Vector: Packed<Scalar = T> + 'static {
    if maps.is_empty() { return Box::new(Zipped(z)); }
    let f = maps[0].clone();
    let comb: Box<dyn FnMut(Z::Vectors) -> T::Vector> = Box::new(move |t| {
        tick();
        let v = t.tup();
        let r: Vec<T> = if f == "add" {
            v[0].iter().zip(v[1].iter()).map(|(a, b)| T::enc(a + b)).collect()
        } else {
            let k: usize = f[5..].parse().unwrap();
            v[k].iter().map(|a| T::enc(*a)).collect()
        };
        vec_raw(&r)
    });
    let m = z.simd_map(comb);
    if maps.len() == 1 { Box::new(Plain(m)) } else { Box::new(Plain(m.simd_map(bf(maps[1].clone())))) }
}

macro_rules! zip_arms { ($T:ident, $U:ident, $n:expr, $lens:expr, $pre:expr, $maps:expr, $out:ident; $($ar:tt: $($t:ident $i:tt),*);*) => {
    match $n {
        $( $ar => {
            let its = ($( {
                let s: &'static [$t] = leak(data::<$t>($lens[$i], $i));
                let mut it = s.simd_iter(defv::<$t>($i));
                it.advance($pre);
                it
            } ),*);
            match guarded(|| its.zip()) { Some(z) => $out = Some(zmapped::<_, $T>(z, $maps)), None => {} }
        } )*
        _ => panic!("arity"),
    }
} }
/// Up to four iterators.
fn build_zip<T: Elt, U: Elt>(n: usize, lens: &[usize], pre: usize, maps: &Maps) -> Built
    where for<'a> [T]: IntoSIMDRefIterator<'a, Iter = SIMDIter<&'a [T]>>, T::Vector: Packed<Scalar = T> + 'static,
          for<'a> [U]: IntoSIMDRefIterator<'a, Iter = SIMDIter<&'a [U]>>, U::Vector: Packed<Scalar = U> + 'static {
    let mut out: Option<Box<dyn Obj>> = None;
    zip_arms!(T, U, n, lens, pre, maps, out; 2: T 0, U 1; 3: T 0, U 1, T 2; 4: T 0, U 1, T 2, U 3);
    let streams = (0..n).map(|i| { let mut s = if i % 2 == 0 { stream::<T>(lens[i], i, i, vec![]) } else { stream::<U>(lens[i], i, i, vec![]) };
                                   s.pre = pre; s }).collect();
    Built { obj: out, streams, w: T::Vector::WIDTH, size: T::SIZE }
}

/// Five to thirteen; compiled for fewer types, as each arity is a type of its own.
fn build_bigzip<T: Elt, U: Elt>(n: usize, lens: &[usize], pre: usize, maps: &Maps) -> Built
    where for<'a> [T]: IntoSIMDRefIterator<'a, Iter = SIMDIter<&'a [T]>>, T::Vector: Packed<Scalar = T> + 'static,
          for<'a> [U]: IntoSIMDRefIterator<'a, Iter = SIMDIter<&'a [U]>>, U::Vector: Packed<Scalar = U> + 'static {
    let mut out: Option<Box<dyn Obj>> = None;
    zip_arms!(T, U, n, lens, pre, maps, out;
        5: T 0, U 1, T 2, U 3, T 4;
        6: T 0, U 1, T 2, U 3, T 4, U 5; 7: T 0, U 1, T 2, U 3, T 4, U 5, T 6;
        8: T 0, U 1, T 2, U 3, T 4, U 5, T 6, U 7; 9: T 0, U 1, T 2, U 3, T 4, U 5, T 6, U 7, T 8;
        10: T 0, U 1, T 2, U 3, T 4, U 5, T 6, U 7, T 8, U 9;
        11: T 0, U 1, T 2, U 3, T 4, U 5, T 6, U 7, T 8, U 9, T 10;
        12: T 0, U 1, T 2, U 3, T 4, U 5, T 6, U 7, T 8, U 9, T 10, U 11;
        13: T 0, U 1, T 2, U 3, T 4, U 5, T 6, U 7, T 8, U 9, T 10, U 11, T 12);
    let streams = (0..n).map(|i| { let mut s = if i % 2 == 0 { stream::<T>(lens[i], i, i, vec![]) } else { stream::<U>(lens[i], i, i, vec![]) };
                                   s.pre = pre; s }).collect();
    Built { obj: out, streams, w: T::Vector::WIDTH, size: T::SIZE }
}

/// zip of all the iterators of a stride
fn build_zipstride<T: Elt>(ctor: &str, len: usize, maps: &Maps) -> Built
    where T::Vector: Packed<Scalar = T> + 'static {
    let s: &'static &'static [T] = Box::leak(Box::new(&*leak(data::<T>(len, 0))));
    let d = |i: usize| defv::<T>(i);
    let (n, z): (usize, Option<Box<dyn Obj>>) = match ctor {
        "two" => { let t = s.stride_two((d(0), d(1))); (2, guarded(|| t.zip()).map(|z| zmapped::<_, T>(z, maps))) }
        "three" => { let t = s.stride_three((d(0), d(1), d(2))); (3, guarded(|| t.zip()).map(|z| zmapped::<_, T>(z, maps))) }
        "four" => { let t = s.stride_four((d(0), d(1), d(2), d(3))); (4, guarded(|| t.zip()).map(|z| zmapped::<_, T>(z, maps))) }
        _ => { let t = s.stride_nine((d(0), d(1), d(2), d(3), d(4), d(5), d(6), d(7), d(8))); (9, guarded(|| t.zip()).map(|z| zmapped::<_, T>(z, maps))) }
    };
    Built { obj: z, streams: (0..n).map(|i| stream::<T>(len, 0, i, vec![(n, i)])).collect(), w: T::Vector::WIDTH, size: T::SIZE }
}

/// zip of iterators of different kinds
fn build_zipmix<T: Elt>(shape: &str, len: usize, x: usize, pre: usize, maps: &Maps) -> Built
    where Vec<T>: IntoSIMDIterator<Iter = SIMDIter<Vec<T>>>,
          for<'a> [T]: IntoSIMDRefIterator<'a, Iter = SIMDIter<&'a [T]>> + IntoSIMDRefMutIterator<'a, Iter = SIMDIter<&'a mut [T]>>,
          T::Vector: Packed<Scalar = T> + 'static {
    let path = |c: char| match c { 's' => vec![(2, 1)], 't' => vec![(3, 0)], _ => vec![] };
    let n = shape.len();
    let size = |i: usize| { let l = if i + 1 == n { len + x } else { len };
                            match shape.as_bytes()[i] { b's' => 2 * l + 1, b't' => 3 * l + 2, _ => l } };
    let r = |i: usize| { let s: &'static [T] = leak(data::<T>(size(i), i)); let mut it = s.simd_iter(defv::<T>(i)); it.advance(pre); it };
    let v = |i: usize| { let mut it = data::<T>(size(i), i).into_simd_iter(defv::<T>(i)); it.advance(pre); it };
    let m = |i: usize| { let s: &'static mut [T] = leak(data::<T>(size(i), i)); let mut it = s.simd_iter_mut(defv::<T>(i)); it.advance(pre); it };
    let st = |i: usize, n: usize, k: usize| {
        let s: &'static &'static [T] = Box::leak(Box::new(&*leak(data::<T>(size(i), i))));
        let mut it = s.stride(n, &vec![defv::<T>(i); n]).into_iter().nth(k).unwrap();
        it.advance(pre);
        it
    };
    let obj = match shape {
        "rs" => { let t = (r(0), st(1, 2, 1)); guarded(|| t.zip()).map(|z| zmapped::<_, T>(z, maps)) }
        "sr" => { let t = (st(0, 2, 1), r(1)); guarded(|| t.zip()).map(|z| zmapped::<_, T>(z, maps)) }
        _ => { let t = (m(0), st(1, 3, 0), v(2)); guarded(|| t.zip()).map(|z| zmapped::<_, T>(z, maps)) }
    };
    let streams = shape.chars().enumerate().map(|(i, c)| { let mut s = stream::<T>(size(i), i, i, path(c)); s.pre = pre; s }).collect();
    Built { obj, streams, w: T::Vector::WIDTH, size: T::SIZE }
}

fn build_szip<T: ConvTo>(backing: &str, len: usize, pre: usize, maps: &Maps) -> Built
    where Vec<T>: IntoSIMDIterator<Iter = SIMDIter<Vec<T>>>,
          for<'a> [T]: IntoSIMDRefIterator<'a, Iter = SIMDIter<&'a [T]>> + IntoSIMDRefMutIterator<'a, Iter = SIMDIter<&'a mut [T]>>,
          T::Vector: Packed<Scalar = T> + Destride + 'static {
    fn go<T: Elt, I>(mut it: I, pre: usize, maps: &Maps) -> Box<dyn Obj>
        where I: SIMDIterator<Scalar = T> + ExactSizeIterator + 'static, T::Vector: Packed<Scalar = T> + 'static, I::Vector: Destride + 'static {
        it.advance(pre);
        let z: StrideZip<I> = it.stride_zip();
        zmapped::<_, T>(z, maps)
    }
    let obj: Option<Box<dyn Obj>> = match backing {
        "vec" => Some(go::<T, _>(data::<T>(len, 0).into_simd_iter(defv::<T>(0)), pre, maps)),
        "ref" => { let s: &'static [T] = leak(data::<T>(len, 0)); Some(go::<T, _>(s.simd_iter(defv::<T>(0)), pre, maps)) }
        "mut" => { let s: &'static mut [T] = leak(data::<T>(len, 0)); Some(go::<T, _>(s.simd_iter_mut(defv::<T>(0)), pre, maps)) }
        "map" => {
            let it = data::<T>(len, 0).into_simd_iter(defv::<T>(0)).simd_map(Box::new(|v| lane_map("inc", v)) as BF<T::Vector, T::Vector>);
            Some(go::<T, _>(it, pre, maps))
        }
        "stride" => {
            let s: &'static &'static [T] = Box::leak(Box::new(&*leak(data::<T>(2 * len + 1, 0))));
            Some(go::<T, _>(s.stride_two((defv::<T>(0), defv::<T>(0))).1, pre, maps))
        }
        "adapt" => Some(go::<T, _>(SIMDAdapter { iter: data::<T>(len, 0).into_iter(), scratch: T::Vector::default(), default: defv::<T>(0), position: 0 }, pre, maps)),
        _ => None,
    };
    let mut s = if backing == "stride" { stream::<T>(2 * len + 1, 0, 0, vec![(2, 1)]) } else { stream::<T>(len, 0, 0, vec![]) };
    if backing == "map" { for x in s.d.iter_mut() { *x = T::enc(*x + 1).dec(); } }
    s.pre = pre;
    Built { obj, streams: vec![s], w: T::Vector::WIDTH, size: T::SIZE }
}

/// Random access on collections.
struct Arr<T: Elt> { c: String, buf: Vec<T>, g: usize, len: usize }
impl<T: Elt> Obj for Arr<T> where T::Vector: Packed<Scalar = T> {
    fn call(&mut self, op: &str, a: Args) -> Obs {
        let off = if a.is_empty() { 0 } else { offset(a[0]) };
        let (g, len) = (self.g, self.len);
        let w = T::Vector::WIDTH;
        let val: T::Vector = vec_raw(&(0..w).map(|j| T::enc(96 + (j % 24) as i64)).collect::<Vec<T>>());
        let mut got: Vec<i64> = vec![];
        let ok;
        let c = self.c.clone();
        macro_rules! with { ($s:ident => $e:expr) => { match c.as_str() {
            "vec" => { let $s: Vec<T> = self.buf[g..g + len].to_vec(); guarded(|| $e) }
            "ref" => { let $s: &[T] = &self.buf[g..g + len]; guarded(|| $e) }
            "iter" => { let $s = SIMDIter { position: 0, data: &self.buf[g..g + len], default: T::Vector::default() }; guarded(|| $e) }
            _ => { let $s: &mut [T] = &mut self.buf[g..g + len]; guarded(|| $e) }
        } } }
        match op {
            "load" => { let r = if c == "packed" { let s = &self.buf[g..g + len]; guarded(|| T::Vector::load(s, off)) } else { with!(s => s.load(off)) };
                        ok = r.is_some(); if let Some(v) = r { got = lanes_raw(v); } }
            "loads" => { let r = with!(s => s.load_scalar(off)); ok = r.is_some(); if let Some(v) = r { got = vec![v.dec()]; } }
            "q" => {
                let c = if c == "packed" { "ref".to_string() } else { c.clone() };
                let r = with!(s => vec![s.scalar_len() as i64, s.vector_len() as i64, SIMDObject::width(&s) as i64, SIMDObject::size(&s) as i64]);
                return match r { Some(v) => obs("ok", 0, vec![v], 0), None => obs("panic", 0, vec![], 0) };
            }
            // the unchecked accesses are only ever called within bounds
            "uload" => { let r = if c == "packed" { let s = &self.buf[g..g + len]; guarded(|| unsafe { T::Vector::load_unchecked(s, off) }) } else { with!(s => unsafe { s.load_unchecked(off) }) };
                         ok = r.is_some(); if let Some(v) = r { got = lanes_raw(v); } }
            "uloads" => { let r = with!(s => unsafe { s.load_scalar_unchecked(off) }); ok = r.is_some(); if let Some(v) = r { got = vec![v.dec()]; } }
            "store" | "ustore" | "stores" | "ustores" => {
                let packed = c == "packed";
                let mut s: &mut [T] = &mut self.buf[g..g + len];
                ok = guarded(|| match (op, packed) {
                    ("store", true) => val.store(s, off),
                    ("ustore", true) => unsafe { val.store_unchecked(s, off) },
                    ("store", false) => SIMDArrayMut::store(&mut s, val, off),
                    ("ustore", false) => unsafe { SIMDArrayMut::store_unchecked(&mut s, val, off) },
                    ("stores", _) => s.store_scalar(T::enc(96), off),
                    _ => unsafe { s.store_scalar_unchecked(T::enc(96), off) },
                }).is_some();
            }
            // lanes of the vector 1, 2, ..., W
            "ext" | "uext" | "rep" | "urep" => {
                let mut x: T::Vector = vec_raw(&(0..w).map(|j| T::enc(1 + j as i64)).collect::<Vec<T>>());
                let r = guarded(|| match op {
                    "ext" => vec![x.extract(off).dec()],
                    "uext" => vec![unsafe { x.extract_unchecked(off) }.dec()],
                    "rep" => lanes_raw(x.replace(off, T::enc(96))),
                    _ => lanes_raw(unsafe { x.replace_unchecked(off, T::enc(96)) }),
                });
                ok = r.is_some();
                if let Some(v) = r { got = v; }
                if lanes_raw(x) != (0..w).map(|j| 1 + j as i64).collect::<Vec<i64>>() { got = vec![JUNK]; }
            }
            _ => return unsup(),
        }
        let all: Vec<i64> = self.buf.iter().map(|x| x.dec()).collect();
        let guard = all[..g].iter().chain(all[g + len..].iter()).all(|x| *x == 99);
        obs(if !guard { "guard" } else if ok { "ok" } else { "panic" }, 0, vec![got, all[g..g + len].to_vec()], 0)
    }
}
fn build_arr<T: Elt>(c: &str, len: usize) -> Built where T::Vector: Packed<Scalar = T> + 'static {
    let g = gap();
    let mut buf: Vec<T> = (0..len + 2 * g).map(|_| T::enc(99)).collect();
    for i in 0..len { buf[g + i] = data_val::<T>(i, 0); }
    Built { obj: Some(Box::new(Arr { c: c.to_string(), buf, g, len })), streams: vec![stream::<T>(len, 0, 0, vec![])], w: T::Vector::WIDTH, size: T::SIZE }
}

fn build(f: &[&str]) -> Built {
    let us = |s: &str| s.parse::<usize>().unwrap();
    let maps = |s: &str| -> Maps { if s == "-" { vec![] } else { s.split(',').map(|x| x.to_string()).collect() } };
    match f[0] {
        "iter" => { let m = maps(f[4]); by_type!(f[1], build_iter(f[2], us(f[3]), &m)) }
        "stride" => { let m = maps(f[5]); by_type!(f[1], build_stride(f[2], us(f[3]), f[4], &m)) }
        "adapt" => { let m = maps(f[3]); by_type!(f[1], build_adapt(us(f[2]), &m)) }
        "arr" => by_type!(f[1], build_arr(f[2], us(f[3]))),
        "zipstride" => { let m = maps(f[4]); by_type!(f[1], build_zipstride(f[2], us(f[3]), &m)) }
        "zipmix" => { let m = maps(f[6]); by_mix!(f[1], build_zipmix(f[2], us(f[3]), us(f[4]), us(f[5]), &m)) }
        "szip" => { let m = maps(f[5]); by_szip!(f[1], build_szip(f[2], us(f[3]), us(f[4]), &m)) }
        "zip" => {
            let n = us(f[2]);
            let lens: Vec<usize> = f[3].split(',').map(|x| us(x)).collect();
            let pre = us(f[4]);
            let m = maps(f[5]);
            if n > 4 { by_bigzip!(f[1], build_bigzip(n, &lens, pre, &m)) } else { by_zip!(f[1], build_zip(n, &lens, pre, &m)) }
        }
        _ => panic!("kind"),
    }
}

fn widths() -> Vec<(&'static str, usize)> {
    macro_rules! w { ($($t:ty),*) => { vec![$((<$t as Elt>::NAME, <<$t as Packable>::Vector as Packed>::WIDTH)),*] } }
    w!(u8, i8, u16, i16, u32, i32, f32, u64, i64, f64)
}

fn main() {
    quiet_panics();
    if std::env::args().nth(1).as_deref() == Some("info") {
        for (n, w) in widths() { println!("{} {}", n, w); }
        return;
    }
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut w = std::io::BufWriter::new(stdout.lock());
    watchdog();
    for line in stdin.lock().lines() {
        beat();
        let line = line.unwrap();
        let mut parts = line.split('|').map(|s| s.trim());
        let head: Vec<&str> = parts.next().unwrap().split_whitespace().collect();
        let id = head[0];
        let mut out = String::new();
        CALLS.with(|c| c.set(0));
        LIMIT.with(|l| l.set(20_000));
        SHIFT.with(|s| s.set(head[1..].iter().flat_map(|w| w.bytes()).fold(0, |h, b| (h * 31 + b as usize) % 10_007) % 5));
        let b = guarded(|| build(&head[1..]));
        let b = match b { Some(b) => b, None => { writeln!(out, "{{\"i\":{},\"op\":\"buildpanic\"}}", id).unwrap(); w.write_all(out.as_bytes()).unwrap(); continue; } };
        LIMIT.with(|l| l.set(2_000 + 4 * b.streams.iter().map(|s| s.d.len()).sum::<usize>()));
        let maps = match head[1] { "arr" => "-", _ => head[head.len() - 1] };
        write!(out, "{{\"i\":{},\"op\":\"init\",\"k\":\"{}\",\"w\":{},\"sz\":{},\"sg\":{},\"made\":{},\"fns\":[", id, match head[1] { "zipmix" => "zip", "stride" if head[5].contains('x') => "misstride", k => k }, b.w, b.size, signed(head[2].split('.').next().unwrap()), if b.obj.is_some() { 1 } else { 0 }).unwrap();
        if maps != "-" { for (i, m) in maps.split(',').enumerate() {
            if i > 0 { out.push(','); }
            let (f, x) = match m.find(':') { Some(p) => (&m[..p], &m[p + 1..]), None => (m, "0") };
            let x = match x { "u8" => "1", "u16" => "2", "u32" => "4", _ => x };
            write!(out, "{{\"f\":\"{}\",\"x\":{}}}", f, x).unwrap();
        } }
        out.push_str("],\"st\":[");
        for (i, s) in b.streams.iter().enumerate() {
            if i > 0 { out.push(','); }
            out.push_str("{\"d\":"); js(&mut out, &s.d);
            out.push_str(",\"f\":"); js(&mut out, &s.f);
            write!(out, ",\"pre\":{},\"p\":", s.pre).unwrap();
            jss(&mut out, &s.p.iter().map(|(a, b)| vec![*a as i64, *b as i64]).collect::<Vec<_>>());
            out.push('}');
        }
        out.push_str("]}\n");
        if let Some(mut o) = b.obj {
            for p in parts {
                let t: Vec<&str> = p.split_whitespace().collect();
                if t.is_empty() { continue; }
                let a: Vec<i64> = t[1..].iter().map(|x| x.parse().unwrap()).collect();
                let r = guarded(|| o.call(t[0], &a));
                let dead = r.is_none();
                let r = r.unwrap_or_else(|| obs("panic", 0, vec![], -1));
                write!(out, "{{\"i\":{},\"op\":\"{}\",\"a\":", id, t[0]).unwrap();
                js(&mut out, &a);
                write!(out, ",\"r\":\"{}\",\"n\":{},\"pos\":{},\"v\":", r.r, r.n, r.pos).unwrap();
                jss(&mut out, &r.v);
                out.push_str("}\n");
                if dead { std::mem::forget(o); break; }
            }
        }
        w.write_all(out.as_bytes()).unwrap();
    }
}
