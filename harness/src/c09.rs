//! C09: equality, hashing and formatting agree with the element type's own.
use crate::lay::*;
use crate::sym::*;
use dync::traits::*;
use dync::*;
use std::fmt::{Debug, Write};
use std::hash::{Hash, Hasher};

fn keep<D>(d: D) -> std::mem::ManuallyDrop<D> { std::mem::ManuallyDrop::new(d) }

#[dync_trait]
pub trait Peq: Clone + PartialEq {}
impl<T: Clone + PartialEq> Peq for T {}
type Q = PeqVTable;
#[dync_trait]
pub trait All: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug {}
impl<T: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug> All for T {}
type V = AllVTable;

/// An element whose equality, hash and format are not those of its bytes.
#[derive(Copy, Clone)]
#[repr(C)]
pub struct Ci(pub u8, pub u16);
impl Lay for Ci {
    const LANES: usize = 2;
    fn any() -> Self { Ci(any_bytes_u8(), any_bytes_u16()) }
    fn lane(&self, j: usize) -> u64 { if j == 0 { self.0 as u64 } else { self.1 as u64 } }
}
impl PartialEq for Ci { fn eq(&self, o: &Ci) -> bool { self.0 >> 1 == o.0 >> 1 } }
impl Eq for Ci {}
impl Hash for Ci { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u8(self.0 >> 1); h.write_u8(7) } }
impl Debug for Ci {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if f.alternate() { f.write_str("#")?; }
        f.write_str(if self.0 > 9 { "big" } else { "s" })?;
        if self.1 == 3 { Err(std::fmt::Error) } else { Ok(()) }
    }
}
/// Never equal to itself.
#[derive(Copy, Clone)]
#[repr(C)]
pub struct Ne(pub u8);
impl Lay for Ne {
    const LANES: usize = 1;
    fn any() -> Self { Ne(any_bytes_u8()) }
    fn lane(&self, _: usize) -> u64 { self.0 as u64 }
}
impl PartialEq for Ne { fn eq(&self, o: &Ne) -> bool { self.0 < o.0 } }

/// Run the contract for pairs of lengths from 0 to 3, and two longer pairs.
macro_rules! pairs {
    ($f:ident) => {{ match any_u8() {
        0 => $f::<T>(0, 0), 1 => $f::<T>(0, 1), 2 => $f::<T>(1, 0), 3 => $f::<T>(1, 1), 4 => $f::<T>(1, 2), 5 => $f::<T>(2, 1),
        6 => $f::<T>(2, 2), 7 => $f::<T>(2, 3), 8 => $f::<T>(3, 2), 9 => $f::<T>(3, 0), 10 => $f::<T>(0, 2), 11 => $f::<T>(9, 9), 12 => $f::<T>(9, 10), _ => $f::<T>(3, 3) }; reached!(); }};
}
macro_rules! lengths {
    ($f:ident) => {{ match any_u8() { 0 => $f::<T>(0), 1 => $f::<T>(1), 2 => $f::<T>(2), 3 => $f::<T>(9), _ => $f::<T>(3) }; reached!(); }};
}

fn eq_vec_n<T: Lay + PartialEq>(n: usize, m: usize) {
    let (v, u) = (some::<T>(n), some::<T>(m));
    let want = v == u;
    let (a, b) = (keep(VecDyn::<Q>::from_vec(v)), keep(VecDyn::<Q>::from_vec(u)));
    check!((*a == *b) == want, "C09 VecDyn equality is the equality of the elements");
    check!((*a != *b) == !want, "C09 VecDyn inequality is the inequality of the elements");
}
/// Vectors.
/// Bounded: pairs of lengths up to 3, nine and nine, nine and ten elements.
pub fn eq_vec<T: Lay + PartialEq>() { pairs!(eq_vec_n) }
fn eq_slice_n<T: Lay + PartialEq>(n: usize, m: usize) {
    let (mut v, mut u) = (some::<T>(n), some::<T>(m));
    let want = v == u;
    let got = if any_bool() { Slice::<Q>::from_slice(&v) == Slice::<Q>::from_slice(&u) } else { SliceMut::<Q>::from_slice(&mut v) == SliceMut::<Q>::from_slice(&mut u) };
    check!(got == want, "C09 Slice equality is the equality of the elements");
}
/// Slices.
/// Bounded: pairs of lengths up to 3, nine and nine, nine and ten elements.
pub fn eq_slice<T: Lay + PartialEq>() { pairs!(eq_slice_n) }
pub trait Two { type A: Lay + PartialEq; type B: Lay + PartialEq; }
impl<A: Lay + PartialEq, B: Lay + PartialEq> Two for (A, B) { type A = A; type B = B; }
fn eq_types_n<P: Two>(n: usize) {
    let (mut v, mut u) = (some::<P::A>(n), some::<P::B>(n));
    let got = match any_u8() {
        0 => Slice::<Q>::from_slice(&v) == Slice::<Q>::from_slice(&u),
        1 => SliceMut::<Q>::from_slice(&mut v) == SliceMut::<Q>::from_slice(&mut u),
        _ => { let (a, b) = (keep(VecDyn::<Q>::from_vec(v)), keep(VecDyn::<Q>::from_vec(u))); *a == *b }
    };
    check!(!got, "C09 elements of different types are never equal");
}
/// Containers of different types.
/// Bounded: 1 to 3 elements.
pub fn eq_types<P: Two>() { match any_u8() { 0 => eq_types_n::<P>(1), 1 => eq_types_n::<P>(2), _ => eq_types_n::<P>(3) }; reached!(); }

/// Single values.
pub fn eq_value<T: Lay + PartialEq>() {
    let (mut a, mut b) = (T::any(), T::any());
    let want = a == b;
    let got = match any_u8() {
        0 => *keep(BoxValue::<Q>::new(a)) == *keep(BoxValue::<Q>::new(b)),
        1 => ValueRef::<Q>::new(&a) == ValueRef::<Q>::new(&b),
        2 => ValueMut::<Q>::new(&mut a) == ValueMut::<Q>::new(&mut b),
        3 => CopyValueRef::<Q>::new(&a) == CopyValueRef::<Q>::new(&b),
        _ => CopyValueMut::<Q>::new(&mut a) == CopyValueMut::<Q>::new(&mut b),
    };
    check!(got == want, "C09 value equality is the equality of the type");
    reached!();
}
pub fn eq_small<T: Lay + PartialEq>() {
    let (a, b) = (T::any(), T::any());
    let want = a == b;
    check!((*keep(SmallValue::<Q>::new(a)) == *keep(SmallValue::<Q>::new(b))) == want, "C09 small value equality is the equality of the type");
    reached!();
}
pub fn eq_value_types<P: Two>() {
    let (mut a, mut b) = (P::A::any(), P::B::any());
    let got = match any_u8() {
        0 => *keep(BoxValue::<Q>::new(a)) == *keep(BoxValue::<Q>::new(b)),
        1 => ValueRef::<Q>::new(&a) == ValueRef::<Q>::new(&b),
        2 => ValueMut::<Q>::new(&mut a) == ValueMut::<Q>::new(&mut b),
        3 => CopyValueRef::<Q>::new(&a) == CopyValueRef::<Q>::new(&b),
        _ => CopyValueMut::<Q>::new(&mut a) == CopyValueMut::<Q>::new(&mut b),
    };
    check!(!got, "C09 values of different types are never equal");
    reached!();
}
pub fn eq_small_types<P: Two>() {
    check!(*keep(SmallValue::<Q>::new(P::A::any())) != *keep(SmallValue::<Q>::new(P::B::any())), "C09 small values of different types are never equal");
    reached!();
}

/// Everything that is fed to a hasher, in order.
pub struct Rec { buf: [u8; 160], n: usize }
impl Rec {
    fn new() -> Rec { Rec { buf: [0; 160], n: 0 } }
    fn same(&self, o: &Rec) -> bool {
        let i = any_usize();
        assume(i < 160);
        self.n == o.n && (i >= self.n || self.buf[i] == o.buf[i])
    }
}
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() { self.buf[self.n] = b[i]; self.n += 1; i += 1; }
    }
}
fn hash_vec_n<T: Lay + Eq + Hash + Debug>(n: usize) {
    let v = some::<T>(n);
    let mut want = Rec::new();
    if n > 0 { v[0].hash(&mut want); }
    if n > 1 { v[1].hash(&mut want); }
    if n > 2 { v[2].hash(&mut want); }
    let mut k = 3;
    while k < n { v[k].hash(&mut want); k += 1; }
    let d = keep(VecDyn::<V>::from_vec(v));
    let mut got = Rec::new();
    d.hash(&mut got);
    check!(got.same(&want), "C09 VecDyn hashing is the hashing of the elements in order");
}
/// Hashing a vector.
/// Bounded: at most 3 elements, or 9.
pub fn hash_vec<T: Lay + Eq + Hash + Debug>() { lengths!(hash_vec_n) }
/// Hashing values.
pub fn hash_value<T: Lay + Eq + Hash + Debug>() {
    let mut a = T::any();
    let (mut want, mut got) = (Rec::new(), Rec::new());
    a.hash(&mut want);
    match any_u8() {
        0 => keep(BoxValue::<V>::new(a)).hash(&mut got),
        1 => ValueRef::<V>::new(&a).hash(&mut got),
        2 => ValueMut::<V>::new(&mut a).hash(&mut got),
        3 => CopyValueRef::<V>::new(&a).hash(&mut got),
        _ => CopyValueMut::<V>::new(&mut a).hash(&mut got),
    }
    check!(got.same(&want), "C09 value hashing is the hashing of the type");
    reached!();
}
pub fn hash_small<T: Lay + Eq + Hash + Debug>() {
    let a = T::any();
    let (mut want, mut got) = (Rec::new(), Rec::new());
    a.hash(&mut want);
    keep(SmallValue::<V>::new(a)).hash(&mut got);
    check!(got.same(&want), "C09 small value hashing is the hashing of the type");
    reached!();
}

/// Everything that is written, in order.
pub struct Sink { buf: [u8; 64], n: usize }
impl Sink {
    fn new() -> Sink { Sink { buf: [0; 64], n: 0 } }
    fn same(&self, o: &Sink) -> bool {
        let i = any_usize();
        assume(i < 64);
        self.n == o.n && (i >= self.n || self.buf[i] == o.buf[i])
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() { self.buf[self.n] = b[i]; self.n += 1; i += 1; }
        Ok(())
    }
}
fn debug_vec_n<T: Lay + Eq + Hash + Debug>(n: usize) {
    let mut v = some::<T>(n);
    let (mut want, mut got) = (Sink::new(), Sink::new());
    let a = write!(want, "{:?}", v);
    let b = match any_u8() {
        0 => write!(got, "{:?}", Slice::<V>::from_slice(&v)),
        1 => write!(got, "{:?}", SliceMut::<V>::from_slice(&mut v)),
        _ => { let d = keep(VecDyn::<V>::from_vec(v)); write!(got, "{:?}", *d) }
    };
    check!(a.is_ok() == b.is_ok(), "C09 container formatting fails when the elements' formatting fails");
    check!(got.same(&want), "C09 container formatting is the list of the elements' own formats");
}
/// Formatting containers.
/// Bounded: at most 2 elements, or 5.
pub fn debug_vec<T: Lay + Eq + Hash + Debug>() { match any_u8() { 0 => debug_vec_n::<T>(0), 1 => debug_vec_n::<T>(1), 2 => debug_vec_n::<T>(5), _ => debug_vec_n::<T>(2) }; reached!(); }
/// Formatting values.
pub fn debug_value<T: Lay + Eq + Hash + Debug>() {
    let mut x = T::any();
    let (mut want, mut got) = (Sink::new(), Sink::new());
    let alt = any_bool();
    let a = if alt { write!(want, "{:#?}", x) } else { write!(want, "{:?}", x) };
    fn put(got: &mut Sink, alt: bool, d: &dyn Debug) -> std::fmt::Result { if alt { write!(got, "{:#?}", d) } else { write!(got, "{:?}", d) } }
    let b = match any_u8() {
        0 => put(&mut got, alt, &*keep(BoxValue::<V>::new(x))),
        1 => put(&mut got, alt, &ValueRef::<V>::new(&x)),
        2 => put(&mut got, alt, &ValueMut::<V>::new(&mut x)),
        3 => put(&mut got, alt, &CopyValueRef::<V>::new(&x)),
        _ => put(&mut got, alt, &CopyValueMut::<V>::new(&mut x)),
    };
    check!(a.is_ok() == b.is_ok(), "C09 value formatting fails when the type's formatting fails");
    check!(got.same(&want), "C09 value formatting is the type's own format");
    reached!();
}

cases! {
    eq_vec [u8_: u8, f32_: f32, ci: Ci, a3u8: [u8; 3], ne: Ne] more [f64_: f64, u64_: u64, a2u16: [u16; 2]] unwind 33 flat;
    eq_slice [u8_: u8, f32_: f32, ci: Ci, ne: Ne] more [f64_: f64, u64_: u64, a3u8: [u8; 3], a2u16: [u16; 2]] unwind 14 flat;
    eq_types [u32_f32: (u32, f32), u8_ne: (u8, Ne)] more [u64_i64: (u64, i64), a2u8_u16: ([u8; 2], u16)] unwind 6 flat;
    eq_value [f32_: f32, ci: Ci, a3u8: [u8; 3], ne: Ne] more [u64_: u64, a2u16: [u16; 2]] unwind 6 flat;
    eq_small [f64_: f64, u64_: u64] more [i64_: i64, a2u32: [u32; 2]] unwind 6 flat;
    eq_value_types [u32_f32: (u32, f32), u8_ne: (u8, Ne)] more [u64_i64: (u64, i64), a2u8_u16: ([u8; 2], u16)] unwind 6 flat;
    eq_small_types [u64_f64: (u64, f64)] more [u64_i64: (u64, i64)] unwind 6 flat;
    hash_vec [u8_: u8, ci: Ci, a2u16: [u16; 2]] more [u32_: u32, u64_: u64] unwind 14 flat;
    hash_value [u32_: u32, ci: Ci, a2u16: [u16; 2]] more [u64_: u64, u8_: u8] unwind 14 flat;
    hash_small [u64_: u64] more [i64_: i64, a2u32: [u32; 2]] unwind 14 flat;
    debug_vec [ci: Ci] more [] unwind 14 flat;
    debug_value [ci: Ci] more [] unwind 14 flat;
}
