//! C11: converting the behaviour table or the erased view preserves data and behaviour.
use crate::lay::*;
use crate::sym::*;
use crate::tok::*;
use dync::traits::*;
use dync::*;
use std::hash::{Hash, Hasher};
use std::any::Any;
use std::fmt::Write;

fn keep<D>(d: D) -> std::mem::ManuallyDrop<D> { std::mem::ManuallyDrop::new(d) }

/// A hierarchy of tables: `All` has everything, `Mid` is one of its own bases.
#[dync_mod]
mod tables {
    pub trait Mid: Clone + PartialEq {}
    impl<T: Clone + PartialEq> Mid for T {}
    pub trait All: Mid + Eq + std::hash::Hash + std::fmt::Debug {}
    impl<T: Mid + Eq + std::hash::Hash + std::fmt::Debug> All for T {}
}
use tables::*;

/// The address, length and type of what a slice shows.
macro_rules! shows {
    ($w:expr, $T:ty, $p:expr, $n:expr, $m:literal) => {{
        #[allow(unused_mut)]
        let mut w = $w;
        check!(w.len() == $n, "C11 ", $m, " keeps the length");
        check!(w.element_type_id() == std::any::TypeId::of::<$T>(), "C11 ", $m, " keeps the type");
        let t = w.as_slice::<$T>().unwrap();
        check!(t.len() == $n && t.as_ptr() == $p, "C11 ", $m, " keeps the elements in place");
    }};
}

/// Vectors: length, type, elements, storage.
pub fn vec_dyn<T: Lay + Eq + std::hash::Hash + std::fmt::Debug>() {
    let v = window_vec::<T>();
    let (n, p) = (v.len(), v.as_ptr());
    macro_rules! is { ($e:expr, $m:literal) => {{
        let e = keep($e);
        check!(e.len() == n, "C11 ", $m, " keeps the length");
        check!(e.element_type_id() == std::any::TypeId::of::<T>(), "C11 ", $m, " keeps the type");
        let s = e.as_slice_as::<T>().unwrap();
        check!(s.len() == n && (n == 0 || s.as_ptr() == p), "C11 ", $m, " keeps the elements in place");
    }} }
    let d = VecDyn::<AllVTable>::from_vec(v);
    match any_u8() {
        0 => is!(d.upcast::<DropVTable>(), "VecDyn::upcast to DropVTable"),
        1 => is!(d.upcast::<MidVTable>().upcast::<CloneVTable>(), "VecDyn::upcast to a base and on"),
        2 => is!(into_dyn![VecDyn<dyn HasAll>](d), "into_dyn of a VecDyn"),
        3 => is!(from_dyn![VecDyn<dyn HasAll as AllVTable>](into_dyn![VecDyn<dyn HasAll>](d)), "from_dyn of a VecDyn"),
        _ => { let (a, b) = d.into_raw_parts(); is!(unsafe { VecDyn::<AllVTable>::from_raw_parts(a, b) }, "VecDyn::from_raw_parts") }
    }
    reached!();
}
pub fn vec_copy<T: Lay + Eq + std::hash::Hash + std::fmt::Debug>() {
    let v = window_vec::<T>();
    let (n, p) = (v.len(), v.as_ptr());
    macro_rules! is { ($e:expr, $m:literal) => {{
        let e = keep($e);
        check!(e.len() == n, "C11 ", $m, " keeps the length");
        check!(e.element_type_id() == std::any::TypeId::of::<T>(), "C11 ", $m, " keeps the type");
        let s = e.as_slice_as::<T>().unwrap();
        check!(s.len() == n && (n == 0 || s.as_ptr() == p), "C11 ", $m, " keeps the elements in place");
    }} }
    let d = VecCopy::<AllVTable>::from_vec(v);
    match any_u8() {
        0 => is!(d.upcast::<MidVTable>(), "VecCopy::upcast"),
        1 => is!(d.upcast_with(|_| 5u8), "VecCopy::upcast_with"),
        2 => is!(into_dyn![VecCopy<dyn HasAll>](d), "into_dyn of a VecCopy"),
        3 => is!(from_dyn![VecCopy<dyn HasAll as AllVTable>](into_dyn![VecCopy<dyn HasAll>](d)), "from_dyn of a VecCopy"),
        _ => { let (a, b) = d.into_raw_parts(); is!(unsafe { VecCopy::<AllVTable>::from_raw_parts(a, b) }, "VecCopy::from_raw_parts") }
    }
    reached!();
}
/// Slices.
pub fn slices<T: Lay + Eq + std::hash::Hash + std::fmt::Debug>() {
    let mut v = window_vec::<T>();
    let (n, p) = (v.len(), v.as_ptr());
    match any_u8() {
        0 => shows!(Slice::<AllVTable>::from_slice(&v).upcast::<MidVTable>(), T, p, n, "Slice::upcast"),
        1 => shows!(SliceMut::<AllVTable>::from_slice(&mut v).upcast::<MidVTable>(), T, p, n, "SliceMut::upcast"),
        2 => shows!(SliceCopy::<AllVTable>::from_slice(&v).upcast::<MidVTable>(), T, p, n, "SliceCopy::upcast"),
        3 => shows!(SliceCopyMut::<AllVTable>::from_slice(&mut v).upcast::<MidVTable>(), T, p, n, "SliceCopyMut::upcast"),
        4 => shows!(into_dyn![Slice<dyn HasAll>](Slice::<AllVTable>::from_slice(&v)), T, p, n, "into_dyn of a Slice"),
        5 => shows!(into_dyn![SliceCopy<dyn Any>](SliceCopy::<AllVTable>::from_slice(&v)), T, p, n, "into_dyn of a SliceCopy"),
        6 => shows!(into_dyn![SliceCopyMut<dyn Any>](SliceCopyMut::<AllVTable>::from_slice(&mut v)), T, p, n, "into_dyn of a SliceCopyMut"),
        7 => shows!(Slice::from(SliceMut::<AllVTable>::from_slice(&mut v)), T, p, n, "Slice::from a SliceMut"),
        8 => shows!(SliceCopy::from(SliceCopyMut::<AllVTable>::from_slice(&mut v)), T, p, n, "SliceCopy::from a SliceCopyMut"),
        9 => { let mut s = SliceMut::<AllVTable>::from_slice(&mut v); shows!(s.reborrow(), T, p, n, "SliceMut::reborrow"); shows!(s.reborrow_mut(), T, p, n, "SliceMut::reborrow_mut") }
        10 => { let mut s = SliceCopyMut::<AllVTable>::from_slice(&mut v); shows!(s.reborrow(), T, p, n, "SliceCopyMut::reborrow"); shows!(s.reborrow_mut(), T, p, n, "SliceCopyMut::reborrow_mut") }
        11 => { let s = Slice::<AllVTable>::from_slice(&v); shows!(s.reborrow(), T, p, n, "Slice::reborrow") }
        12 => { let s = SliceCopy::<AllVTable>::from_slice(&v); shows!(s.reborrow(), T, p, n, "SliceCopy::reborrow") }
        13 => { let d = keep(VecDyn::<AllVTable>::from_vec(v)); let p = d.as_slice_as::<T>().unwrap().as_ptr(); shows!(d.as_slice(), T, p, n, "VecDyn::as_slice") }
        14 => { let mut d = keep(VecDyn::<AllVTable>::from_vec(v)); let p = d.as_slice_as::<T>().unwrap().as_ptr(); shows!(d.as_mut_slice(), T, p, n, "VecDyn::as_mut_slice") }
        15 => { let d = keep(VecCopy::<AllVTable>::from_vec(v)); let p = d.as_slice_as::<T>().unwrap().as_ptr(); shows!(d.as_slice(), T, p, n, "VecCopy::as_slice") }
        _ => { let mut d = keep(VecCopy::<AllVTable>::from_vec(v)); let p = d.as_slice_as::<T>().unwrap().as_ptr(); shows!(d.as_mut_slice(), T, p, n, "VecCopy::as_mut_slice") }
    }
    reached!();
}
/// Values and references.
pub fn values<T: Lay + Eq + std::hash::Hash + std::fmt::Debug>() {
    let mut x = T::any();
    let p = &x as *const T;
    macro_rules! at { ($r:expr, $m:literal) => {{
        let r = $r;
        check!(r.value_type_id() == std::any::TypeId::of::<T>() && r.size() == std::mem::size_of::<T>(), "C11 ", $m, " keeps the type");
        check!(r.downcast::<T>().map(|r| r as *const T) == Some(p), "C11 ", $m, " keeps the place");
    }} }
    match any_u8() {
        0 => at!(ValueRef::<AllVTable>::new(&x).upcast::<MidVTable>(), "ValueRef::upcast"),
        1 => { let r = ValueRef::<AllVTable>::new(&x); at!(r.upcast_ref::<MidVTable>(), "ValueRef::upcast_ref") }
        2 => { let r = ValueRef::<AllVTable>::new(&x); at!(r.reborrow(), "ValueRef::reborrow") }
        3 => at!(ValueMut::<AllVTable>::new(&mut x).upcast::<MidVTable>(), "ValueMut::upcast"),
        4 => { let mut r = ValueMut::<AllVTable>::new(&mut x); at!(r.upcast_mut::<MidVTable>(), "ValueMut::upcast_mut") }
        5 => at!(ValueRef::from(ValueMut::<AllVTable>::new(&mut x)), "ValueRef::from a ValueMut"),
        6 => at!(CopyValueRef::<AllVTable>::new(&x).upcast::<MidVTable>(), "CopyValueRef::upcast"),
        7 => { let r = CopyValueRef::<AllVTable>::new(&x); at!(r.upcast_ref::<MidVTable>(), "CopyValueRef::upcast_ref") }
        8 => { let mut r = CopyValueMut::<AllVTable>::new(&mut x); at!(r.upcast::<MidVTable>(), "CopyValueMut::upcast") }
        9 => at!(CopyValueRef::from(CopyValueMut::<AllVTable>::new(&mut x)), "CopyValueRef::from a CopyValueMut"),
        10 => at!(ValueRef::<(DropFn, AllVTable)>::from(CopyValueRef::<AllVTable>::new(&x)), "ValueRef::from a CopyValueRef"),
        11 => at!(ValueMut::<(DropFn, AllVTable)>::from(CopyValueMut::<AllVTable>::new(&mut x)), "ValueMut::from a CopyValueMut"),
        12 => { let r = ValueMut::<AllVTable>::new(&mut x); at!(r.reborrow(), "ValueMut::reborrow") }
        _ => { let mut r = ValueMut::<AllVTable>::new(&mut x); at!(r.reborrow_mut(), "ValueMut::reborrow_mut") }
    }
    reached!();
}
/// Owned values.
pub fn owned<T: Lay + Eq + std::hash::Hash + std::fmt::Debug>() {
    let x = T::any();
    let b = BoxValue::<AllVTable>::new(x);
    let p = b.as_ref().downcast::<T>().unwrap() as *const T;
    let c = keep(b.upcast::<MidVTable>().upcast::<DropVTable>());
    check!(c.value_type_id() == std::any::TypeId::of::<T>() && c.size() == std::mem::size_of::<T>(), "C11 BoxValue::upcast keeps the type");
    let r = c.as_ref().downcast::<T>();
    check!(r.map(|r| r as *const T) == Some(p), "C11 BoxValue::upcast keeps the place");
    check!(same(r.unwrap(), &x), "C11 BoxValue::upcast keeps the value");
    reached!();
}
pub fn owned_small<T: Lay + Eq + std::hash::Hash + std::fmt::Debug>() {
    let x = T::any();
    let c = keep(SmallValue::<AllVTable>::new(x).upcast::<MidVTable>().upcast::<DropVTable>());
    check!(c.value_type_id() == std::any::TypeId::of::<T>() && c.size() == std::mem::size_of::<T>(), "C11 SmallValue::upcast keeps the type");
    check!(same(c.as_ref().downcast::<T>().unwrap(), &x), "C11 SmallValue::upcast keeps the value");
    reached!();
}

/// Behaviour after conversion. `Tb` behaves unlike its bytes in every respect.
#[derive(Copy, Clone)]
#[repr(C)]
pub struct Tb(u8, u8);
impl PartialEq for Tb { fn eq(&self, o: &Tb) -> bool { self.0 >> 1 == o.0 >> 1 } }
impl Eq for Tb {}
impl Hash for Tb { fn hash<H: Hasher>(&self, h: &mut H) { h.write(&[self.0 >> 1]) } }
impl std::fmt::Debug for Tb { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(if self.0 > 9 { "big" } else { "s" }) } }
struct One(u64, u64);
impl Hasher for One {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { self.0 = self.0 * 256 + b[0] as u64; self.1 += b.len() as u64; }
}
struct Len(usize);
impl std::fmt::Write for Len { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len(); Ok(()) } }
fn hashed<X: Hash>(x: &X) -> (u64, u64) { let mut h = One(0, 0); x.hash(&mut h); (h.0, h.1) }
fn shown<X: std::fmt::Debug>(x: &X) -> usize { let mut l = Len(0); check!(write!(l, "{:?}", x).is_ok(), "C11 formatting works after conversion"); l.0 }

pub fn eq_after<T: Two2>() {
    let (mut a, mut b) = (Tb(any_u8(), any_u8()), Tb(any_u8(), any_u8()));
    let want = a == b;
    let got = match any_u8() {
        0 => ValueRef::<AllVTable>::new(&a).upcast::<PartialEqVTable>() == ValueRef::<AllVTable>::new(&b).upcast::<PartialEqVTable>(),
        1 => ValueRef::<AllVTable>::new(&a).upcast::<EqVTable>() == ValueRef::<AllVTable>::new(&b).upcast::<EqVTable>(),
        2 => ValueRef::<AllVTable>::new(&a).upcast::<MidVTable>() == ValueRef::<AllVTable>::new(&b).upcast::<MidVTable>(),
        3 => ValueMut::<AllVTable>::new(&mut a).upcast::<MidVTable>() == ValueMut::<AllVTable>::new(&mut b).upcast::<MidVTable>(),
        4 => *keep(BoxValue::<AllVTable>::new(a).upcast::<MidVTable>()) == *keep(BoxValue::<AllVTable>::new(b).upcast::<MidVTable>()),
        5 => { let (v, u) = ([a, a], [b, b]); Slice::<AllVTable>::from_slice(&v).upcast::<MidVTable>() == Slice::<AllVTable>::from_slice(&u).upcast::<MidVTable>() }
        6 => { let (v, u) = ([a, a], [b, b]); into_dyn![Slice<dyn HasAll>](Slice::<AllVTable>::from_slice(&v)) == into_dyn![Slice<dyn HasAll>](Slice::<AllVTable>::from_slice(&u)) }
        7 => *keep(into_dyn![VecDyn<dyn HasAll>](VecDyn::<AllVTable>::from_vec(vec![a, a]))) == *keep(into_dyn![VecDyn<dyn HasAll>](VecDyn::<AllVTable>::from_vec(vec![b, b]))),
        8 => CopyValueRef::<AllVTable>::new(&a).upcast::<MidVTable>() == CopyValueRef::<AllVTable>::new(&b).upcast::<MidVTable>(),
        _ => *keep(VecDyn::<AllVTable>::from_vec(vec![a, a]).upcast::<MidVTable>()) == *keep(VecDyn::<AllVTable>::from_vec(vec![b, b]).upcast::<MidVTable>()),
    };
    check!(got == want, "C11 comparing after conversion is the equality of the type");
    reached!();
}
pub fn hash_after<T: Two2>() {
    let mut a = Tb(any_u8(), any_u8());
    let want = hashed(&a);
    let got = match any_u8() {
        0 => hashed(&ValueRef::<AllVTable>::new(&a).upcast::<HashVTable>()),
        1 => hashed(&ValueMut::<AllVTable>::new(&mut a).upcast::<HashVTable>()),
        2 => hashed(&*keep(BoxValue::<AllVTable>::new(a).upcast::<HashVTable>())),
        3 => hashed(&*keep(VecDyn::<AllVTable>::from_vec(vec![a]).upcast::<HashVTable>())),
        4 => hashed(&*keep(into_dyn![VecDyn<dyn HasAll>](VecDyn::<AllVTable>::from_vec(vec![a])))),
        _ => hashed(&CopyValueRef::<AllVTable>::new(&a).upcast::<HashVTable>()),
    };
    check!(got == want, "C11 hashing after conversion is the hashing of the type");
    reached!();
}
pub fn debug_after<T: Two2>() {
    let mut a = Tb(any_u8(), any_u8());
    let want = shown(&a);
    let got = match any_u8() {
        0 => shown(&ValueRef::<AllVTable>::new(&a).upcast::<DebugVTable>()),
        1 => shown(&ValueMut::<AllVTable>::new(&mut a).upcast::<DebugVTable>()),
        2 => shown(&*keep(BoxValue::<AllVTable>::new(a).upcast::<DebugVTable>())),
        3 => shown(&*keep(VecDyn::<AllVTable>::from_vec(vec![a]).upcast::<DebugVTable>())) - 2,
        _ => shown(&CopyValueRef::<AllVTable>::new(&a).upcast::<DebugVTable>()),
    };
    check!(got == want, "C11 formatting after conversion is the format of the type");
    reached!();
}
/// Only names the case: these contracts have one instance.
pub trait Two2 {}
impl Two2 for () {}

/// Cloning and dropping after conversion.
/// Bounded: 2 elements.
pub fn clone_after<T: Token>() {
    match any_u8() {
        0 => { let d = keep(VecDyn::<TkVTable>::from_vec(toks::<T>(2, 2)).upcast::<CloneVTable>()); let c = keep((*d).clone());
               let s = c.as_slice_as::<T>().unwrap();
               check!(created() == 4 && s[0].id() == 2 && origin(2) == 0 && s[1].id() == 3 && origin(3) == 1, "C11 cloning a converted VecDyn clones every element") }
        1 => { let b = keep(BoxValue::<TkVTable>::new(T::new()).upcast::<CloneVTable>()); let c = keep((*b).clone());
               check!(created() == 2 && c.as_ref().downcast::<T>().unwrap().id() == 1 && origin(1) == 0, "C11 cloning a converted BoxValue clones the value") }
        2 => { let t = keep(T::new()); let c = keep(ValueRef::<TkVTable>::new(&*t).upcast::<CloneVTable>().clone_value());
               check!(created() == 2 && c.as_ref().downcast::<T>().unwrap().id() == 1 && origin(1) == 0, "C11 cloning a converted ValueRef clones the value") }
        3 => { let (mut t, u) = (keep(T::new()), keep(T::new()));
               check!(ValueMut::<TkVTable>::new(&mut *t).upcast::<CloneVTable>().clone_from_other(ValueRef::new(&*u)).is_ok(), "C11 clone_from_other after conversion");
               check!(created() == 3 && !alive(0) && t.id() == 2 && origin(2) == 1, "C11 cloning into a converted ValueMut clones the value") }
        _ => { let mut d = keep(VecDyn::<TkVTable>::from_vec(toks::<T>(1, 1)).upcast::<CloneVTable>()); let t = keep(T::new());
               check!(d.push_cloned(ValueRef::new(&*t)).is_some(), "C11 push_cloned after conversion");
               check!(created() == 3 && d.as_slice_as::<T>().unwrap()[1].id() == 2 && origin(2) == 1, "C11 pushing a clone to a converted VecDyn clones the value") }
    }
    reached!();
}
/// Bounded: 2 elements.
pub fn drop_after<T: Token>() {
    match any_u8() {
        0 => drop(VecDyn::<TkVTable>::from_vec(toks::<T>(2, 2)).upcast::<DropVTable>()),
        1 => drop(VecDyn::<TkVTable>::from_vec(toks::<T>(2, 2)).upcast::<CloneVTable>()),
        2 => drop(VecDyn::<TkVTable>::from_vec(toks::<T>(2, 2)).upcast::<PartialEqVTable>()),
        3 => drop(into_dyn![VecDyn<dyn HasTk>](VecDyn::<TkVTable>::from_vec(toks::<T>(2, 2)))),
        4 => drop(from_dyn![VecDyn<dyn HasTk as TkVTable>](into_dyn![VecDyn<dyn HasTk>](VecDyn::<TkVTable>::from_vec(toks::<T>(2, 2))))),
        5 => drop(BoxValue::<TkVTable>::new(T::new()).upcast::<CloneVTable>().upcast_drop()),
        _ => drop(BoxValue::<TkVTable>::new(T::new()).upcast::<PartialEqVTable>()),
    }
    check!(alive_count() == 0 && created() > 0, "C11 dropping a converted container drops every element");
    reached!();
}
/// Nothing further: `CloneVTable` has no base of its own.
trait UpcastDrop { fn upcast_drop(self) -> Self; }
impl UpcastDrop for BoxValue<CloneVTable> { fn upcast_drop(self) -> Self { self } }

cases! {
    vec_dyn [u8_: u8, u32_: u32, a3u8: [u8; 3]] more [a2u16: [u16; 2], u64_: u64] unwind 2 pure;
    vec_copy [u8_: u8, u32_: u32, a3u8: [u8; 3]] more [a2u16: [u16; 2], u64_: u64] unwind 2 pure;
    slices [u8_: u8, u32_: u32] more [a3u8: [u8; 3], a2u16: [u16; 2], u64_: u64] unwind 2 pure;
    values [u8_: u8, u32_: u32, a2u16: [u16; 2]] more [a3u8: [u8; 3], u64_: u64] unwind 2 flat;
    owned [u8_: u8, u32_: u32, a2u16: [u16; 2]] more [a3u8: [u8; 3], u64_: u64] unwind 2 flat;
    owned_small [u64_: u64] more [i64_: i64] unwind 2 flat;
    eq_after [one: ()] more [] unwind 4 flat;
    hash_after [one: ()] more [] unwind 4 flat;
    debug_after [one: ()] more [] unwind 14 flat;
    clone_after [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 27 flat;
    drop_after [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 26 flat;
}
