//! C06: memory is released exactly once, with the layout it was requested with; data is aligned.
//!
//! The allocator is under contract (`ghost`): every release must name a live block with the size
//! and alignment it was requested with. Every contract here ends with everything released. Reads
//! and writes outside live blocks are obligations of every contract of every module.
use crate::ghost::{live, placed};
use crate::lay::*;
use crate::sym::*;
use crate::tok::*;
use dync::traits::*;
use dync::*;
use std::mem::{align_of, size_of};

macro_rules! released { () => { check!(live() == 0, "C06 every block is released"); reached!(); } }
/// The elements of a vector are where its block allows them to be.
macro_rules! data { ($d:expr, $T:ty, $m:literal) => {{
    let s = $d.as_slice_as::<$T>().unwrap();
    check!(placed(s.as_ptr(), align_of::<$T>(), s.len() * size_of::<$T>()), "C06 ", $m, " keeps the elements in an aligned block large enough");
}} }
fn vec<T: Lay>() -> VecCopy { VecCopy::from_vec(window_vec::<T>()) }

macro_rules! grown { ($T:ty, $d:ident, $b:block) => {{
    fn on<T: Lay>(mut $d: VecCopy) { $b data!($d, T, "growing a VecCopy"); }
    match any_u8() { 0 => on::<$T>(VecCopy::from_vec(vec_with::<$T>(3, 3))), 1 => on::<$T>(VecCopy::from_vec(vec_with::<$T>(3, 4))), _ => on::<$T>(VecCopy::with_type::<$T>()) };
    released!();
}} }
/// From a typed vector of any length and capacity, and release.
pub fn copy_drop<T: Lay>() {
    let d: VecCopy = VecCopy::from_vec(any_vec::<T>());
    data!(d, T, "VecCopy::from_vec");
    drop(d);
    released!();
}
/// Back to a typed vector.
pub fn copy_round<T: Lay>() {
    let d: VecCopy = VecCopy::from_vec(any_vec::<T>());
    let w = if any_bool() { d.into_vec::<T>().unwrap() } else { let (a, b) = d.into_raw_parts(); let d: VecCopy = unsafe { VecCopy::from_raw_parts(a, b) }; Option::<Vec<T>>::from(d).unwrap() };
    check!(placed(w.as_ptr(), align_of::<T>(), w.capacity() * size_of::<T>()), "C06 VecCopy::into_vec gives a vector that owns its block");
    drop(w);
    released!();
}
/// ... of another type.
pub fn copy_wrong<P: Pair>() {
    let d = vec::<P::A>();
    check!(if any_bool() { d.into_vec::<P::B>().is_none() } else { d.check::<P::B>().is_none() }, "C06 another type is refused");
    released!();
}
/// Construction.
pub fn copy_make<T: Lay>() {
    let k = any_len();
    match any_u8() {
        0 => { let d: VecCopy = VecCopy::with_type::<T>(); data!(d, T, "VecCopy::with_type"); }
        1 => { let d: VecCopy = VecCopy::with_capacity::<T>(k); data!(d, T, "VecCopy::with_capacity"); }
        2 => { let e = T::any(); let d: VecCopy = VecCopy::with_type_from(CopyValueRef::<()>::new(&e)); data!(d, T, "VecCopy::with_type_from"); }
        3 => { let e = T::any(); let d: VecCopy = VecCopy::with_size(2, e); data!(d, T, "VecCopy::with_size"); }
        _ => { let e = T::any(); let s = [e, e]; let d: VecCopy = VecCopy::from_slice(&s[..]); data!(d, T, "VecCopy::from_slice"); }
    }
    released!();
}
/// Growing by pushes.
pub fn copy_push<T: Lay>() {
    let mut d: VecCopy = VecCopy::from_vec(any_vec::<T>());
    let e = T::any();
    if any_bool() { d.push_as(e); } else { d.push(CopyValueRef::<()>::new(&e)); }
    data!(d, T, "pushing to a VecCopy");
    drop(d);
    released!();
}
/// Growing an empty vector.
pub fn copy_push_new<T: Lay>() {
    let e = T::any();
    let mut d: VecCopy = match any_u8() { 0 => VecCopy::with_type::<T>(), 1 => VecCopy::from_vec(Vec::<T>::new()), _ => VecCopy::with_type_from(CopyValueRef::<()>::new(&e)) };
    d.push_as(e);
    d.push(CopyValueRef::<()>::new(&e));
    data!(d, T, "pushing to an empty VecCopy");
    drop(d);
    released!();
}
/// Growing ahead of time.
pub fn copy_reserve<T: Lay>() {
    let mut d: VecCopy = VecCopy::from_vec(any_vec::<T>());
    let k = any_len();
    d.reserve(k);
    let m = d.len() + k;
    check!(placed(d.as_slice_as::<T>().unwrap().as_ptr(), align_of::<T>(), m * size_of::<T>()), "C06 VecCopy::reserve makes room in an aligned block");
    drop(d);
    released!();
}
/// Moving the elements of one vector to another.
pub fn copy_append<T: Lay>() {
    let mut d: VecCopy = VecCopy::from_vec(any_vec::<T>());
    let mut e: VecCopy = VecCopy::from_vec(any_vec::<T>());
    d.append(&mut e);
    data!(d, T, "VecCopy::append");
    data!(e, T, "VecCopy::append (source)");
    drop(e);
    drop(d);
    released!();
}
/// Copies.
pub fn copy_clone<T: Lay>() {
    let d: VecCopy = VecCopy::from_vec(any_vec::<T>());
    let c = d.clone();
    data!(c, T, "VecCopy::clone");
    check!(c.as_slice_as::<T>().unwrap().as_ptr() != d.as_slice_as::<T>().unwrap().as_ptr(), "C06 VecCopy::clone has its own block");
    if any_bool() { drop(d); drop(c); } else { drop(c); drop(d); }
    released!();
}
/// ... into an existing vector.
pub fn copy_clone_from<T: Lay>() {
    let mut d: VecCopy = VecCopy::from_vec(any_vec::<T>());
    let c: VecCopy = VecCopy::from_vec(any_vec::<T>());
    if any_bool() { d.clone_from(&c); data!(d, T, "VecCopy::clone_from"); drop(d); drop(c); }
    else {
        let (mut a, b) = d.into_raw_parts();
        let (s, _t) = c.into_raw_parts();
        a.clone_from(&s);
        let d: VecCopy = unsafe { VecCopy::from_raw_parts(a, b) };
        data!(d, T, "VecVoid::clone_from");
    }
    released!();
}
/// Operations that keep the block.
pub fn copy_keep<T: Lay>() {
    let mut d = vec::<T>();
    let n = d.len();
    let p = d.as_slice_as::<T>().unwrap().as_ptr();
    match any_u8() {
        0 => d.clear(),
        1 => { if n > 0 { let m = below(n); d.resize(m, T::any()); } }
        2 => d.rotate_left(0),
        3 => d.rotate_right(0),
        4 => { let e: VecCopy<()> = d.upcast(); d = e; }
        5 => d.reserve(0),
        _ => { let v = d.copy_into_vec::<T>().unwrap(); check!(n == 0 || placed(v.as_ptr(), align_of::<T>(), n * size_of::<T>()), "C06 VecCopy::copy_into_vec places its elements"); }
    }
    check!(d.as_slice_as::<T>().unwrap().as_ptr() == p, "C06 operations that need no room keep the block");
    drop(d);
    released!();
}
/// Growing by resizing and extending.
/// Bounded: to 5 elements from at most 3, with or without room.
pub fn copy_resize<T: Lay>() { grown!(T, d, { d.resize(5, T::any()); }) }
/// Bounded: 1 element more on at most 3, with or without room.
pub fn copy_extend<T: Lay>() { grown!(T, d, { let s = [T::any()]; d.extend(SliceCopy::<()>::from_slice(&s[..]).iter()); }) }
/// Alignments of every class, none of which fits on a stack comfortably.
pub fn arms_drop<A: Arms>() { A::each(ArmDrop); released!(); }
pub fn arms_reserve<A: Arms>() { A::each(ArmReserve); released!(); }
pub fn arms_clone<A: Arms>() { A::each(ArmClone); released!(); }
pub fn arms_append<A: Arms>() { A::each(ArmAppend); released!(); }
pub trait Op { fn on<T: CopyElem>(self); }
pub trait Arms { fn each(o: impl Op); }
struct ArmDrop; struct ArmReserve; struct ArmClone; struct ArmAppend;
fn at_block<T: CopyElem>(d: &VecCopy, k: usize) {
    check!(placed(d.as_slice_as::<T>().unwrap().as_ptr(), align_of::<T>(), k * size_of::<T>()), "C06 every alignment is served");
}
impl Op for ArmDrop { fn on<T: CopyElem>(self) {
    let d: VecCopy = if any_bool() { VecCopy::with_type::<T>() } else { VecCopy::with_capacity::<T>(3) };
    at_block::<T>(&d, 1);
} }
impl Op for ArmReserve { fn on<T: CopyElem>(self) { let mut d: VecCopy = VecCopy::with_type::<T>(); d.reserve(4); at_block::<T>(&d, 4); d.clear(); } }
impl Op for ArmClone { fn on<T: CopyElem>(self) { let d: VecCopy = VecCopy::with_capacity::<T>(2); let c = d.clone(); drop(d); at_block::<T>(&c, 2); } }
impl Op for ArmAppend { fn on<T: CopyElem>(self) { let mut d: VecCopy = VecCopy::with_capacity::<T>(2); let mut e: VecCopy = VecCopy::with_type::<T>(); d.append(&mut e); at_block::<T>(&d, 2); at_block::<T>(&e, 1); } }
macro_rules! arms { ($($g:ident: $($n:ident $a:literal $k:literal),*);*) => { $(
    $( #[derive(Copy, Clone)] #[repr(C, align($a))] pub struct $n([u8; $a * $k]); )*
    pub struct $g;
    impl Arms for $g { fn each(o: impl Op) { let x = any_u8(); let mut i = 0u8; $( if x == i { return o.on::<$n>(); } #[allow(unused_assignments)] { i += 1; } )* assume(false); } }
)* } }
arms!(Small: P0 1 3, P1 2 1, P2 4 2, P3 8 3, P4 16 1, P5 32 2, P6 64 1, P7 128 3;
      Middle: P8 256 1, P9 512 2, P10 1024 1, P11 2048 1, P12 4096 2, P13 8192 1, P14 16384 1, P15 32768 2;
      Large: P16 65536 1, P17 131072 1, P18 262144 2, P19 524288 1, P20 1048576 1, P21 2097152 1, P22 4194304 1;
      Huge: P23 8388608 1, P24 16777216 2, P25 33554432 1, P26 67108864 1, P27 134217728 1, P28 268435456 1, P29 536870912 1);

/// Boxed values.
pub fn boxed<T: Lay>() {
    let b = BoxValue::<CloneDrop>::new(T::any());
    macro_rules! at { ($b:expr, $m:literal) => { check!(placed($b.as_ref().downcast::<T>().unwrap(), align_of::<T>(), size_of::<T>()), "C06 ", $m, " places the value") } }
    at!(b, "BoxValue::new");
    match any_u8() {
        0 => drop(b),
        1 => drop(b.downcast::<T>()),
        2 => { let c = b.clone(); drop(b); at!(c, "BoxValue::clone"); drop(c); }
        3 => { let c: BoxValue<DropVTable> = b.upcast(); at!(c, "BoxValue::upcast"); drop(c); }
        4 => { let mut b = b; b.as_mut().assign(BoxValue::new(T::any())); drop(b); }
        5 => { let c = b.as_ref().clone_value(); at!(c, "ValueRef::clone_value"); drop(b); drop(c); }
        _ => { let mut b = b; let c = b.as_mut().clone_value(); at!(c, "ValueMut::clone_value"); drop(b); drop(c); }
    }
    released!();
}
/// Swapping copies in chunks.
pub fn boxed_swap<T: Lay>() {
    let mut b = BoxValue::<CloneDrop>::new(T::any());
    let mut c = BoxValue::<CloneDrop>::new(T::any());
    b.as_mut().swap(&mut c.as_mut());
    drop(c);
    drop(b);
    released!();
}
pub fn boxed_wrong<P: Pair>() {
    let b = BoxValue::<CloneDrop>::new(P::A::any());
    match any_u8() {
        0 => check!(b.downcast::<P::B>().is_none(), "C06 another type is refused"),
        1 => { let mut b = b; b.as_mut().assign(BoxValue::new(P::B::any())); drop(b) }
        _ => { let mut b = b; let e = P::B::any(); check!(b.as_mut().clone_from_other(ValueRef::new(&e)).is_err(), "C06 another type is refused"); drop(b) }
    }
    released!();
}
/// Small values.
pub fn small<T: Lay>() {
    let b = SmallValue::<CloneDrop>::new(T::any());
    check!(b.as_ref().downcast::<T>().unwrap() as *const T as usize % align_of::<T>() == 0, "C06 SmallValue::new places the value");
    match any_u8() {
        0 => drop(b),
        1 => drop(b.downcast::<T>()),
        2 => { let c = b.clone(); drop(b); drop(c); }
        3 => { let c: SmallValue<DropVTable> = b.upcast(); drop(c); }
        4 => { let mut b = b; b.as_mut().assign(SmallValue::new(T::any())); drop(b); }
        5 => { let c = b.as_ref().clone_small_value(); drop(b); drop(c); }
        _ => { let c = b.as_ref().clone_value(); drop(b); drop(c); }
    }
    released!();
}
/// Views and references own nothing but their tables.
pub fn views<T: Lay>() {
    let mut v = [T::any(), T::any()];
    match any_u8() {
        0 => { let s = Slice::<CloneDrop>::from_slice(&v); let t: Slice<DropVTable> = s.upcast(); drop(t); }
        1 => { let s = SliceMut::<CloneDrop>::from_slice(&mut v); let t: SliceMut<DropVTable> = s.upcast(); drop(t); }
        2 => { let s = SliceCopy::<CloneDrop>::from_slice(&v); let t: SliceCopy<CloneVTable> = s.upcast(); drop(t); }
        3 => { let s = SliceCopyMut::<CloneDrop>::from_slice(&mut v); let t: SliceCopyMut<CloneVTable> = s.upcast(); drop(t); }
        4 => { let r = ValueRef::<CloneDrop>::new(&v[0]); let s: ValueRef<DropVTable> = r.upcast_ref(); drop(s); drop(r); }
        5 => { let r = ValueRef::<CloneDrop>::new(&v[0]); let s: ValueRef<DropVTable> = r.upcast(); drop(s.reborrow()); drop(s); }
        6 => { let mut r = ValueMut::<CloneDrop>::new(&mut v[0]); drop(r.reborrow_mut()); let s: ValueMut<DropVTable> = r.upcast(); drop(s); }
        7 => { let mut r = ValueMut::<CloneDrop>::new(&mut v[0]); let s: ValueMut<DropVTable> = r.upcast_mut(); drop(s); }
        8 => { let r = CopyValueRef::<CloneDrop>::new(&v[0]); let s: CopyValueRef<CloneVTable> = r.upcast(); drop(s); }
        9 => { let mut r = CopyValueMut::<CloneDrop>::new(&mut v[0]); let s: CopyValueMut<CloneVTable> = r.upcast(); drop(s); }
        10 => { let s = Slice::<CloneDrop>::from_slice(&v); let (a, b) = s.split_at(1); drop(a.get(0)); drop(b.into_iter().next()); }
        11 => { let s = SliceCopy::<CloneDrop>::from_slice(&v); drop(s.subslice(..1)); drop(s.into_iter().next()); }
        _ => { let mut s = SliceMut::<CloneDrop>::from_slice(&mut v); drop(s.get_mut(1)); drop(s.iter().next()); let t = Slice::from(s); drop(t); }
    }
    released!();
}
/// Elements are aligned wherever they are reached.
pub fn aligned<T: Lay>() {
    let v = window_vec::<T>();
    let n = v.len();
    let i = idx(n);
    let mut d = std::mem::ManuallyDrop::new(VecCopy::<()>::from_vec(v));
    let p = match any_u8() {
        _ if n == 0 => d.as_slice_as::<T>().unwrap().as_ptr() as usize,
        0 => d.get_ref(i).downcast::<T>().unwrap() as *const T as usize,
        1 => d.get_mut(i).downcast::<T>().unwrap() as *mut T as usize,
        2 => d.as_slice().get(i).downcast::<T>().unwrap() as *const T as usize,
        3 => d.as_slice().split_at(i).1.as_slice::<T>().unwrap().as_ptr() as usize,
        4 => d.as_mut_slice().subslice(i..).as_slice::<T>().unwrap().as_ptr() as usize,
        _ => d.get_ref_as::<T>(i).unwrap() as *const T as usize,
    };
    check!(p % align_of::<T>() == 0, "C06 every element is aligned");
    reached!();
}

/// Vectors that drop their elements.
fn own<T: Lay>(n: usize, c: usize) -> VecDyn<CloneDrop> { VecDyn::from_vec(vec_with::<T>(n, c)) }
macro_rules! lengths {
    ($f:ident) => {{ match any_u8() { 0 => $f::<T>(0, 0), 1 => $f::<T>(1, 3), _ => $f::<T>(2, 2) }; released!(); }};
    ($f:ident, $P:ty) => {{ match any_u8() { 0 => $f::<$P>(0, 0), _ => $f::<$P>(2, 2) }; released!(); }};
}
fn dyn_round_n<T: Lay>(n: usize, c: usize) {
    let d = own::<T>(n, c);
    data!(d, T, "VecDyn::from_vec");
    match any_u8() {
        0 => drop(d),
        1 => drop(d.into_vec::<T>().unwrap()),
        2 => drop(Option::<Vec<T>>::from(d).unwrap()),
        3 => { let (a, b) = d.into_raw_parts(); drop(unsafe { VecDyn::<CloneDrop>::from_raw_parts(a, b) }) }
        4 => { let e: VecDyn<DropVTable> = d.upcast(); data!(e, T, "VecDyn::upcast"); drop(e) }
        _ => { let mut d = d; d.clear(); data!(d, T, "VecDyn::clear"); drop(d) }
    }
}
/// Bounded: at most 2 elements.
pub fn dyn_round<T: Lay>() { lengths!(dyn_round_n) }
fn dyn_wrong_n<P: Pair>(n: usize, c: usize) {
    let mut d = own::<P::A>(n, c);
    match any_u8() {
        0 => check!(d.into_vec::<P::B>().is_none(), "C06 another type is refused"),
        1 => check!(d.check::<P::B>().is_none(), "C06 another type is refused"),
        2 => { check!(d.push(BoxValue::<CloneDrop>::new(P::B::any())).is_none(), "C06 another type is refused"); drop(d) }
        3 => { let e = P::B::any(); check!(d.push_cloned(ValueRef::new(&e)).is_none(), "C06 another type is refused"); drop(d) }
        _ => { let mut e = own::<P::B>(1, 1); check!(d.append(&mut e).is_none(), "C06 another type is refused"); drop(d); drop(e) }
    }
}
/// Bounded: at most 2 elements.
pub fn dyn_wrong<P: Pair>() { lengths!(dyn_wrong_n, P) }
macro_rules! dyn_op { ($($(#[$m:meta])* $g:ident $f:ident |$d:ident, $n:ident| $b:block)*) => { $(
    fn $g<T: Lay>($n: usize, c: usize) {
        let mut $d = own::<T>($n, c);
        $b
        data!($d, T, "editing a VecDyn");
        drop($d);
    }
    $(#[$m])*
    pub fn $f<T: Lay>() { lengths!($g) }
)* } }
dyn_op! {
    /// Bounded: at most 2 elements.
    dyn_push_as_n dyn_push_as |d, n| { d.push_as(T::any()); }
    /// Bounded: at most 2 elements.
    dyn_push_n dyn_push |d, n| { d.push(BoxValue::<CloneDrop>::new(T::any())); }
    /// Bounded: at most 2 elements.
    dyn_push_cloned_n dyn_push_cloned |d, n| {
        if any_bool() { let e = T::any(); d.push_cloned(ValueRef::new(&e)); } else { let c = BoxValue::<CloneDrop>::new(T::any()); d.push_cloned(c.as_ref()); }
    }
    /// Bounded: at most 2 elements and 2 more.
    dyn_append_n dyn_append |d, n| { let mut e = own::<T>(2, 2); d.append(&mut e); data!(e, T, "VecDyn::append (source)"); drop(e); }
    /// Bounded: at most 2 elements.
    dyn_resize_n dyn_resize |d, n| { if any_bool() { d.resize(n + 1, T::any()); } else { d.resize(1, T::any()); } }
    /// Bounded: at most 2 elements.
    dyn_fill_n dyn_fill |d, n| { d.fill(T::any()); }
    /// Bounded: at most 2 elements.
    dyn_clone_n dyn_clone |d, n| {
        if any_bool() { let e = d.clone(); data!(e, T, "VecDyn::clone"); drop(e) } else { drop(d.clone_into_vec::<T>()) }
    }
}
/// Bounded: at most 2 elements.
pub fn dyn_make<T: Lay>() {
    let k = any_len();
    let e = T::any();
    let d = match any_u8() {
        0 => VecDyn::<CloneDrop>::with_type::<T>(),
        1 => VecDyn::<CloneDrop>::with_capacity::<T>(k),
        2 => VecDyn::<CloneDrop>::with_size(2, e),
        3 => VecDyn::<CloneDrop>::from_slice(&[e, e]),
        4 => { let s = VecDyn::<CloneDrop>::with_type::<T>(); VecDyn::with_type_from(&s) }
        5 => VecDyn::<CloneDrop>::with_type_from(ValueRef::<CloneDrop>::new(&e)),
        _ => into_from::<T>(),
    };
    data!(d, T, "making a VecDyn");
    drop(d);
    released!();
}
fn into_from<T: Lay>() -> VecDyn<CloneDrop> {
    let d = VecDyn::<CloneDrop>::with_type::<T>();
    from_dyn![VecDyn<dyn HasCloneDropT as CloneDrop>](into_dyn![VecDyn<dyn HasCloneDropT>](d))
}

cases! {
    copy_drop [u8_: u8, a3u8: [u8; 3], a32x2: A32x2] more [u32_: u32, u64_: u64, a2u16: [u16; 2], pad: Pad, a16x2: A16x2, a64: A64, a1k: A1k, a128: A128] unwind 2 layout;
    copy_round [a2u16: [u16; 2], a32x2: A32x2] more [u32_: u32, u64_: u64, pad: Pad, a16x2: A16x2, a64: A64, a128: A128, a1k: A1k, u8_: u8] unwind 2 layout;
    copy_wrong [u32_f32: (u32, f32), u8_u32: (u8, u32)] more [a32x2_u8: (A32x2, u8), u8_a128: (u8, A128)] unwind 2 layout;
    copy_make [a2u16: [u16; 2], a32x2: A32x2] more [u32_: u32, u64_: u64, pad: Pad, a16x2: A16x2, a64: A64, a128: A128, a1k: A1k, u8_: u8] unwind 3 layout;
    copy_push [a2u16: [u16; 2], a32x2: A32x2] more [u32_: u32, u64_: u64, pad: Pad, a16x2: A16x2, a64: A64, a128: A128, a1k: A1k, u8_: u8] unwind 2 layout;
    copy_push_new [a3u8: [u8; 3], a32x2: A32x2] more [u32_: u32, u64_: u64, a2u16: [u16; 2], pad: Pad, a16x2: A16x2, a64: A64, a128: A128, a1k: A1k, u8_: u8] unwind 3 layout;
    copy_reserve [a2u16: [u16; 2], a32x2: A32x2] more [u32_: u32, u64_: u64, pad: Pad, a16x2: A16x2, a64: A64, a128: A128, a1k: A1k, u8_: u8] unwind 2 layout;
    copy_append [a2u16: [u16; 2]] more [u32_: u32, u64_: u64, pad: Pad, a32x2: A32x2, a64: A64, a128: A128, u8_: u8] unwind 2 layout;
    copy_clone [a2u16: [u16; 2], a32x2: A32x2] more [u32_: u32, u64_: u64, pad: Pad, a16x2: A16x2, a64: A64, a128: A128, a1k: A1k, u8_: u8] unwind 2 layout;
    copy_clone_from [a2u16: [u16; 2]] more [u32_: u32, u64_: u64, pad: Pad, a32x2: A32x2, u8_: u8] unwind 2 layout;
    copy_keep [a2u16: [u16; 2]] more [u32_: u32, u64_: u64, pad: Pad, u8_: u8, a32x2: A32x2] unwind 2 layout;
    copy_resize [a3u8: [u8; 3], a32x2: A32x2] more [u32_: u32, u64_: u64, a2u16: [u16; 2], pad: Pad, a16x2: A16x2, a64: A64, u8_: u8] unwind 7 layout;
    copy_extend [a3u8: [u8; 3]] more [u32_: u32, u64_: u64, a2u16: [u16; 2], pad: Pad, a16x2: A16x2, a64: A64, u8_: u8, a32x2: A32x2] unwind 3 layout;
    arms_drop [small: Small, middle: Middle, large: Large, huge: Huge] more [] unwind 2 layout;
    arms_reserve [small: Small, huge: Huge] more [middle: Middle, large: Large] unwind 2 layout;
    arms_clone [small: Small, huge: Huge] more [middle: Middle, large: Large] unwind 2 layout;
    arms_append [small: Small] more [middle: Middle, large: Large, huge: Huge] unwind 2 layout;
    boxed [a2u16: [u16; 2], a32x2: A32x2] more [u32_: u32, u64_: u64, a3u8: [u8; 3], pad: Pad, a16x2: A16x2, a64: A64, a1k: A1k, u8_: u8, a128: A128] unwind 20 heap;
    boxed_swap [a2u16: [u16; 2]] more [u32_: u32, u64_: u64, a3u8: [u8; 3], a16x2: A16x2, a64: A64, a128: A128, u8_: u8, a32x2: A32x2] unwind 20 heap;
    boxed_wrong [u32_f32: (u32, f32), a2u16_u64: ([u16; 2], u64)] more [u8_a128: (u8, A128), a128_u8: (A128, u8)] unwind 2 heap;
    small [u64_: u64] more [i64_: i64, pad: Pad, usize_: usize] unwind 2 heap;
    views [a32x2: A32x2] more [u8_: u8, a2u16: [u16; 2], a3u8: [u8; 3], a128: A128, u32_: u32] unwind 3 heap;
    aligned [u32_: u32, a2u16: [u16; 2]] more [u8_: u8, u64_: u64, pad: Pad, a32x2: A32x2, a64: A64] unwind 2 pure;
    dyn_round [a2u16: [u16; 2], a32x2: A32x2] more [u32_: u32, u64_: u64, a3u8: [u8; 3], pad: Pad, a16x2: A16x2, a64: A64, a128: A128, a1k: A1k, u8_: u8] unwind 3 heap;
    dyn_wrong [a2u16_u64: ([u16; 2], u64)] more [u8_a128: (u8, A128), a128_u8: (A128, u8), u32_f32: (u32, f32)] unwind 3 heap;
    dyn_push_as [u8_: u8, a32x2: A32x2] more [u32_: u32, u64_: u64, a2u16: [u16; 2], a3u8: [u8; 3], pad: Pad, a16x2: A16x2, a64: A64, a128: A128, a1k: A1k] unwind 4 heap;
    dyn_push [u8_: u8, a2u16: [u16; 2]] more [u32_: u32, u64_: u64, a3u8: [u8; 3], pad: Pad, a16x2: A16x2, a64: A64, a128: A128, a1k: A1k, a32x2: A32x2] unwind 4 heap;
    dyn_push_cloned [a32x2: A32x2] more [u32_: u32, u64_: u64, a2u16: [u16; 2], pad: Pad, a64: A64, a128: A128, u8_: u8] unwind 4 heap;
    dyn_append [a2u16: [u16; 2]] more [u8_: u8, u32_: u32, u64_: u64, pad: Pad, a32x2: A32x2, a64: A64, a128: A128] unwind 5 heap;
    dyn_resize [a2u16: [u16; 2]] more [u8_: u8, u32_: u32, u64_: u64, pad: Pad, a32x2: A32x2, a64: A64, a128: A128] unwind 4 heap;
    dyn_fill [a2u16: [u16; 2]] more [u8_: u8, u32_: u32, u64_: u64, pad: Pad, a32x2: A32x2, a64: A64, a128: A128] unwind 4 heap;
    dyn_clone [a32x2: A32x2] more [u8_: u8, u32_: u32, u64_: u64, pad: Pad, a64: A64, a128: A128, a2u16: [u16; 2]] unwind 4 heap;
    dyn_make [a2u16: [u16; 2], a32x2: A32x2] more [u32_: u32, u64_: u64, pad: Pad, a64: A64, a128: A128, u8_: u8] unwind 3 heap;
}
