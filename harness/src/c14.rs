//! C14: an untyped vector of owned data is edited exactly like a typed vector.
//!
//! Every contract starts from an arbitrary vector, so each is the induction step for arbitrary
//! histories of operations. The elements are plain data here; what is dropped and cloned when is the
//! subject of C04 and C05.
use crate::lay::*;
use crate::sym::*;
use crate::tok::CloneDrop;
use dync::*;

type V = CloneDrop;
fn keep<D>(d: D) -> std::mem::ManuallyDrop<D> { std::mem::ManuallyDrop::new(d) }
/// Lane `j` of the element at `i` of an untyped vector.
fn at<T: Lay>(d: &VecDyn<V>, i: usize, j: usize) -> u64 { d.as_slice_as::<T>().unwrap()[i].lane(j) }

/// Typed push.
pub fn push_as<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let (i, j) = (upto(n), below(T::LANES));
    let e = T::any();
    let x = if i < n { v[i].lane(j) } else { e.lane(j) };
    let mut d = keep(VecDyn::<V>::from_vec(v));
    check!(d.push_as(e).is_some(), "C14 VecDyn::push_as accepts the type");
    check!(d.len() == n + 1, "C14 VecDyn::push_as adds one element");
    check!(at::<T>(&d, i, j) == x, "C14 VecDyn::push_as adds at the end and keeps the rest");
    reached!();
}
/// Pushing a boxed value.
pub fn push<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let (i, j) = (upto(n), below(T::LANES));
    let e = T::any();
    let x = if i < n { v[i].lane(j) } else { e.lane(j) };
    let mut d = keep(VecDyn::<V>::from_vec(v));
    check!(d.push(BoxValue::<V>::new(e)).is_some(), "C14 VecDyn::push accepts the type");
    check!(d.len() == n + 1, "C14 VecDyn::push adds one element");
    check!(at::<T>(&d, i, j) == x, "C14 VecDyn::push adds at the end and keeps the rest");
    reached!();
}
/// Pushing a clone of a value.
pub fn push_cloned<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let (i, j) = (upto(n), below(T::LANES));
    let e = T::any();
    let x = if i < n { v[i].lane(j) } else { e.lane(j) };
    let mut d = keep(VecDyn::<V>::from_vec(v));
    check!(d.push_cloned(ValueRef::new(&e)).is_some(), "C14 VecDyn::push_cloned accepts the type");
    check!(d.len() == n + 1, "C14 VecDyn::push_cloned adds one element");
    check!(at::<T>(&d, i, j) == x, "C14 VecDyn::push_cloned adds at the end and keeps the rest");
    reached!();
}
/// The three pushes with another type.
pub fn push_wrong<P: Pair>() {
    let v = any_vec::<P::A>();
    let n = v.len();
    let (i, j) = (any_usize(), below(P::A::LANES));
    let x = if i < n { v[i].lane(j) } else { 0 };
    let e = P::B::any();
    let mut d = keep(VecDyn::<V>::from_vec(v));
    if any_bool() {
        check!(d.push(BoxValue::<V>::new(e)).is_none(), "C14 VecDyn::push refuses another type");
    } else {
        check!(d.push_cloned(ValueRef::new(&e)).is_none(), "C14 VecDyn::push_cloned refuses another type");
    }
    check!(d.len() == n, "C14 a refused push leaves the length");
    if i < n { check!(at::<P::A>(&d, i, j) == x, "C14 a refused push leaves the elements"); }
    reached!();
}
/// Typed push of another type of the same size.
pub fn push_as_wrong<P: Pair>() {
    let v = any_vec::<P::A>();
    let n = v.len();
    let (i, j) = (any_usize(), below(P::A::LANES));
    let x = if i < n { v[i].lane(j) } else { 0 };
    let mut d = keep(VecDyn::<V>::from_vec(v));
    check!(d.push_as(P::B::any()).is_none(), "C14 VecDyn::push_as refuses another type");
    check!(d.len() == n, "C14 a refused push leaves the length");
    if i < n { check!(at::<P::A>(&d, i, j) == x, "C14 a refused push leaves the elements"); }
    reached!();
}
/// Appending moves everything over.
pub fn append<T: Lay>() {
    let v = any_vec::<T>();
    let u = any_vec::<T>();
    let (n, m) = (v.len(), u.len());
    let (i, j) = (any_usize(), below(T::LANES));
    let x = if i < n { v[i].lane(j) } else if i < n + m { u[i - n].lane(j) } else { 0 };
    let mut d = keep(VecDyn::<V>::from_vec(v));
    let mut e = keep(VecDyn::<V>::from_vec(u));
    check!(d.append(&mut e).is_some(), "C14 VecDyn::append accepts the type");
    check!(d.len() == n + m, "C14 VecDyn::append adds every element");
    check!(e.len() == 0, "C14 VecDyn::append empties the other vector");
    check!(e.check_ref::<T>().is_some(), "C14 VecDyn::append keeps the type of the other vector");
    check!(i >= n + m || at::<T>(&d, i, j) == x, "C14 VecDyn::append keeps the order");
    reached!();
}
/// Appending another type changes neither vector.
pub fn append_wrong<P: Pair>() {
    let v = any_vec::<P::A>();
    let u = any_vec::<P::B>();
    let (n, m) = (v.len(), u.len());
    let (i, j, k, l) = (any_usize(), below(P::A::LANES), any_usize(), below(P::B::LANES));
    let x = if i < n { v[i].lane(j) } else { 0 };
    let y = if k < m { u[k].lane(l) } else { 0 };
    let mut d = keep(VecDyn::<V>::from_vec(v));
    let mut e = keep(VecDyn::<V>::from_vec(u));
    check!(d.append(&mut e).is_none(), "C14 VecDyn::append refuses another type");
    check!(d.len() == n && e.len() == m, "C14 a refused append leaves the lengths");
    if i < n { check!(at::<P::A>(&d, i, j) == x, "C14 a refused append leaves the elements"); }
    if k < m { check!(at::<P::B>(&e, k, l) == y, "C14 a refused append leaves the elements of the other vector"); }
    reached!();
}

/// Run the contract for each of the lengths 0 to 3, and for 17.
macro_rules! lengths {
    ($f:ident $(, $e:expr)*) => { match any_u8() { 0 => $f::<T>(0 $(, $e)*), 1 => $f::<T>(1 $(, $e)*), 2 => $f::<T>(2 $(, $e)*), 3 => $f::<T>(17 $(, $e)*), _ => $f::<T>(3 $(, $e)*) } };
}

fn push_cloned_n<T: Lay>(n: usize) {
    let v = some::<T>(n);
    let (i, j) = (upto(n), below(T::LANES));
    let e = T::any();
    let x = if i < n { v[i].lane(j) } else { e.lane(j) };
    let mut d = keep(VecDyn::<V>::from_vec(v));
    check!(d.push_cloned(ValueRef::new(&e)).is_some(), "C14 VecDyn::push_cloned accepts the type");
    check!(d.len() == n + 1, "C14 VecDyn::push_cloned adds one element");
    check!(at::<T>(&d, i, j) == x, "C14 VecDyn::push_cloned adds at the end and keeps the rest");
}
/// Pushing a clone onto short vectors, for more types.
/// Bounded: at most 3 elements, or 17.
pub fn push_cloned_few<T: Lay>() { lengths!(push_cloned_n); reached!(); }

fn clear_n<T: Lay>(n: usize) {
    let mut d = keep(VecDyn::<V>::from_vec(some::<T>(n)));
    d.clear();
    check!(d.len() == 0 && d.is_empty(), "C14 VecDyn::clear removes every element");
    check!(d.as_slice_as::<T>().map(|s| s.len()) == Some(0), "C14 VecDyn::clear keeps the type");
    let e = T::any();
    check!(d.push_as(e).is_some() && d.len() == 1, "C14 a cleared VecDyn can be pushed to");
    check!(same(&d.as_slice_as::<T>().unwrap()[0], &e), "C14 a cleared VecDyn can be pushed to");
}
/// Clearing (iterates over the elements to drop them).
/// Bounded: at most 3 elements, or 17.
pub fn clear<T: Lay>() { lengths!(clear_n); reached!(); }

fn resize_n<T: Lay>(n: usize, m: usize) {
    let v = some::<T>(n);
    let e = T::any();
    let (i, j) = (any_usize(), below(T::LANES));
    let x = if i < n { v[i].lane(j) } else { e.lane(j) };
    let mut d = keep(VecDyn::<V>::from_vec(v));
    check!(d.resize(m, e).is_some(), "C14 VecDyn::resize accepts the type");
    check!(d.len() == m, "C14 VecDyn::resize gives the requested length");
    if i < m { check!(at::<T>(&d, i, j) == x, "C14 VecDyn::resize keeps the front and fills the rest"); }
}
/// Resizing (iterates over the new or removed elements).
/// Bounded: from 0 to 3 elements to 0 to 4 elements, from 17 to 1 and from 1 to 17.
pub fn resize<T: Lay>() {
    match any_u8() {
        0 => resize_n::<T>(0, 0), 1 => resize_n::<T>(0, 2), 2 => resize_n::<T>(2, 0), 3 => resize_n::<T>(2, 2),
        4 => resize_n::<T>(2, 3), 5 => resize_n::<T>(3, 1), 6 => resize_n::<T>(3, 2), 7 => resize_n::<T>(17, 1), 8 => resize_n::<T>(1, 17), _ => resize_n::<T>(2, 4),
    }
    reached!();
}
/// ... with another type.
pub fn resize_wrong<P: Pair>() {
    let v = any_vec::<P::A>();
    let n = v.len();
    let (i, j) = (any_usize(), below(P::A::LANES));
    let x = if i < n { v[i].lane(j) } else { 0 };
    let mut d = keep(VecDyn::<V>::from_vec(v));
    if any_bool() {
        check!(d.resize(any_len(), P::B::any()).is_none(), "C14 VecDyn::resize refuses another type");
    } else {
        check!(d.fill(P::B::any()).is_none(), "C14 VecDyn::fill refuses another type");
    }
    check!(d.len() == n, "C14 a refused resize or fill leaves the length");
    if i < n { check!(at::<P::A>(&d, i, j) == x, "C14 a refused resize or fill leaves the elements"); }
    reached!();
}
fn fill_n<T: Lay>(n: usize) {
    let e = T::any();
    let (i, j) = (any_usize(), below(T::LANES));
    let mut d = keep(VecDyn::<V>::from_vec(some::<T>(n)));
    check!(d.fill(e).is_some(), "C14 VecDyn::fill accepts the type");
    check!(d.len() == n, "C14 VecDyn::fill keeps the length");
    if i < n { check!(at::<T>(&d, i, j) == e.lane(j), "C14 VecDyn::fill writes every element"); }
}
/// Filling (iterates).
/// Bounded: at most 3 elements, or 17.
pub fn fill<T: Lay>() { lengths!(fill_n); reached!(); }

/// Construction, and the first push.
pub fn construct<T: Lay>() {
    let e = T::any();
    let mut d = keep(if any_bool() { VecDyn::<V>::with_type::<T>() } else { VecDyn::<V>::with_capacity::<T>(any_len()) });
    check!(d.len() == 0 && d.is_empty(), "C14 VecDyn::with_type and with_capacity are empty");
    check!(d.check_ref::<T>().is_some(), "C14 VecDyn::with_type and with_capacity have the type");
    check!(d.push_as(e).is_some() && d.len() == 1, "C14 a new VecDyn can be pushed to");
    check!(same(&d.as_slice_as::<T>().unwrap()[0], &e), "C14 a new VecDyn can be pushed to");
    reached!();
}
/// Construction with the type of something else.
pub fn construct_from<T: Lay>() {
    let mut e = T::any();
    let mut v = some::<T>(2);
    let mut d = keep::<VecDyn<V>>(match any_u8() {
        0 => VecDyn::with_type_from(ValueRef::<V>::new(&e)),
        3 => VecDyn::with_type_from(ValueMut::<V>::new(&mut e)),
        4 => VecDyn::with_type_from(Slice::<V>::from_slice(&v).get(1)),
        1 => VecDyn::with_type_from(Slice::<V>::from_slice(&v)),
        2 => VecDyn::with_type_from(SliceMut::<V>::from_slice(&mut v)),
        _ => { let w = keep(VecDyn::<V>::from_vec(v)); VecDyn::with_type_from(&*w) }
    });
    check!(d.len() == 0 && d.is_empty(), "C14 VecDyn::with_type_from is empty");
    check!(d.element_size() == std::mem::size_of::<T>(), "C14 VecDyn::with_type_from has elements of the size of the type");
    check!(d.push_as(e).is_some() && d.len() == 1, "C14 VecDyn::with_type_from has the type");
    check!(same(&d.as_slice_as::<T>().unwrap()[0], &e), "C14 VecDyn::with_type_from can be pushed to");
    reached!();
}
fn with_size_n<T: Lay>(n: usize) {
    let e = T::any();
    let (i, j) = (any_usize(), below(T::LANES));
    let d = keep(VecDyn::<V>::with_size(n, e));
    check!(d.len() == n, "C14 VecDyn::with_size gives the length");
    check!(d.check_ref::<T>().is_some(), "C14 VecDyn::with_size has the type");
    if i < n { check!(at::<T>(&d, i, j) == e.lane(j), "C14 VecDyn::with_size fills in the element"); }
}
/// Construction with a number of copies (iterates).
/// Bounded: at most 3 elements, or 17.
pub fn with_size<T: Lay>() { lengths!(with_size_n); reached!(); }
/// Construction from a slice.
pub fn from_slice<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let (i, j) = (any_usize(), below(T::LANES));
    let d = keep(if any_bool() { VecDyn::<V>::from_slice(&v) } else { VecDyn::<V>::from(&v[..]) });
    check!(d.len() == n, "C14 VecDyn::from_slice gives the length");
    if i < n { check!(at::<T>(&d, i, j) == v[i].lane(j), "C14 VecDyn::from_slice copies every element"); }
    reached!();
}

cases! {
    push_as [u8_: u8, u32_: u32, a3u8: [u8; 3]] more [u64_: u64, pad: Pad] unwind 2 pure;
    push [u8_: u8, u32_: u32, a2u16: [u16; 2]] more [a3u8: [u8; 3], u64_: u64, pad: Pad] unwind 2 pure;
    push_cloned [u8_: u8] more [u32_: u32, a3u8: [u8; 3]] unwind 5 pure;
    push_cloned_few [u32_: u32, a3u8: [u8; 3]] more [u64_: u64, pad: Pad, a16: A16, a2u16: [u16; 2]] unwind 20 pure;
    push_wrong [u8_a2u8: (u8, [u8; 2]), u32_f32: (u32, f32)] more [a2u16_u16: ([u16; 2], u16)] unwind 2 pure;
    push_as_wrong [u32_f32: (u32, f32)] more [u8_i8: (u8, i8), a2u16_u32: (u64, [u32; 2])] unwind 2 pure;
    append [u8_: u8, u32_: u32] more [a2u16: [u16; 2], pad: Pad] unwind 2 pure;
    append_wrong [u8_a2u8: (u8, [u8; 2]), u32_f32: (u32, f32)] more [a2u16_u16: ([u16; 2], u16)] unwind 2 pure;
    clear [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a16: A16] unwind 20 pure;
    resize [u8_: u8, a3u8: [u8; 3]] more [u32_: u32, pad: Pad, a16: A16] unwind 20 flat;
    resize_wrong [u32_f32: (u32, f32), u8_a2u8: (u8, [u8; 2])] more [a2u16_u16: ([u16; 2], u16)] unwind 2 pure;
    fill [u32_: u32, a3u8: [u8; 3]] more [u8_: u8, pad: Pad, a16: A16] unwind 20 flat;
    construct [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a16x2: A16x2] unwind 2 pure;
    construct_from [a3u8: [u8; 3], u32_: u32] more [pad: Pad, a16: A16] unwind 4 pure;
    with_size [u32_: u32, a3u8: [u8; 3]] more [u8_: u8, pad: Pad, a16: A16] unwind 20 flat;
    from_slice [u8_: u8, u32_: u32] more [a3u8: [u8; 3], pad: Pad] unwind 5 pure;
}
