//! C03: an untyped vector of copyable data is edited exactly like a typed vector.
//!
//! Every contract starts from an arbitrary vector (any length, capacity and contents), so each is
//! the induction step for arbitrary histories of operations.
use crate::lay::*;
use crate::sym::*;
use dync::traits::DropVTable;
use dync::*;

/// The element at `i` of an untyped vector.
fn at<T: Lay>(d: &VecCopy, i: usize, j: usize) -> u64 { d.as_slice_as::<T>().unwrap()[i].lane(j) }

/// Dropping is not part of these contracts (C06 covers it).
fn keep<D>(d: D) -> std::mem::ManuallyDrop<D> { std::mem::ManuallyDrop::new(d) }

/// Typed push.
pub fn push_as<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let (i, j) = (upto(n), below(T::LANES));
    let e = T::any();
    let x = if i < n { v[i].lane(j) } else { e.lane(j) };
    let mut d = keep(VecCopy::<()>::from_vec(v));
    check!(d.push_as(e).is_some(), "C03 VecCopy::push_as accepts the type");
    check!(d.len() == n + 1, "C03 VecCopy::push_as adds one element");
    check!(at::<T>(&d, i, j) == x, "C03 VecCopy::push_as adds at the end and keeps the rest");
    check!(d.capacity() >= d.len(), "C03 VecCopy::push_as keeps the capacity at least the length");
    reached!();
}
/// Untyped push.
pub fn push<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let (i, j) = (upto(n), below(T::LANES));
    let e = T::any();
    let x = if i < n { v[i].lane(j) } else { e.lane(j) };
    let mut d = keep(VecCopy::<()>::from_vec(v));
    check!(d.push(CopyValueRef::<()>::new(&e)).is_some(), "C03 VecCopy::push accepts the type");
    check!(d.len() == n + 1, "C03 VecCopy::push adds one element");
    check!(at::<T>(&d, i, j) == x, "C03 VecCopy::push adds at the end and keeps the rest");
    check!(d.capacity() >= d.len(), "C03 VecCopy::push keeps the capacity at least the length");
    reached!();
}
/// Appending moves everything over.
pub fn append<T: Lay>() {
    let v = any_vec::<T>();
    let u = any_vec::<T>();
    let (n, m) = (v.len(), u.len());
    let (i, j) = (any_usize(), below(T::LANES));
    let x = if i < n { v[i].lane(j) } else if i < n + m { u[i - n].lane(j) } else { 0 };
    let mut d = keep(VecCopy::<()>::from_vec(v));
    let mut e = keep(VecCopy::<()>::from_vec(u));
    check!(d.append(&mut e).is_some(), "C03 VecCopy::append accepts the type");
    check!(d.len() == n + m, "C03 VecCopy::append adds every element");
    check!(e.len() == 0, "C03 VecCopy::append empties the other vector");
    check!(e.check_ref::<T>().is_some(), "C03 VecCopy::append keeps the type of the other vector");
    check!(i >= n + m || at::<T>(&d, i, j) == x, "C03 VecCopy::append keeps the order");
    reached!();
}
/// Clearing.
pub fn clear<T: Lay>() {
    let v = any_vec::<T>();
    let mut d = keep(VecCopy::<()>::from_vec(v));
    let c = d.capacity();
    d.clear();
    check!(d.len() == 0 && d.is_empty(), "C03 VecCopy::clear removes every element");
    check!(d.capacity() == c, "C03 VecCopy::clear keeps the capacity");
    check!(d.as_slice_as::<T>().map(|s| s.len()) == Some(0), "C03 VecCopy::clear keeps the type");
    reached!();
}
/// Reserving.
pub fn reserve<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let k = any_len();
    let (i, j) = (any_usize(), below(T::LANES));
    let x = if i < n { v[i].lane(j) } else { 0 };
    let mut d = keep(VecCopy::<()>::from_vec(v));
    d.reserve(k);
    check!(d.len() == n, "C03 VecCopy::reserve keeps the length");
    check!(d.capacity() >= n + k, "C03 VecCopy::reserve makes room");
    if i < n { check!(at::<T>(&d, i, j) == x, "C03 VecCopy::reserve keeps the elements"); }
    reached!();
}
/// Shrinking.
pub fn shrink<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let m = upto(n);
    let (i, j) = (any_usize(), below(T::LANES));
    let x = if i < n { v[i].lane(j) } else { 0 };
    let mut d = keep(VecCopy::<()>::from_vec(v));
    check!(d.resize(m, T::any()).is_some(), "C03 VecCopy::resize accepts the type");
    check!(d.len() == m, "C03 VecCopy::resize gives the requested length");
    if i < m { check!(at::<T>(&d, i, j) == x, "C03 VecCopy::resize keeps the front"); }
    reached!();
}
fn grow_n<T: Lay>(n: usize, m: usize) {
    let v = some::<T>(n);
    let (i, j) = (any_usize(), below(T::LANES));
    let e = T::any();
    let x = if i < n { v[i].lane(j) } else { e.lane(j) };
    let mut d = keep(VecCopy::<()>::from_vec(v));
    check!(d.resize(m, e).is_some(), "C03 VecCopy::resize accepts the type");
    check!(d.len() == m, "C03 VecCopy::resize gives the requested length");
    if i < m { check!(at::<T>(&d, i, j) == x, "C03 VecCopy::resize keeps the front and fills the rest"); }
}
/// Growing by resize (iterates over the new elements).
/// Bounded: from 0, 1, 3 elements by 0 to 3, and from 1 to 17.
pub fn grow<T: Lay>() {
    match any_u8() {
        0 => grow_n::<T>(0, 0), 1 => grow_n::<T>(0, 1), 2 => grow_n::<T>(0, 3), 3 => grow_n::<T>(1, 1), 4 => grow_n::<T>(1, 3),
        5 => grow_n::<T>(1, 17), 6 => grow_n::<T>(3, 3), 7 => grow_n::<T>(3, 4), _ => grow_n::<T>(3, 5),
    }
    reached!();
}
fn fill_n<T: Lay>(n: usize) {
    let v = some::<T>(n);
    let (i, j) = (idx(n), below(T::LANES));
    let e = T::any();
    let mut d = keep(VecCopy::<()>::from_vec(v));
    check!(d.fill(e).is_some(), "C03 VecCopy::fill accepts the type");
    check!(d.len() == n, "C03 VecCopy::fill keeps the length");
    check!(n == 0 || at::<T>(&d, i, j) == e.lane(j), "C03 VecCopy::fill writes every element");
}
/// Filling (iterates).
/// Bounded: 0 to 3 and 17 elements.
pub fn fill<T: Lay>() {
    match any_u8() { 0 => fill_n::<T>(0), 1 => fill_n::<T>(1), 2 => fill_n::<T>(2), 3 => fill_n::<T>(3), _ => fill_n::<T>(17) }
    reached!();
}
/// Copying a slice of the same length over the contents.
pub fn copy_from_slice<T: Lay>() {
    let v = any_vec::<T>();
    let u = any_vec::<T>();
    let n = v.len();
    assume(u.len() == n);
    let (i, j) = (idx(n), below(T::LANES));
    let x = if n > 0 { u[i].lane(j) } else { 0 };
    let mut d = keep(VecCopy::<()>::from_vec(v));
    check!(d.copy_from_slice(&u).is_some(), "C03 VecCopy::copy_from_slice accepts the type");
    check!(d.len() == n, "C03 VecCopy::copy_from_slice keeps the length");
    check!(n == 0 || at::<T>(&d, i, j) == x, "C03 VecCopy::copy_from_slice copies every element");
    check!(n == 0 || u[i].lane(j) == x, "C03 VecCopy::copy_from_slice leaves the source");
    reached!();
}
/// Construction.
pub fn construct<T: Lay>() {
    let k = any_len();
    let d = keep(VecCopy::<()>::with_type::<T>());
    check!(d.len() == 0 && d.is_empty(), "C03 VecCopy::with_type is empty");
    check!(d.check_ref::<T>().is_some(), "C03 VecCopy::with_type has the type");
    let mut d = keep(VecCopy::<()>::with_capacity::<T>(k));
    check!(d.len() == 0 && d.capacity() >= k, "C03 VecCopy::with_capacity makes room");
    let e = T::any();
    check!(d.push_as(e).is_some() && d.len() == 1, "C03 VecCopy::with_capacity has the type");
    check!(same(d.get_ref_as::<T>(0).unwrap(), &e), "C03 VecCopy::with_capacity can be pushed to");
    reached!();
}
/// Construction with the type of something else.
pub fn construct_from<T: Lay>() {
    let mut x = T::any();
    let e = T::any();
    let mut v = vec_with::<T>(2, 2);
    let mut d = keep::<VecCopy>(match any_u8() {
        0 => VecCopy::with_type_from(CopyValueRef::<()>::new(&x)),
        1 => VecCopy::with_type_from(SliceCopy::<()>::from_slice(&v)),
        2 => VecCopy::with_type_from(SliceCopyMut::<()>::from_slice(&mut v)),
        3 => VecCopy::with_type_from(SliceCopy::<()>::from_slice(&v).get(1)),
        _ => { let w: VecCopy = VecCopy::from_vec(v); VecCopy::with_type_from(&w) }
    });
    x = e;
    check!(d.len() == 0 && d.is_empty(), "C03 VecCopy::with_type_from is empty");
    check!(d.push_as(x).is_some() && d.len() == 1, "C03 VecCopy::with_type_from has the type");
    check!(same(d.get_ref_as::<T>(0).unwrap(), &e), "C03 VecCopy::with_type_from can be pushed to");
    let e = T::any();
    check!(d.push_as(e).is_some() && d.len() == 2, "C03 VecCopy::with_type_from has the type");
    check!(same(d.get_ref_as::<T>(1).unwrap(), &e), "C03 VecCopy::with_type_from can be pushed to");
    reached!();
}
fn extend_n<T: Lay>(n: usize, m: usize) {
    let v = some::<T>(n);
    let src = some::<T>(m);
    let (i, j) = (any_usize(), below(T::LANES));
    let x = if i < n { v[i].lane(j) } else if i < n + m { src[i - n].lane(j) } else { 0 };
    let mut d = keep(VecCopy::<()>::from_vec(v));
    let s: SliceCopy = SliceCopy::from_slice(&src);
    match any_u8() {
        0 => d.extend(s.iter()),
        // An iterator that promises nothing about how many there are, or too little.
        1 => { let mut it = s.iter(); d.extend(std::iter::from_fn(move || it.next())) }
        _ => d.extend(s.iter().filter(|_| true)),
    }
    check!(d.len() == n + m, "C03 VecCopy::extend adds every element");
    check!(i >= n + m || at::<T>(&d, i, j) == x, "C03 VecCopy::extend adds in order");
}
/// Extending by untyped values (iterates over the new values).
/// Bounded: 0, 1, 2 and 9 new elements on up to 2.
pub fn extend<T: Lay>() {
    match any_u8() {
        0 => extend_n::<T>(0, 0), 1 => extend_n::<T>(0, 2), 2 => extend_n::<T>(1, 1), 3 => extend_n::<T>(2, 2), 4 => extend_n::<T>(2, 9),
        _ => extend_n::<T>(1, 0),
    }
    reached!();
}
/// Collecting untyped values (iterates).
/// Bounded: two elements.
pub fn collect<T: Lay>() {
    let e = [T::any(), T::any()];
    let s: SliceCopy = SliceCopy::from_slice(&e);
    let d = keep(s.iter().collect::<VecCopy>());
    check!(d.len() == 2, "C03 VecCopy::from_iter takes every element");
    let i = below(2);
    check!(same(&d.as_slice_as::<T>().unwrap()[i], &e[i]), "C03 VecCopy::from_iter takes them in order");
    reached!();
}
/// Collecting untyped values (iterates).
/// Bounded: one element; collecting more is extending, see `extend`.
pub fn collect_one<T: Lay>() {
    let e = T::any();
    let s: SliceCopy = SliceCopy::from_slice(std::slice::from_ref(&e));
    let d = keep(s.iter().collect::<VecCopy>());
    check!(d.len() == 1, "C03 VecCopy::from_iter takes every element");
    check!(same(&d.as_slice_as::<T>().unwrap()[0], &e), "C03 VecCopy::from_iter takes the element");
    reached!();
}

cases! {
    push_as [u8_: u8, u32_: u32, a3u8: [u8; 3]] more [a3u32: [u32; 3], u64_: u64, pad: Pad, a16x2: A16x2] unwind 2 pure;
    push [u8_: u8, u32_: u32, a2u32: [u32; 2]] more [a3u8: [u8; 3], a3u32: [u32; 3], u64_: u64, pad: Pad, a16x2: A16x2] unwind 2 pure;
    append [u8_: u8, u32_: u32] more [pad: Pad, a2u32: [u32; 2], a3u8: [u8; 3]] unwind 2 pure;
    clear [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a2u32: [u32; 2]] unwind 2 pure;
    reserve [u8_: u8, u32_: u32, a2u32: [u32; 2]] more [pad: Pad, a3u8: [u8; 3]] unwind 2 pure;
    shrink [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a2u32: [u32; 2]] unwind 2 pure;
    grow [u8_: u8, a3u8: [u8; 3]] more [u32_: u32, pad: Pad, a2u32: [u32; 2]] unwind 20 flat;
    fill [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a2u32: [u32; 2]] unwind 20 flat;
    copy_from_slice [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a2u32: [u32; 2]] unwind 2 pure;
    construct [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a16x2: A16x2] unwind 2 pure;
    construct_from [a3u8: [u8; 3], u32_: u32] more [pad: Pad, a16x2: A16x2] unwind 4 pure;
    extend [a3u8: [u8; 3], u32_: u32] more [pad: Pad, u8_: u8] unwind 20 flat;
    collect [u8_: u8, u32_: u32, a3u8: [u8; 3]] more [pad: Pad] unwind 3 flat;
    collect_one [u8_: u8] more [pad: Pad] unwind 3 flat;
}
