//! C08: swapping and rotating permute the elements exactly.
use crate::lay::*;
use crate::sym::*;
use dync::traits::DropVTable;
use dync::*;

type V = DropVTable;
fn keep<D>(d: D) -> std::mem::ManuallyDrop<D> { std::mem::ManuallyDrop::new(d) }

/// Which element `i` of the result of a swap of `a` and `b` was.
fn swapped(i: usize, a: usize, b: usize) -> usize { if i == a { b } else if i == b { a } else { i } }

/// Swapping exchanges every byte of two elements, and nothing else.
fn exchanged<T: Lay>(f: impl FnOnce(Vec<T>, usize, usize) -> (*const T, usize)) {
    let size = std::mem::size_of::<T>();
    let v = odd_vec::<T>();
    let n = v.len();
    #[cfg(not(feature = "bounded"))]
    let (x, y) = (idx(n), idx(n));
    #[cfg(feature = "bounded")]
    let (x, y) = if n > 0 { (any_len() % n, any_len() % n) } else { (0, 0) };
    let (i, b) = (idx(n), below(size));
    let p = v.as_ptr() as *const u8;
    let was = if n > 0 { unsafe { *p.add(swapped(i, x, y) * size + b) } } else { 0 };
    crate::ghost::watch(p.wrapping_add(i * size + b), p, n * size);
    let (q, len) = if n > 0 { f(v, x, y) } else { (v.as_ptr(), 0) };
    check!(len == n, "C08 swapping keeps the length");
    check!(n == 0 || unsafe { *(q as *const u8).add(i * size + b) } == was, "C08 swapping exchanges the two elements and nothing else");
    reached!();
}
pub fn swap_copy<T: Lay>() { exchanged::<T>(|v, x, y| { let mut v = keep(v); let mut s = SliceCopyMut::<V>::from_slice(&mut v[..]); s.swap(x, y); slice_of(s.as_slice::<T>().as_deref()) }) }
pub fn swap_dyn<T: Lay>() { exchanged::<T>(|v, x, y| { let mut v = keep(v); let mut s = SliceMut::<V>::from_slice(&mut v[..]); s.swap(x, y); slice_of(s.as_slice::<T>().as_deref()) }) }
/// The same through the slice of a vector.
pub fn swap_veccopy<T: Lay>() { exchanged::<T>(|v, x, y| { let mut d = keep(VecCopy::<V>::from_vec(v)); d.as_mut_slice().swap(x, y); slice_of(d.as_slice_as::<T>()) }) }
pub fn swap_vecdyn<T: Lay>() { exchanged::<T>(|v, x, y| { let mut d = keep(VecDyn::<V>::from_vec(v)); d.as_mut_slice().swap(x, y); slice_of(d.as_slice_as::<T>()) }) }

/// Rotating moves every byte of every element to its place.
fn turned<T: Lay>(left: bool, f: impl FnOnce(Vec<T>, usize) -> (*const T, usize)) {
    let size = std::mem::size_of::<T>();
    let v = odd_vec::<T>();
    let n = v.len();
    #[cfg(not(feature = "bounded"))]
    let k = upto(n);
    // Also the amount is fixed: std's own rotation runs then.
    #[cfg(feature = "bounded")]
    let k = { let k = any_len(); if k > n { n } else { k } };
    let (i, b) = (idx(n), below(size));
    let p = v.as_ptr() as *const u8;
    // Where element `i` comes from.
    let m = if left { k } else { n - k };
    let from = if i + m >= n { i + m - n } else { i + m };
    let x = if n > 0 { unsafe { *p.add(from * size + b) } } else { 0 };
    crate::ghost::watch(p.wrapping_add(i * size + b), p, n * size);
    let (q, len) = f(v, k);
    check!(len == n, "C08 rotating keeps the length");
    check!(n == 0 || unsafe { *(q as *const u8).add(i * size + b) } == x, "C08 rotating moves every element by k");
    reached!();
}
fn slice_of<T>(s: Option<&[T]>) -> (*const T, usize) { let s = s.unwrap(); (s.as_ptr(), s.len()) }
pub fn left_copy_all<T: Lay>() { turned::<T>(true, |v, k| { let mut v = keep(v); let mut s = SliceCopyMut::<V>::from_slice(&mut v[..]); s.rotate_left(k); slice_of(s.as_slice::<T>().as_deref()) }) }
pub fn left_dyn_all<T: Lay>() { turned::<T>(true, |v, k| { let mut v = keep(v); let mut s = SliceMut::<V>::from_slice(&mut v[..]); s.rotate_left(k); slice_of(s.as_slice::<T>().as_deref()) }) }
pub fn left_veccopy_all<T: Lay>() { turned::<T>(true, |v, k| { let mut d = keep(VecCopy::<V>::from_vec(v)); d.rotate_left(k); slice_of(d.as_slice_as::<T>()) }) }
pub fn left_vecdyn_all<T: Lay>() { turned::<T>(true, |v, k| { let mut d = keep(VecDyn::<V>::from_vec(v)); d.rotate_left(k); slice_of(d.as_slice_as::<T>()) }) }
pub fn right_copy_all<T: Lay>() { turned::<T>(false, |v, k| { let mut v = keep(v); let mut s = SliceCopyMut::<V>::from_slice(&mut v[..]); s.rotate_right(k); slice_of(s.as_slice::<T>().as_deref()) }) }
pub fn right_dyn_all<T: Lay>() { turned::<T>(false, |v, k| { let mut v = keep(v); let mut s = SliceMut::<V>::from_slice(&mut v[..]); s.rotate_right(k); slice_of(s.as_slice::<T>().as_deref()) }) }
pub fn right_veccopy_all<T: Lay>() { turned::<T>(false, |v, k| { let mut d = keep(VecCopy::<V>::from_vec(v)); d.rotate_right(k); slice_of(d.as_slice_as::<T>()) }) }
pub fn right_vecdyn_all<T: Lay>() { turned::<T>(false, |v, k| { let mut d = keep(VecDyn::<V>::from_vec(v)); d.rotate_right(k); slice_of(d.as_slice_as::<T>()) }) }

/// Rotate `n` elements by `k`, both fixed; every element moves to its place.
fn rotated<T: Lay>(n: usize, k: usize, left: bool, f: impl FnOnce(Vec<T>, usize) -> Vec<T>) {
    let mut v = Vec::with_capacity(5);
    v.push(T::any());
    v.push(T::any());
    if n > 2 { v.push(T::any()); }
    if n > 3 { v.push(T::any()); }
    if n > 4 { v.push(T::any()); }
    let (i, j) = (below(n), below(T::LANES));
    let from = if left { (i + k) % n } else { (i + n - k) % n };
    let x = v[from].lane(j);
    let w = f(v, k);
    check!(w.len() == n, "C08 rotating keeps the length");
    check!(w[i].lane(j) == x, "C08 rotating moves every element by k");
}
/// Every amount of rotation of 2, 3 and 4 elements.
fn rotations<T: Lay>(left: bool, f: impl Fn(Vec<T>, usize) -> Vec<T>) {
    match any_u8() {
        0 => rotated(2, 0, left, f), 1 => rotated(2, 1, left, f), 2 => rotated(2, 2, left, f),
        3 => rotated(3, 0, left, f), 4 => rotated(3, 1, left, f), 5 => rotated(3, 2, left, f), 6 => rotated(3, 3, left, f),
        #[cfg(feature = "thorough")]
        7 => rotated(5, 1, left, f),
        #[cfg(feature = "thorough")]
        8 => rotated(5, 3, left, f),
        9 => rotated(4, 2, left, f), 10 => rotated(4, 3, left, f), _ => rotated(4, 1, left, f),
    }
    reached!();
}
/// Bounded: 2, 3 and 4 elements.
pub fn left_copy<T: Lay>() { rotations::<T>(true, |mut v, k| { SliceCopyMut::<V>::from_slice(&mut v).rotate_left(k); v }) }
/// Bounded: 2, 3 and 4 elements.
pub fn right_copy<T: Lay>() { rotations::<T>(false, |mut v, k| { SliceCopyMut::<V>::from_slice(&mut v).rotate_right(k); v }) }
/// Bounded: 2, 3 and 4 elements.
pub fn left_dyn<T: Lay>() { rotations::<T>(true, |mut v, k| { SliceMut::<V>::from_slice(&mut v).rotate_left(k); v }) }
/// Bounded: 2, 3 and 4 elements.
pub fn right_dyn<T: Lay>() { rotations::<T>(false, |mut v, k| { SliceMut::<V>::from_slice(&mut v).rotate_right(k); v }) }
/// Bounded: 2, 3 and 4 elements.
pub fn left_veccopy<T: Lay>() { rotations::<T>(true, |v, k| { let mut d = VecCopy::<V>::from_vec(v); d.rotate_left(k); d.into_vec().unwrap() }) }
/// Bounded: 2, 3 and 4 elements.
pub fn right_veccopy<T: Lay>() { rotations::<T>(false, |v, k| { let mut d = VecCopy::<V>::from_vec(v); d.rotate_right(k); d.into_vec().unwrap() }) }
/// Bounded: 2, 3 and 4 elements.
pub fn left_vecdyn<T: Lay>() { rotations::<T>(true, |v, k| { let mut d = VecDyn::<V>::from_vec(v); d.rotate_left(k); d.into_vec().unwrap() }) }
/// Bounded: 2, 3 and 4 elements.
pub fn right_vecdyn<T: Lay>() { rotations::<T>(false, |v, k| { let mut d = VecDyn::<V>::from_vec(v); d.rotate_right(k); d.into_vec().unwrap() }) }

cases! {
    swap_copy [u8_: u8, a3u8: [u8; 3], u32_: u32] more [a32: A32, a3u32: [u32; 3]] unwind 4 swap;
    swap_dyn [u8_: u8, a3u8: [u8; 3], u32_: u32] more [a32: A32, a3u32: [u32; 3]] unwind 4 swap;
    swap_veccopy [u32_: u32] more [a3u8: [u8; 3], a32: A32, a3u32: [u32; 3]] unwind 4 swap;
    swap_vecdyn [u32_: u32] more [a3u8: [u8; 3], a32: A32, a3u32: [u32; 3]] unwind 4 swap;
    left_copy_all [u8_: u8, a3u8: [u8; 3]] more [u32_: u32, a3u32: [u32; 3]] unwind 4 rotate;
    left_copy [a3u8: [u8; 3], u16_: u16] more [u8_: u8, pad: Pad, a3u16: [u16; 3]] unwind 14 flat;
    right_copy_all [u8_: u8, a3u8: [u8; 3]] more [u32_: u32, a3u32: [u32; 3]] unwind 4 rotate;
    right_copy [a3u8: [u8; 3], u16_: u16] more [u8_: u8, pad: Pad, a3u16: [u16; 3]] unwind 14 flat;
    left_dyn_all [u32_: u32, a3u16: [u16; 3]] more [u8_: u8, a32x2: A32x2] unwind 4 rotate;
    left_dyn [a3u8: [u8; 3], u16_: u16] more [u8_: u8, pad: Pad, a3u16: [u16; 3]] unwind 14 flat;
    right_dyn_all [u32_: u32, a3u16: [u16; 3]] more [u8_: u8, a32x2: A32x2] unwind 4 rotate;
    right_dyn [a3u8: [u8; 3], u16_: u16] more [u8_: u8, pad: Pad, a3u16: [u16; 3]] unwind 14 flat;
    left_veccopy_all [a3u8: [u8; 3], u64_: u64] more [u16_: u16, a32: A32, a3u16: [u16; 3]] unwind 4 rotate;
    left_veccopy [a3u8: [u8; 3], u64_: u64, a2u16: [u16; 2]] more [u16_: u16, a32: A32, u8_: u8, pad: Pad, a3u16: [u16; 3]] unwind 14 flat;
    right_veccopy_all [a3u8: [u8; 3], u64_: u64] more [u16_: u16, a32: A32, a3u16: [u16; 3]] unwind 4 rotate;
    right_veccopy [a3u8: [u8; 3], u64_: u64, a2u16: [u16; 2]] more [u16_: u16, a32: A32, u8_: u8, pad: Pad, a3u16: [u16; 3]] unwind 14 flat;
    left_vecdyn_all [a16x2: A16x2, a2u16: [u16; 2]] more [u8_: u8, a3u32: [u32; 3]] unwind 4 rotate;
    left_vecdyn [a16: A16, a2u16: [u16; 2]] more [u8_: u8, pad: Pad, a3u16: [u16; 3]] unwind 14 flat;
    right_vecdyn_all [a16x2: A16x2, a2u16: [u16; 2]] more [u8_: u8, a3u32: [u32; 3]] unwind 4 rotate;
    right_vecdyn [a16: A16, a2u16: [u16; 2]] more [u8_: u8, pad: Pad, a3u16: [u16; 3]] unwind 14 flat;
}
