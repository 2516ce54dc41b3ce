//! C10: out-of-range requests always panic before touching memory, in debug and release builds.
//!
//! Every contract here has the precondition that the request is out of range, and the
//! postcondition `false`: the operation must not return.
use crate::lay::{window_vec as any_vec, Lay, Pad};
use crate::sym::*;
use dync::traits::DropVTable;
use dync::*;

type V = DropVTable;

/// An index at or beyond the end.
fn beyond(n: usize) -> usize { let i = any_usize(); assume(i >= n); i }
/// An end or split point strictly beyond the end.
fn past(n: usize) -> usize { let i = any_usize(); assume(i > n); i }

/// Run the body for a range of each kind that does not fit `n` elements.
macro_rules! bad_ranges {
    ($n:expr, |$r:ident| $b:block) => {{
        let n: usize = $n;
        let (a, b) = (any_usize(), any_usize());
        match any_u8() {
            0 => { assume(a > b || b > n); let $r = a..b; $b }
            1 => { assume(b > n); let $r = ..b; $b }
            2 => { assume(a > n); let $r = a..; $b }
            // `a..=b` selects up to and including `b`, and is empty when `a` is the successor of `b`.
            3 => { assume(b >= n || a > b + 1); let $r = a..=b; $b }
            _ => { assume(b >= n); let $r = ..=b; $b }
        }
    }};
}

/// Indices on slices.
pub fn mp_slice_copy<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let w = SliceCopy::<V>::from_slice(&v);
    match any_u8() {
        0 => must_panic!("SliceCopy::get out of range", w.get(beyond(n))),
        1 => must_panic!("SliceCopy::get_as out of range", w.get_as::<T>(beyond(n))),
        2 => must_panic!("SliceCopy::split_at out of range", w.split_at(past(n))),
        3 => must_panic!("SliceCopy::chunks_exact by zero", w.chunks_exact(0)),
        4 => bad_ranges!(n, |r| { must_panic!("SliceCopy::subslice out of range", w.subslice(r)) }),
        _ => bad_ranges!(n, |r| { must_panic!("SliceCopy::into_subslice out of range", w.into_subslice(r)) }),
    }
}
pub fn mp_slice_copy_mut<T: Lay>() {
    let mut v = any_vec::<T>();
    let n = v.len();
    let mut w = SliceCopyMut::<V>::from_slice(&mut v);
    match any_u8() {
        0 => must_panic!("SliceCopyMut::get out of range", w.get(beyond(n))),
        1 => must_panic!("SliceCopyMut::get_mut out of range", w.get_mut(beyond(n))),
        2 => must_panic!("SliceCopyMut::get_as out of range", w.get_as::<T>(beyond(n))),
        3 => must_panic!("SliceCopyMut::split_at out of range", w.split_at(past(n))),
        4 => must_panic!("SliceCopyMut::chunks_exact by zero", w.chunks_exact(0)),
        5 => must_panic!("SliceCopyMut::chunks_exact_mut by zero", w.chunks_exact_mut(0)),
        6 => bad_ranges!(n, |r| { must_panic!("SliceCopyMut::subslice out of range", w.subslice(r)) }),
        7 => bad_ranges!(n, |r| { must_panic!("SliceCopyMut::subslice_mut out of range", w.subslice_mut(r)) }),
        _ => bad_ranges!(n, |r| { must_panic!("SliceCopyMut::into_subslice out of range", w.into_subslice(r)) }),
    }
}
pub fn mp_slice_copy_move<T: Lay>() {
    let mut v = any_vec::<T>();
    let n = v.len();
    let mut w = SliceCopyMut::<V>::from_slice(&mut v);
    match any_u8() {
        0 => { let (i, j) = (beyond(n), any_usize()); assume(i != j); must_panic!("SliceCopyMut::swap out of range (first)", w.swap(i, j)) }
        1 => { let (i, j) = (any_usize(), beyond(n)); assume(i != j); must_panic!("SliceCopyMut::swap out of range (second)", w.swap(i, j)) }
        2 => must_panic!("SliceCopyMut::rotate_left out of range", w.rotate_left(past(n))),
        _ => must_panic!("SliceCopyMut::rotate_right out of range", w.rotate_right(past(n))),
    }
}
pub fn mp_slice<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let w = Slice::<V>::from_slice(&v);
    match any_u8() {
        0 => must_panic!("Slice::get out of range", w.get(beyond(n))),
        1 => must_panic!("Slice::get_as out of range", w.get_as::<T>(beyond(n))),
        2 => must_panic!("Slice::split_at out of range", w.split_at(past(n))),
        3 => must_panic!("Slice::chunks_exact by zero", w.chunks_exact(0)),
        4 => bad_ranges!(n, |r| { must_panic!("Slice::subslice out of range", w.subslice(r)) }),
        _ => bad_ranges!(n, |r| { must_panic!("Slice::into_subslice out of range", w.into_subslice(r)) }),
    }
}
pub fn mp_slice_mut<T: Lay>() {
    let mut v = any_vec::<T>();
    let n = v.len();
    let mut w = SliceMut::<V>::from_slice(&mut v);
    match any_u8() {
        0 => must_panic!("SliceMut::get out of range", w.get(beyond(n))),
        1 => must_panic!("SliceMut::get_mut out of range", w.get_mut(beyond(n))),
        2 => must_panic!("SliceMut::get_as out of range", w.get_as::<T>(beyond(n))),
        3 => must_panic!("SliceMut::split_at out of range", w.split_at(past(n))),
        4 => must_panic!("SliceMut::chunks_exact by zero", w.chunks_exact(0)),
        5 => must_panic!("SliceMut::chunks_exact_mut by zero", w.chunks_exact_mut(0)),
        6 => bad_ranges!(n, |r| { must_panic!("SliceMut::subslice out of range", w.subslice(r)) }),
        7 => bad_ranges!(n, |r| { must_panic!("SliceMut::subslice_mut out of range", w.subslice_mut(r)) }),
        _ => bad_ranges!(n, |r| { must_panic!("SliceMut::into_subslice out of range", w.into_subslice(r)) }),
    }
}
pub fn mp_slice_move<T: Lay>() {
    let mut v = any_vec::<T>();
    let n = v.len();
    let mut w = SliceMut::<V>::from_slice(&mut v);
    match any_u8() {
        0 => { let (i, j) = (beyond(n), any_usize()); assume(i != j); must_panic!("SliceMut::swap out of range (first)", w.swap(i, j)) }
        1 => { let (i, j) = (any_usize(), beyond(n)); assume(i != j); must_panic!("SliceMut::swap out of range (second)", w.swap(i, j)) }
        2 => must_panic!("SliceMut::rotate_left out of range", w.rotate_left(past(n))),
        _ => must_panic!("SliceMut::rotate_right out of range", w.rotate_right(past(n))),
    }
}
/// Vectors.
pub fn mp_veccopy<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let mut d = std::mem::ManuallyDrop::new(VecCopy::<V>::from_vec(v));
    match any_u8() {
        0 => must_panic!("VecCopy::get_as out of range", d.get_as::<T>(beyond(n)).is_some()),
        1 => must_panic!("VecCopy::get_ref_as out of range", d.get_ref_as::<T>(beyond(n))),
        2 => must_panic!("VecCopy::get_mut_as out of range", d.get_mut_as::<T>(beyond(n))),
        3 => must_panic!("VecCopy::get_ref out of range", d.get_ref(beyond(n))),
        4 => must_panic!("VecCopy::get_mut out of range", d.get_mut(beyond(n))),
        5 => must_panic!("VecCopy::rotate_left out of range", d.rotate_left(past(n))),
        _ => must_panic!("VecCopy::rotate_right out of range", d.rotate_right(past(n))),
    }
}
pub fn mp_vecdyn<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let mut d = std::mem::ManuallyDrop::new(VecDyn::<V>::from_vec(v));
    match any_u8() {
        0 => must_panic!("VecDyn::get_ref_as out of range", d.get_ref_as::<T>(beyond(n))),
        1 => must_panic!("VecDyn::get_mut_as out of range", d.get_mut_as::<T>(beyond(n))),
        2 => must_panic!("VecDyn::get out of range", d.get(beyond(n))),
        3 => must_panic!("VecDyn::get_mut out of range", d.get_mut(beyond(n))),
        4 => must_panic!("VecDyn::rotate_left out of range", d.rotate_left(past(n))),
        _ => must_panic!("VecDyn::rotate_right out of range", d.rotate_right(past(n))),
    }
}

cases! {
    mp_slice_copy [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a3u32: [u32; 3]] unwind 1 pure;
    mp_slice_copy_mut [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a3u32: [u32; 3]] unwind 1 pure;
    mp_slice_copy_move [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a3u32: [u32; 3]] unwind 1 pure;
    mp_slice [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a3u32: [u32; 3]] unwind 1 pure;
    mp_slice_mut [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a3u32: [u32; 3]] unwind 1 pure;
    mp_slice_move [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a3u32: [u32; 3]] unwind 1 pure;
    mp_veccopy [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a3u32: [u32; 3]] unwind 1 pure;
    mp_vecdyn [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a3u32: [u32; 3]] unwind 1 pure;
}
