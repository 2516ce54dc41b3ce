//! C07: windows onto untyped data (indexing, ranges, splitting, chunking, iteration) select exactly
//! the elements that the same operation selects on a typed slice.
//!
//! Selections are compared by address, length and type, so the contents are arbitrary.
use crate::lay::{window_vec as any_vec, Lay, Pad, A32x2, same, vec_with, some};
use crate::sym::*;
use dync::traits::DropVTable;
use dync::*;

type V = DropVTable;

/// Dropping is not part of these contracts (C06 covers it).
fn keep<D>(d: D) -> std::mem::ManuallyDrop<D> { std::mem::ManuallyDrop::new(d) }

/// Run the body for a range of each of the six kinds that fits `n` elements; `$s` and `$l` are the
/// first selected element and the number of selected elements.
macro_rules! ranges {
    ($n:expr, |$r:ident, $s:ident, $l:ident| $b:block) => {{
        let n: usize = $n;
        let (a, b) = (any_usize(), any_usize());
        assume(a <= b && b <= n);
        match any_u8() {
            0 => { let $r = a..b; let ($s, $l) = (a, b - a); $b }
            1 => { let $r = ..b; let ($s, $l) = (0, b); $b }
            2 => { let $r = a..; let ($s, $l) = (a, n - a); $b }
            3 => { let $r = ..; let ($s, $l) = (0, n); $b }
            4 => { assume(b > 0); let $r = a..=b - 1; let ($s, $l) = (a, b - a); $b }
            _ => { assume(b > 0); let $r = ..=b - 1; let ($s, $l) = (0, b); $b }
        }
    }};
}
/// The window shows exactly `$l` elements of type `T` from address `$p`.
macro_rules! window {
    ($w:expr, $T:ty, $p:expr, $l:expr, $m:literal) => {{
        #[allow(unused_mut)]
        let mut w = $w;
        check!(w.len() == $l, "C07 ", $m, ": number of elements");
        check!(w.is_empty() == ($l == 0), "C07 ", $m, ": emptiness");
        let t = w.as_slice::<$T>();
        check!(t.is_some(), "C07 ", $m, ": element type");
        let t = t.unwrap();
        check!(t.len() == $l, "C07 ", $m, ": number of typed elements");
        check!(t.len() == 0 || t.as_ptr() as usize == $p as usize, "C07 ", $m, ": first element");
    }};
}
/// The value reference is the element of type `T` at address `$p`.
macro_rules! place {
    ($v:expr, $T:ty, $p:expr, $m:literal) => {{
        let p = $v.downcast::<$T>().map(|x| x as *const $T as usize);
        check!(p == Some($p as usize), "C07 ", $m, ": the element in place");
    }};
}

/// Ranges on the shared slices.
pub fn sub_copy<T: Lay>() {
    let v = any_vec::<T>();
    let p = v.as_ptr();
    let w = SliceCopy::<V>::from_slice(&v);
    ranges!(v.len(), |r, s, l| {
        let q = p.wrapping_add(s);
        window!(w.subslice(r.clone()), T, q, l, "SliceCopy::subslice");
        window!(w.into_subslice(r), T, q, l, "SliceCopy::into_subslice");
    });
    reached!();
}
pub fn sub_copy_mut<T: Lay>() {
    let mut v = any_vec::<T>();
    let (n, p) = (v.len(), v.as_ptr());
    let mut w = SliceCopyMut::<V>::from_slice(&mut v);
    ranges!(n, |r, s, l| {
        let q = p.wrapping_add(s);
        window!(w.subslice(r.clone()), T, q, l, "SliceCopyMut::subslice");
        window!(w.subslice_mut(r.clone()), T, q, l, "SliceCopyMut::subslice_mut");
        window!(w.into_subslice(r), T, q, l, "SliceCopyMut::into_subslice");
    });
    reached!();
}
pub fn sub_dyn<T: Lay>() {
    let v = any_vec::<T>();
    let p = v.as_ptr();
    let w = Slice::<V>::from_slice(&v);
    ranges!(v.len(), |r, s, l| {
        let q = p.wrapping_add(s);
        window!(w.subslice(r.clone()), T, q, l, "Slice::subslice");
        window!(w.into_subslice(r), T, q, l, "Slice::into_subslice");
    });
    reached!();
}
pub fn sub_dyn_mut<T: Lay>() {
    let mut v = any_vec::<T>();
    let (n, p) = (v.len(), v.as_ptr());
    let mut w = SliceMut::<V>::from_slice(&mut v);
    ranges!(n, |r, s, l| {
        let q = p.wrapping_add(s);
        window!(w.subslice(r.clone()), T, q, l, "SliceMut::subslice");
        window!(w.subslice_mut(r.clone()), T, q, l, "SliceMut::subslice_mut");
        window!(w.into_subslice(r), T, q, l, "SliceMut::into_subslice");
    });
    reached!();
}

/// A range of a range.
pub fn nested<T: Lay>() {
    let mut v = any_vec::<T>();
    let (n, p) = (v.len(), v.as_ptr());
    let (a, b) = (any_usize(), any_usize());
    assume(a <= b && b <= n);
    let (c, d) = (any_usize(), any_usize());
    assume(c <= d && d <= b - a);
    let q = p.wrapping_add(a + c);
    match any_u8() {
        0 => { let w = SliceCopy::<V>::from_slice(&v); let u = w.subslice(a..b); window!(u.subslice(c..d), T, q, d - c, "SliceCopy::subslice of a subslice") }
        1 => { let mut w = SliceCopyMut::<V>::from_slice(&mut v); let mut u = w.subslice_mut(a..b); window!(u.subslice_mut(c..d), T, q, d - c, "SliceCopyMut::subslice_mut of a subslice") }
        2 => { let w = Slice::<V>::from_slice(&v); let u = w.subslice(a..b); window!(u.subslice(c..d), T, q, d - c, "Slice::subslice of a subslice") }
        _ => { let mut w = SliceMut::<V>::from_slice(&mut v); let mut u = w.subslice_mut(a..b); window!(u.subslice_mut(c..d), T, q, d - c, "SliceMut::subslice_mut of a subslice") }
    }
    reached!();
}

/// Splitting.
pub fn split<T: Lay>() {
    let mut v = any_vec::<T>();
    let (n, p) = (v.len(), v.as_ptr());
    let m = upto(n);
    let q = p.wrapping_add(m);
    match any_u8() {
        0 => { let w = SliceCopy::<V>::from_slice(&v); let (a, b) = w.split_at(m);
               window!(a, T, p, m, "SliceCopy::split_at left"); window!(b, T, q, n - m, "SliceCopy::split_at right"); }
        1 => { let mut w = SliceCopyMut::<V>::from_slice(&mut v); let (a, b) = w.split_at(m);
               window!(a, T, p, m, "SliceCopyMut::split_at left"); window!(b, T, q, n - m, "SliceCopyMut::split_at right"); }
        2 => { let w = Slice::<V>::from_slice(&v); let (a, b) = w.split_at(m);
               window!(a, T, p, m, "Slice::split_at left"); window!(b, T, q, n - m, "Slice::split_at right"); }
        _ => { let mut w = SliceMut::<V>::from_slice(&mut v); let (a, b) = w.split_at(m);
               window!(a, T, p, m, "SliceMut::split_at left"); window!(b, T, q, n - m, "SliceMut::split_at right"); }
    }
    reached!();
}

/// Indexing: untyped and typed, shared and mutable, on slices.
pub fn index_slice<T: Lay>() {
    let mut v = any_vec::<T>();
    let (n, p) = (v.len(), v.as_ptr());
    assume(n > 0);
    let i = below(n);
    let q = p.wrapping_add(i);
    match any_u8() {
        0 => { let w = SliceCopy::<V>::from_slice(&v);
               place!(w.get(i), T, q, "SliceCopy::get");
               check!(w.get_as::<T>(i).unwrap() as *const T == q, "C07 SliceCopy::get_as: the element in place"); }
        1 => { let mut w = SliceCopyMut::<V>::from_slice(&mut v);
               place!(w.get(i), T, q, "SliceCopyMut::get");
               place!(w.get_mut(i), T, q, "SliceCopyMut::get_mut");
               check!(w.get_as::<T>(i).unwrap() as *const T == q, "C07 SliceCopyMut::get_as: the element in place"); }
        2 => { let w = Slice::<V>::from_slice(&v);
               place!(w.get(i), T, q, "Slice::get");
               check!(w.get_as::<T>(i).unwrap() as *const T == q, "C07 Slice::get_as: the element in place"); }
        _ => { let mut w = SliceMut::<V>::from_slice(&mut v);
               place!(w.get(i), T, q, "SliceMut::get");
               place!(w.get_mut(i), T, q, "SliceMut::get_mut");
               check!(w.get_as::<T>(i).unwrap() as *const T == q, "C07 SliceMut::get_as: the element in place"); }
    }
    reached!();
}
/// Indexing on the vector of copyable data.
pub fn index_veccopy<T: Lay>() {
    let v = any_vec::<T>();
    let (n, p) = (v.len(), v.as_ptr());
    let i = idx(n);
    let q = p.wrapping_add(i);
    let mut d = keep(VecCopy::<V>::from_vec(v));
    if n > 0 {
    place!(d.get_ref(i), T, q, "VecCopy::get_ref");
    place!(d.get_mut(i), T, q, "VecCopy::get_mut");
    check!(d.get_ref_as::<T>(i).unwrap() as *const T == q, "C07 VecCopy::get_ref_as: the element in place");
    check!(d.get_mut_as::<T>(i).unwrap() as *const T == q, "C07 VecCopy::get_mut_as: the element in place");
    check!(same(&d.get_as::<T>(i).unwrap(), unsafe { &*q }), "C07 VecCopy::get_as: the element");
    unsafe {
        check!(d.get_unchecked_ref::<T>(i) as *const T == q, "C07 VecCopy::get_unchecked_ref: the element in place");
        check!(d.get_unchecked_mut::<T>(i) as *const T == q, "C07 VecCopy::get_unchecked_mut: the element in place");
    }
    }
    window!(d.as_slice(), T, p, n, "VecCopy::as_slice");
    window!(d.as_mut_slice(), T, p, n, "VecCopy::as_mut_slice");
    reached!();
}
/// Indexing on the vector of owned data.
pub fn index_vecdyn<T: Lay>() {
    let v = any_vec::<T>();
    let (n, p) = (v.len(), v.as_ptr());
    let i = idx(n);
    let q = p.wrapping_add(i);
    let mut d = keep(VecDyn::<V>::from_vec(v));
    if n > 0 {
    place!(d.get(i), T, q, "VecDyn::get");
    place!(d.get_mut(i), T, q, "VecDyn::get_mut");
    check!(d.get_ref_as::<T>(i).unwrap() as *const T == q, "C07 VecDyn::get_ref_as: the element in place");
    check!(d.get_mut_as::<T>(i).unwrap() as *const T == q, "C07 VecDyn::get_mut_as: the element in place");
    unsafe {
        check!(d.get_unchecked_ref::<T>(i) as *const T == q, "C07 VecDyn::get_unchecked_ref: the element in place");
        check!(d.get_unchecked_mut::<T>(i) as *const T == q, "C07 VecDyn::get_unchecked_mut: the element in place");
    }
    }
    window!(d.as_slice(), T, p, n, "VecDyn::as_slice");
    window!(d.as_mut_slice(), T, p, n, "VecDyn::as_mut_slice");
    reached!();
}

/// The iterator walks over the elements in order and then ends.
macro_rules! walk {
    ($it:expr, $T:ty, $p:expr, $n:expr, $m:literal) => {{
        let mut it = $it;
        let mut k = 0;
        while k < $n {
            check!(it.size_hint().0 == $n - k, "C07 ", $m, ": how many are left");
            let x = it.next();
            check!(x.is_some(), "C07 ", $m, ": does not end early");
            place!(x.unwrap(), $T, $p.wrapping_add(k), $m);
            k += 1;
        }
        check!(it.next().is_none(), "C07 ", $m, ": ends after the last element");
    }};
}
/// Untyped iteration over slices.
/// Bounded: at most 3 elements, or 9.
pub fn iter_slices<T: Lay>() {
    match any_u8() { 0 => iter_slices_n::<T>(0), 1 => iter_slices_n::<T>(1), 2 => iter_slices_n::<T>(3), _ => iter_slices_n::<T>(9) }
    reached!();
}
fn iter_slices_n<T: Lay>(n: usize) {
    let mut v = some::<T>(9);
    let p = v.as_ptr();
    match any_u8() {
        0 => { let w = SliceCopy::<V>::from_slice(&v[..n]); walk!(w.iter(), T, p, n, "SliceCopy::iter"); walk!(w.into_iter(), T, p, n, "SliceCopy::into_iter"); }
        1 => { let mut w = SliceCopyMut::<V>::from_slice(&mut v[..n]); walk!(w.iter(), T, p, n, "SliceCopyMut::iter"); walk!(w.into_iter(), T, p, n, "SliceCopyMut::into_iter"); }
        2 => { let w = Slice::<V>::from_slice(&v[..n]); walk!(w.iter(), T, p, n, "Slice::iter"); walk!(w.into_iter(), T, p, n, "Slice::into_iter"); }
        _ => { let mut w = SliceMut::<V>::from_slice(&mut v[..n]); walk!(w.iter(), T, p, n, "SliceMut::iter"); walk!(w.into_iter(), T, p, n, "SliceMut::into_iter"); }
    }
}
/// Untyped iteration over vectors.
/// Bounded: at most 3 elements, or 9.
pub fn iter_vecs<T: Lay>() {
    match any_u8() { 0 => iter_vecs_n::<T>(0), 1 => iter_vecs_n::<T>(1), 2 => iter_vecs_n::<T>(3), _ => iter_vecs_n::<T>(9) }
    reached!();
}
fn iter_vecs_n<T: Lay>(n: usize) {
    let v = some::<T>(n);
    let p = v.as_ptr();
    if any_bool() {
        let mut d = keep(VecCopy::<V>::from_vec(v));
        walk!(d.iter(), T, p, n, "VecCopy::iter");
        walk!(d.iter_mut(), T, p, n, "VecCopy::iter_mut");
    } else {
        let mut d = keep(VecDyn::<V>::from_vec(v));
        walk!(d.iter(), T, p, n, "VecDyn::iter");
        walk!(d.iter_mut(), T, p, n, "VecDyn::iter_mut");
    }
}
/// The first step of untyped iteration, and how many steps there are, for any length.
pub fn iter_first<T: Lay>() {
    let mut v = any_vec::<T>();
    let (n, p) = (v.len(), v.as_ptr());
    macro_rules! first { ($it:expr, $m:literal) => {{
        let mut it = $it;
        check!(it.size_hint() == (n, Some(n)), "C07 ", $m, ": as many steps as elements");
        let x = it.next();
        check!(x.is_some() == (n > 0), "C07 ", $m, ": ends exactly when there are no more");
        if let Some(x) = x { place!(x, T, p, $m); }
        check!(n == 0 || it.size_hint() == (n - 1, Some(n - 1)), "C07 ", $m, ": one step goes over one element");
    }} }
    match any_u8() {
        0 => { let w = SliceCopy::<V>::from_slice(&v); first!(w.iter(), "SliceCopy::iter"); }
        1 => { let mut w = SliceCopyMut::<V>::from_slice(&mut v); first!(w.iter(), "SliceCopyMut::iter"); }
        2 => { let w = Slice::<V>::from_slice(&v); first!(w.iter(), "Slice::iter"); }
        3 => { let mut w = SliceMut::<V>::from_slice(&mut v); first!(w.iter(), "SliceMut::iter"); }
        4 => { let mut d = keep(VecCopy::<V>::from_vec(v)); first!(d.iter(), "VecCopy::iter"); first!(d.iter_mut(), "VecCopy::iter_mut"); }
        _ => { let mut d = keep(VecDyn::<V>::from_vec(v)); first!(d.iter(), "VecDyn::iter"); first!(d.iter_mut(), "VecDyn::iter_mut"); }
    }
    reached!();
}
/// Chunks of `c` elements; a shorter rest is left out. One step from any state, and how many steps
/// there are.
macro_rules! chunk_step {
    ($it:expr, $T:ty, $n:expr, $c:expr, $p:expr, $m:literal) => {{
        let mut it = $it;
        check!(it.size_hint() == ($n / $c, Some($n / $c)), "C07 ", $m, ": as many chunks as fit");
        match it.next() {
            None => check!($n < $c, "C07 ", $m, ": ends after the last whole chunk"),
            Some(w) => {
                check!($n >= $c, "C07 ", $m, ": only whole chunks");
                window!(w, $T, $p, $c, $m);
                if $n >= 2 * $c { window!(it.next().unwrap(), $T, $p.wrapping_add($c), $c, $m); }
            }
        }
    }};
}
fn copy_of<T: Lay>(v: Vec<T>, c: usize) {
    let v = v;
    let (n, p) = (v.len(), v.as_ptr());
    let w = SliceCopy::<V>::from_slice(&v);
    chunk_step!(w.chunks_exact(c), T, n, c, p, "SliceCopy::chunks_exact");
    reached!();
}
pub fn chunks2_copy<T: Lay>() { copy_of::<T>(any_vec(), 2) }
/// Bounded: at most 31 elements.
pub fn chunks3_copy<T: Lay>() { copy_of::<T>(few(), 3) }
fn copy_mut_of<T: Lay>(v: Vec<T>, c: usize) {
    let mut v = v;
    let (n, p) = (v.len(), v.as_ptr());
    let w = SliceCopyMut::<V>::from_slice(&mut v);
    chunk_step!(w.chunks_exact(c), T, n, c, p, "SliceCopyMut::chunks_exact");
    reached!();
}
pub fn chunks2_copy_mut<T: Lay>() { copy_mut_of::<T>(any_vec(), 2) }
/// Bounded: at most 31 elements.
pub fn chunks3_copy_mut<T: Lay>() { copy_mut_of::<T>(few(), 3) }
fn copy_mut_mut_of<T: Lay>(v: Vec<T>, c: usize) {
    let mut v = v;
    let (n, p) = (v.len(), v.as_ptr());
    let mut w = SliceCopyMut::<V>::from_slice(&mut v);
    chunk_step!(w.chunks_exact_mut(c), T, n, c, p, "SliceCopyMut::chunks_exact_mut");
    reached!();
}
pub fn chunks2_copy_mut_mut<T: Lay>() { copy_mut_mut_of::<T>(any_vec(), 2) }
/// Bounded: at most 31 elements.
pub fn chunks3_copy_mut_mut<T: Lay>() { copy_mut_mut_of::<T>(few(), 3) }
fn dyn_of<T: Lay>(v: Vec<T>, c: usize) {
    let v = v;
    let (n, p) = (v.len(), v.as_ptr());
    let w = Slice::<V>::from_slice(&v);
    chunk_step!(w.chunks_exact(c), T, n, c, p, "Slice::chunks_exact");
    reached!();
}
pub fn chunks2_dyn<T: Lay>() { dyn_of::<T>(any_vec(), 2) }
/// Bounded: at most 31 elements.
pub fn chunks3_dyn<T: Lay>() { dyn_of::<T>(few(), 3) }
fn dyn_mut_of<T: Lay>(v: Vec<T>, c: usize) {
    let mut v = v;
    let (n, p) = (v.len(), v.as_ptr());
    let w = SliceMut::<V>::from_slice(&mut v);
    chunk_step!(w.chunks_exact(c), T, n, c, p, "SliceMut::chunks_exact");
    reached!();
}
pub fn chunks2_dyn_mut<T: Lay>() { dyn_mut_of::<T>(any_vec(), 2) }
/// Bounded: at most 31 elements.
pub fn chunks3_dyn_mut<T: Lay>() { dyn_mut_of::<T>(few(), 3) }
fn dyn_mut_mut_of<T: Lay>(v: Vec<T>, c: usize) {
    let mut v = v;
    let (n, p) = (v.len(), v.as_ptr());
    let mut w = SliceMut::<V>::from_slice(&mut v);
    chunk_step!(w.chunks_exact_mut(c), T, n, c, p, "SliceMut::chunks_exact_mut");
    reached!();
}
pub fn chunks2_dyn_mut_mut<T: Lay>() { dyn_mut_mut_of::<T>(any_vec(), 2) }
/// Bounded: at most 31 elements.
pub fn chunks3_dyn_mut_mut<T: Lay>() { dyn_mut_mut_of::<T>(few(), 3) }
fn few<T: Lay>() -> Vec<T> { crate::lay::few_vec(31) }

cases! {
    sub_copy [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a3u32: [u32; 3], a32x2: A32x2] unwind 1 pure;
    sub_copy_mut [a3u8: [u8; 3], u32_: u32] more [pad: Pad, a3u32: [u32; 3], u8_: u8] unwind 1 pure;
    sub_dyn [a3u8: [u8; 3], u32_: u32] more [u8_: u8, pad: Pad, a3u32: [u32; 3], a32x2: A32x2] unwind 1 pure;
    sub_dyn_mut [a3u8: [u8; 3], u32_: u32] more [pad: Pad, a3u32: [u32; 3], u8_: u8] unwind 1 pure;
    nested [a3u8: [u8; 3], u32_: u32] more [pad: Pad, a3u32: [u32; 3]] unwind 1 pure;
    split [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a3u32: [u32; 3]] unwind 1 pure;
    index_slice [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a3u32: [u32; 3]] unwind 1 pure;
    index_veccopy [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a3u32: [u32; 3]] unwind 1 pure;
    index_vecdyn [u8_: u8, a3u8: [u8; 3], u32_: u32] more [pad: Pad, a3u32: [u32; 3]] unwind 1 pure;
    iter_first [u8_: u8, a2u32: [u32; 2]] more [a3u8: [u8; 3], pad: Pad, a3u32: [u32; 3]] unwind 1 pure;
    iter_slices [u32_: u32] more [a3u8: [u8; 3], pad: Pad, a3u32: [u32; 3], u8_: u8] unwind 12 flat;
    iter_vecs [a3u8: [u8; 3]] more [u32_: u32, pad: Pad, a3u32: [u32; 3], u8_: u8] unwind 12 flat;
    chunks2_copy [u32_: u32] more [u8_: u8, a2u32: [u32; 2], pad: Pad] unwind 1 pure;
    chunks3_copy [u8_: u8] more [u32_: u32, a3u8: [u8; 3]] unwind 1 pure;
    chunks2_copy_mut [u32_: u32] more [u8_: u8, a2u32: [u32; 2], pad: Pad] unwind 1 pure;
    chunks3_copy_mut [u8_: u8] more [u32_: u32, a3u8: [u8; 3]] unwind 1 pure;
    chunks2_copy_mut_mut [u32_: u32] more [u8_: u8, a2u32: [u32; 2], pad: Pad] unwind 1 pure;
    chunks3_copy_mut_mut [u8_: u8] more [u32_: u32, a3u8: [u8; 3]] unwind 1 pure;
    chunks2_dyn [u32_: u32] more [u8_: u8, a2u32: [u32; 2], pad: Pad] unwind 1 pure;
    chunks3_dyn [u8_: u8] more [u32_: u32, a3u8: [u8; 3]] unwind 1 pure;
    chunks2_dyn_mut [u32_: u32] more [u8_: u8, a2u32: [u32; 2], pad: Pad] unwind 1 pure;
    chunks3_dyn_mut [u8_: u8] more [u32_: u32, a3u8: [u8; 3]] unwind 1 pure;
    chunks2_dyn_mut_mut [u32_: u32] more [u8_: u8, a2u32: [u32; 2], pad: Pad] unwind 1 pure;
    chunks3_dyn_mut_mut [u8_: u8] more [u32_: u32, a3u8: [u8; 3]] unwind 1 pure;
}
