//! C13: writing through an untyped mutable reference changes exactly its target.
use crate::lay::*;
use crate::sym::*;
use crate::tok::CloneDrop;
use dync::*;

type V = CloneDrop;
fn keep<D>(d: D) -> std::mem::ManuallyDrop<D> { std::mem::ManuallyDrop::new(d) }

/// Four elements of any contents.
fn four<T: Lay>() -> Vec<T> { vec![T::any(), T::any(), T::any(), T::any()] }

/// A place to write to (`i`) and a place to look at (`k`, lane `j`).
macro_rules! place {
    ($v:ident: $T:ty, $n:ident $i:ident $k:ident $j:ident $old:ident) => {
        let $n = $v.len();
        assume($n > 0);
        let ($i, $k, $j) = (below($n), below($n), below(<$T>::LANES));
        let $old = $v[$k].lane($j);
    };
}

/// `CopyValueMut::copy` into an element of a vector.
pub fn copy_veccopy<T: Lay>() {
    let v = window_vec::<T>();
    place!(v: T, n i k j old);
    let e = T::any();
    let mut d = keep(VecCopy::<V>::from_vec(v));
    check!(d.get_mut(i).copy(CopyValueRef::new(&e)).is_some(), "C13 CopyValueMut::copy accepts the type");
    check!(d.len() == n, "C13 CopyValueMut::copy keeps the length");
    let x = d.as_slice_as::<T>().unwrap()[k].lane(j);
    check!(x == if k == i { e.lane(j) } else { old }, "C13 CopyValueMut::copy through VecCopy::get_mut writes the element and nothing else");
    reached!();
}
/// ... of a slice.
pub fn copy_slice<T: Lay>() {
    let mut v = window_vec::<T>();
    place!(v: T, n i k j old);
    let e = T::any();
    let mut w = SliceCopyMut::<V>::from_slice(&mut v);
    check!(w.get_mut(i).copy(CopyValueRef::new(&e)).is_some(), "C13 CopyValueMut::copy accepts the type");
    check!(v[k].lane(j) == if k == i { e.lane(j) } else { old }, "C13 CopyValueMut::copy through SliceCopyMut::get_mut writes the element and nothing else");
    let _ = n;
    reached!();
}
/// ... given by the mutable iterators.
/// Bounded: 9 elements.
pub fn copy_iter<T: Lay>() {
    let mut v = some::<T>(9);
    place!(v: T, n i k j old);
    let e = T::any();
    let _ = n;
    if any_bool() {
        let mut d = keep(VecCopy::<V>::from_vec(v));
        let mut c = 0;
        for x in d.iter_mut() { if c == i { check!(x.copy(CopyValueRef::new(&e)).is_some(), "C13 CopyValueMut::copy accepts the type"); } c += 1; }
        let x = d.as_slice_as::<T>().unwrap()[k].lane(j);
        check!(x == if k == i { e.lane(j) } else { old }, "C13 CopyValueMut::copy through VecCopy::iter_mut writes the element and nothing else");
    } else {
        let mut w = SliceCopyMut::<V>::from_slice(&mut v);
        let mut c = 0;
        for x in w.iter() { if c == i { check!(x.copy(CopyValueRef::new(&e)).is_some(), "C13 CopyValueMut::copy accepts the type"); } c += 1; }
        check!(v[k].lane(j) == if k == i { e.lane(j) } else { old }, "C13 CopyValueMut::copy through SliceCopyMut::iter writes the element and nothing else");
    }
    reached!();
}
/// Another type: nothing happens, even at the same size.
pub fn copy_wrong<P: Pair>() {
    let mut v = window_vec::<P::A>();
    place!(v: P::A, n i k j old);
    let e = P::B::any();
    let _ = n;
    let mut w = SliceCopyMut::<V>::from_slice(&mut v);
    check!(w.get_mut(i).copy(CopyValueRef::new(&e)).is_none(), "C13 CopyValueMut::copy refuses another type");
    check!(v[k].lane(j) == old, "C13 CopyValueMut::copy of another type changes nothing");
    reached!();
}
/// Swapping two untyped mutable references.
pub fn swap_copy<T: Lay>() {
    let mut v = four::<T>();
    place!(v: T, n i k j old);
    let _ = n;
    let at_i = v[i].lane(j);
    let mut e = T::any();
    let x = e.lane(j);
    let mut w = SliceCopyMut::<V>::from_slice(&mut v);
    w.get_mut(i).swap(&mut CopyValueMut::new(&mut e));
    check!(e.lane(j) == at_i, "C13 CopyValueMut::swap hands out the old element");
    check!(v[k].lane(j) == if k == i { x } else { old }, "C13 CopyValueMut::swap writes the element and nothing else");
    reached!();
}
pub fn swap_copy_wrong<P: Pair>() {
    let mut v = four::<P::A>();
    place!(v: P::A, n i k j old);
    let _ = n;
    let mut e = P::B::any();
    let f = e;
    let mut w = SliceCopyMut::<V>::from_slice(&mut v);
    w.get_mut(i).swap(&mut CopyValueMut::new(&mut e));
    check!(same(&e, &f), "C13 CopyValueMut::swap with another type changes nothing");
    check!(v[k].lane(j) == old, "C13 CopyValueMut::swap with another type changes nothing");
    reached!();
}
pub fn swap_dyn<T: Lay>() {
    let mut v = four::<T>();
    place!(v: T, n i k j old);
    let _ = n;
    let at_i = v[i].lane(j);
    let mut e = T::any();
    let x = e.lane(j);
    let mut w = SliceMut::<V>::from_slice(&mut v);
    w.get_mut(i).swap(&mut ValueMut::new(&mut e));
    check!(e.lane(j) == at_i, "C13 ValueMut::swap hands out the old element");
    check!(v[k].lane(j) == if k == i { x } else { old }, "C13 ValueMut::swap writes the element and nothing else");
    reached!();
}
pub fn swap_dyn_wrong<P: Pair>() {
    let mut v = four::<P::A>();
    place!(v: P::A, n i k j old);
    let _ = n;
    let mut e = P::B::any();
    let f = e;
    let mut w = SliceMut::<V>::from_slice(&mut v);
    w.get_mut(i).swap(&mut ValueMut::new(&mut e));
    check!(same(&e, &f), "C13 ValueMut::swap with another type changes nothing");
    check!(v[k].lane(j) == old, "C13 ValueMut::swap with another type changes nothing");
    reached!();
}
/// Assigning a boxed value to an element.
pub fn assign_box<T: Lay>() {
    let v = four::<T>();
    place!(v: T, n i k j old);
    let e = T::any();
    let mut d = keep(VecDyn::<V>::from_vec(v));
    d.get_mut(i).assign(BoxValue::new(e));
    check!(d.len() == n, "C13 ValueMut::assign keeps the length");
    let x = d.as_slice_as::<T>().unwrap()[k].lane(j);
    check!(x == if k == i { e.lane(j) } else { old }, "C13 ValueMut::assign (box) writes the element and nothing else");
    reached!();
}
pub fn assign_small<T: Lay>() {
    let mut v = four::<T>();
    place!(v: T, n i k j old);
    let _ = n;
    let e = T::any();
    let mut w = SliceMut::<V>::from_slice(&mut v);
    w.get_mut(i).assign(SmallValue::new(e));
    check!(v[k].lane(j) == if k == i { e.lane(j) } else { old }, "C13 ValueMut::assign (small) writes the element and nothing else");
    reached!();
}
pub fn assign_wrong<P: Pair>() {
    let mut v = four::<P::A>();
    place!(v: P::A, n i k j old);
    let _ = n;
    let mut w = SliceMut::<V>::from_slice(&mut v);
    w.get_mut(i).assign(BoxValue::new(P::B::any()));
    check!(v[k].lane(j) == old, "C13 ValueMut::assign of another type changes nothing");
    reached!();
}
/// Cloning from another value.
pub fn clone_from<T: Lay>() {
    let v = four::<T>();
    place!(v: T, n i k j old);
    let e = T::any();
    let mut d = keep(VecDyn::<V>::from_vec(v));
    check!(d.get_mut(i).clone_from_other(ValueRef::new(&e)).is_ok(), "C13 ValueMut::clone_from_other accepts the type");
    check!(d.len() == n, "C13 ValueMut::clone_from_other keeps the length");
    let x = d.as_slice_as::<T>().unwrap()[k].lane(j);
    check!(x == if k == i { e.lane(j) } else { old }, "C13 ValueMut::clone_from_other writes the element and nothing else");
    reached!();
}
pub fn clone_from_wrong<P: Pair>() {
    let mut v = four::<P::A>();
    place!(v: P::A, n i k j old);
    let _ = n;
    let e = P::B::any();
    let mut w = SliceMut::<V>::from_slice(&mut v);
    check!(w.get_mut(i).clone_from_other(ValueRef::new(&e)).is_err(), "C13 ValueMut::clone_from_other refuses another type");
    check!(v[k].lane(j) == old, "C13 ValueMut::clone_from_other of another type changes nothing");
    reached!();
}
/// Copying a slice over a slice: typed contents of the same length.
pub fn copy_from_slice<T: Lay>() {
    let mut v = window_vec::<T>();
    let u = window_vec::<T>();
    let n = v.len();
    let (a, b) = (any_usize(), any_usize());
    assume(n > 0 && a <= b && b <= n && u.len() == b - a);
    let (k, j) = (below(n), below(T::LANES));
    let x = if k >= a && k < b { u[k - a].lane(j) } else { v[k].lane(j) };
    let mut w = SliceCopyMut::<V>::from_slice(&mut v[a..b]);
    check!(w.copy_from_slice(&u).is_some(), "C13 SliceCopyMut::copy_from_slice accepts the type");
    check!(v[k].lane(j) == x, "C13 SliceCopyMut::copy_from_slice writes its elements and nothing else");
    reached!();
}
pub fn copy_from_slice_wrong<P: Pair>() {
    let mut v = window_vec::<P::A>();
    place!(v: P::A, n i k j old);
    let _ = (n, i);
    let u = window_vec::<P::B>();
    let mut w = SliceCopyMut::<V>::from_slice(&mut v);
    check!(w.copy_from_slice(&u).is_none(), "C13 SliceCopyMut::copy_from_slice refuses another type");
    check!(v[k].lane(j) == old, "C13 SliceCopyMut::copy_from_slice of another type changes nothing");
    reached!();
}
/// Bounded: 2 of 4, 0 and 9 of 12 elements.
pub fn clone_from_slice<T: Lay>() {
    match any_u8() { 0 => clone_from_slice_n::<T>(4, 2), 1 => clone_from_slice_n::<T>(4, 0), _ => clone_from_slice_n::<T>(12, 9) }
    reached!();
}
fn clone_from_slice_n<T: Lay>(n: usize, m: usize) {
    let mut v = some::<T>(n);
    let u = some::<T>(m);
    let (a, k, j) = (upto(2), below(n), below(T::LANES));
    let x = if k >= a && k < a + m { u[k - a].lane(j) } else { v[k].lane(j) };
    let mut w = SliceMut::<V>::from_slice(&mut v[a..a + m]);
    check!(w.clone_from_slice(&u).is_some(), "C13 SliceMut::clone_from_slice accepts the type");
    check!(v[k].lane(j) == x, "C13 SliceMut::clone_from_slice writes its elements and nothing else");
}
pub fn clone_from_slice_wrong<P: Pair>() {
    let mut v = four::<P::A>();
    place!(v: P::A, n i k j old);
    let _ = (n, i);
    let u = [P::B::any(), P::B::any(), P::B::any(), P::B::any()];
    let mut w = SliceMut::<V>::from_slice(&mut v);
    check!(w.clone_from_slice(&u).is_none(), "C13 SliceMut::clone_from_slice refuses another type");
    check!(v[k].lane(j) == old, "C13 SliceMut::clone_from_slice of another type changes nothing");
    reached!();
}
/// Writing through a typed reference obtained from an untyped one.
pub fn typed<T: Lay>() {
    let mut v = window_vec::<T>();
    place!(v: T, n i k j old);
    let _ = n;
    let e = T::any();
    match any_u8() {
        0 => { *SliceCopyMut::<V>::from_slice(&mut v).get_mut(i).downcast::<T>().unwrap() = e; }
        1 => { *SliceMut::<V>::from_slice(&mut v).get_mut(i).downcast::<T>().unwrap() = e; }
        2 => { *SliceCopyMut::<V>::from_slice(&mut v).get_as::<T>(i).unwrap() = e; }
        3 => { *SliceMut::<V>::from_slice(&mut v).get_mut(i).reborrow_mut().downcast::<T>().unwrap() = e; }
        _ => { *SliceMut::<V>::from_slice(&mut v).get_as::<T>(i).unwrap() = e; }
    }
    check!(v[k].lane(j) == if k == i { e.lane(j) } else { old }, "C13 a typed reference to an element writes the element and nothing else");
    reached!();
}

cases! {
    copy_veccopy [u32_: u32, a3u8: [u8; 3]] more [u8_: u8, pad: Pad, a2u32: [u32; 2]] unwind 2 pure;
    copy_slice [u32_: u32, a3u8: [u8; 3]] more [u8_: u8, pad: Pad, a2u32: [u32; 2]] unwind 2 pure;
    copy_iter [u32_: u32] more [a3u8: [u8; 3], pad: Pad, a2u32: [u32; 2]] unwind 14 flat;
    copy_wrong [u32_f32: (u32, f32), u8_a2u8: (u8, [u8; 2])] more [u32_a4u8: (u32, [u8; 4])] unwind 2 pure;
    swap_copy [u32_: u32, a3u8: [u8; 3]] more [u8_: u8, pad: Pad, a2u32: [u32; 2]] unwind 4 flat;
    swap_copy_wrong [u32_f32: (u32, f32), a4u8_u32: ([u8; 4], u32)] more [u8_a2u8: (u8, [u8; 2])] unwind 4 flat;
    swap_dyn [u32_: u32, a3u8: [u8; 3]] more [u8_: u8, pad: Pad, a2u32: [u32; 2]] unwind 4 flat;
    swap_dyn_wrong [u32_f32: (u32, f32), a4u8_u32: ([u8; 4], u32)] more [u8_a2u8: (u8, [u8; 2])] unwind 4 flat;
    assign_box [u32_: u32, a3u8: [u8; 3]] more [u8_: u8, pad: Pad, a2u32: [u32; 2]] unwind 4 flat;
    assign_small [u64_: u64, a2u32: [u32; 2]] more [i64_: i64, f64_: f64] unwind 4 flat;
    assign_wrong [u32_f32: (u32, f32)] more [u8_a2u8: (u8, [u8; 2]), a4u8_u32: ([u8; 4], u32)] unwind 4 flat;
    clone_from [u32_: u32, a3u8: [u8; 3]] more [u8_: u8, pad: Pad, a2u32: [u32; 2]] unwind 4 flat;
    clone_from_wrong [u32_f32: (u32, f32), u8_a2u8: (u8, [u8; 2])] more [u32_a4u8: (u32, [u8; 4])] unwind 4 flat;
    copy_from_slice [u32_: u32, a3u8: [u8; 3]] more [u8_: u8, pad: Pad, a2u32: [u32; 2]] unwind 2 pure;
    copy_from_slice_wrong [u32_f32: (u32, f32)] more [u8_a2u8: (u8, [u8; 2]), u32_a4u8: (u32, [u8; 4])] unwind 2 pure;
    clone_from_slice [u32_: u32, a3u8: [u8; 3]] more [u8_: u8, pad: Pad, a2u32: [u32; 2]] unwind 14 flat;
    clone_from_slice_wrong [u32_f32: (u32, f32)] more [u8_a2u8: (u8, [u8; 2]), u32_a4u8: (u32, [u8; 4])] unwind 6 flat;
    typed [u32_: u32, a3u8: [u8; 3]] more [u8_: u8, pad: Pad, a2u32: [u32; 2]] unwind 2 pure;
}
