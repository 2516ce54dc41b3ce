//! C02: typed data survives a trip through every untyped container and view, bit for bit.
use crate::lay::*;
use crate::sym::*;
use dync::traits::DropVTable;
use dync::*;

/// `Vec<T>` -> `VecCopy` -> `Vec<T>`: same length, same elements, same buffer.
pub fn veccopy<T: Lay>() {
    let v = any_vec::<T>();
    let (n, c, p) = (v.len(), v.capacity(), v.as_ptr());
    let (i, j) = (any_usize(), below(T::LANES));
    let x = if i < n { v[i].lane(j) } else { 0 };
    let d: VecCopy = VecCopy::from_vec(v);
    check!(d.len() == n, "C02 VecCopy::from_vec keeps the length");
    check!(d.is_empty() == (n == 0), "C02 VecCopy::is_empty");
    check!(d.capacity() >= n, "C02 VecCopy::capacity covers the length");
    let w = d.into_vec::<T>().unwrap();
    check!(w.len() == n, "C02 VecCopy::into_vec keeps the length");
    check!(w.capacity() >= n, "C02 VecCopy::into_vec capacity");
    if c > 0 {
        check!(w.as_ptr() == p && w.capacity() == c, "C02 VecCopy reuses the space of the vector");
    }
    if i < n {
        check!(w[i].lane(j) == x, "C02 VecCopy::into_vec returns the elements");
    }
    reached!();
}

/// The same for `VecDyn`.
pub fn vecdyn<T: Lay>() {
    let v = any_vec::<T>();
    let (n, c, p) = (v.len(), v.capacity(), v.as_ptr());
    let (i, j) = (any_usize(), below(T::LANES));
    let x = if i < n { v[i].lane(j) } else { 0 };
    let d: VecDyn<DropVTable> = VecDyn::from_vec(v);
    check!(d.len() == n, "C02 VecDyn::from_vec keeps the length");
    check!(d.is_empty() == (n == 0), "C02 VecDyn::is_empty");
    let w = d.into_vec::<T>().unwrap();
    check!(w.len() == n, "C02 VecDyn::into_vec keeps the length");
    check!(w.capacity() >= n, "C02 VecDyn::into_vec capacity");
    if c > 0 {
        check!(w.as_ptr() == p && w.capacity() == c, "C02 VecDyn reuses the space of the vector");
    }
    if i < n {
        check!(w[i].lane(j) == x, "C02 VecDyn::into_vec returns the elements");
    }
    reached!();
}

/// Every typed view of a `VecCopy` shows the elements in place.
pub fn veccopy_views<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let i = idx(n);
    let p: *const T = v.as_ptr().wrapping_add(i);
    let mut d: VecCopy = v.into();
    let s = d.as_slice_as::<T>().unwrap();
    check!(s.len() == n && (n == 0 || std::ptr::eq(&s[i], p)), "C02 VecCopy::as_slice_as shows the elements in order");
    check!(d.iter_as::<T>().unwrap().len() == n, "C02 VecCopy::iter_as covers the elements");
    check!(d.iter_as::<T>().unwrap().as_slice().as_ptr() == s.as_ptr(), "C02 VecCopy::iter_as starts at the front");
    check!(n == 0 || std::ptr::eq(d.get_ref_as::<T>(i).unwrap(), p), "C02 VecCopy::get_ref_as");
    check!(n == 0 || std::ptr::eq(d.get_ref(i).downcast::<T>().unwrap(), p), "C02 VecCopy::get_ref");
    check!(n == 0 || std::ptr::eq(d.get_mut(i).downcast::<T>().unwrap(), p), "C02 VecCopy::get_mut");
    check!(n == 0 || std::ptr::eq(d.get_mut_as::<T>(i).unwrap(), p), "C02 VecCopy::get_mut_as");
    let s = d.as_mut_slice_as::<T>().unwrap();
    check!(s.len() == n && (n == 0 || std::ptr::eq(&s[i], p)), "C02 VecCopy::as_mut_slice_as shows the elements in order");
    check!(d.iter_mut_as::<T>().unwrap().into_slice().len() == n, "C02 VecCopy::iter_mut_as covers the elements");
    reached!();
}

/// Reading an element by value gives the element.
pub fn veccopy_by_value<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let (i, j) = (idx(n), below(T::LANES));
    let x = if n > 0 { v[i].lane(j) } else { 0 };
    let d: VecCopy = v.into();
    check!(n == 0 || d.get_as::<T>(i).unwrap().lane(j) == x, "C02 VecCopy::get_as");
    reached!();
}

/// Every typed view of a `VecDyn` shows the elements in place.
pub fn vecdyn_views<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let i = idx(n);
    let p: *const T = v.as_ptr().wrapping_add(i);
    let mut d: VecDyn<DropVTable> = v.into();
    let s = d.as_slice_as::<T>().unwrap();
    check!(s.len() == n && (n == 0 || std::ptr::eq(&s[i], p)), "C02 VecDyn::as_slice_as shows the elements in order");
    check!(d.iter_as::<T>().unwrap().as_slice().as_ptr() == s.as_ptr(), "C02 VecDyn::iter_as starts at the front");
    check!(d.iter_as::<T>().unwrap().len() == n, "C02 VecDyn::iter_as covers the elements");
    check!(n == 0 || std::ptr::eq(d.get_ref_as::<T>(i).unwrap(), p), "C02 VecDyn::get_ref_as");
    check!(n == 0 || std::ptr::eq(d.get(i).downcast::<T>().unwrap(), p), "C02 VecDyn::get");
    check!(n == 0 || std::ptr::eq(d.get_mut(i).downcast::<T>().unwrap(), p), "C02 VecDyn::get_mut");
    check!(n == 0 || std::ptr::eq(d.get_mut_as::<T>(i).unwrap(), p), "C02 VecDyn::get_mut_as");
    check!(d.element_size() == std::mem::size_of::<T>(), "C02 VecDyn::element_size");
    let s = d.as_mut_slice_as::<T>().unwrap();
    check!(s.len() == n && (n == 0 || std::ptr::eq(&s[i], p)), "C02 VecDyn::as_mut_slice_as shows the elements in order");
    check!(d.iter_mut_as::<T>().unwrap().into_slice().len() == n, "C02 VecDyn::iter_mut_as covers the elements");
    std::mem::forget(d);
    reached!();
}

/// Untyped slices of typed data show the elements in place.
pub fn slicecopy<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let i = idx(n);
    let p: *const T = v.as_ptr().wrapping_add(i);
    let s: SliceCopy = SliceCopy::from_slice(&v);
    check!(s.len() == n && s.is_empty() == (n == 0), "C02 SliceCopy::from_slice keeps the length");
    check!(s.element_size() == std::mem::size_of::<T>(), "C02 SliceCopy::element_size");
    let t = s.as_slice::<T>().unwrap();
    check!(t.len() == n && (n == 0 || std::ptr::eq(&t[i], p)), "C02 SliceCopy::as_slice");
    check!(n == 0 || std::ptr::eq(s.get_as::<T>(i).unwrap(), p), "C02 SliceCopy::get_as");
    check!(n == 0 || std::ptr::eq(s.get(i).downcast::<T>().unwrap(), p), "C02 SliceCopy::get");
    let t = s.iter_as::<T>().unwrap();
    check!(t.len() == n && (n == 0 || std::ptr::eq(&t.as_slice()[i], p)), "C02 SliceCopy::iter_as");
    reached!();
}
pub fn slice<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let i = idx(n);
    let p: *const T = v.as_ptr().wrapping_add(i);
    let s: Slice<DropVTable> = v.as_slice().into();
    check!(s.len() == n && s.is_empty() == (n == 0), "C02 Slice::from_slice keeps the length");
    check!(s.element_size() == std::mem::size_of::<T>(), "C02 Slice::element_size");
    let t = s.as_slice::<T>().unwrap();
    check!(t.len() == n && (n == 0 || std::ptr::eq(&t[i], p)), "C02 Slice::as_slice");
    check!(n == 0 || std::ptr::eq(s.get_as::<T>(i).unwrap(), p), "C02 Slice::get_as");
    check!(n == 0 || std::ptr::eq(s.get(i).downcast::<T>().unwrap(), p), "C02 Slice::get");
    let t = s.iter_as::<T>().unwrap();
    check!(t.len() == n && (n == 0 || std::ptr::eq(&t.as_slice()[i], p)), "C02 Slice::iter_as");
    reached!();
}
pub fn slicecopymut<T: Lay>() {
    let mut v = any_vec::<T>();
    let n = v.len();
    let i = idx(n);
    let p: *const T = v.as_ptr().wrapping_add(i);
    let mut s: SliceCopyMut = SliceCopyMut::from_slice(&mut v);
    check!(s.len() == n && s.is_empty() == (n == 0), "C02 SliceCopyMut::from_slice keeps the length");
    let t = s.as_slice::<T>().unwrap();
    check!(t.len() == n && (n == 0 || std::ptr::eq(&t[i], p)), "C02 SliceCopyMut::as_slice");
    check!(n == 0 || std::ptr::eq(s.get_as::<T>(i).unwrap(), p), "C02 SliceCopyMut::get_as");
    check!(n == 0 || std::ptr::eq(s.get(i).downcast::<T>().unwrap(), p), "C02 SliceCopyMut::get");
    check!(n == 0 || std::ptr::eq(s.get_mut(i).downcast::<T>().unwrap(), p), "C02 SliceCopyMut::get_mut");
    let t = s.iter_as::<T>().unwrap().into_slice();
    check!(t.len() == n && (n == 0 || std::ptr::eq(&t[i], p)), "C02 SliceCopyMut::iter_as");
    let r: SliceCopy = SliceCopy::from(s);
    check!(r.len() == n && (n == 0 || std::ptr::eq(r.get_as::<T>(i).unwrap(), p)), "C02 SliceCopy from SliceCopyMut");
    reached!();
}
pub fn slicemut<T: Lay>() {
    let mut v = any_vec::<T>();
    let n = v.len();
    let i = idx(n);
    let p: *const T = v.as_ptr().wrapping_add(i);
    let mut s: SliceMut<DropVTable> = v.as_mut_slice().into();
    check!(s.len() == n && s.is_empty() == (n == 0), "C02 SliceMut::from_slice keeps the length");
    check!(s.element_size() == std::mem::size_of::<T>(), "C02 SliceMut::element_size");
    let t = s.as_slice::<T>().unwrap();
    check!(t.len() == n && (n == 0 || std::ptr::eq(&t[i], p)), "C02 SliceMut::as_slice");
    check!(n == 0 || std::ptr::eq(s.get_as::<T>(i).unwrap(), p), "C02 SliceMut::get_as");
    check!(n == 0 || std::ptr::eq(s.get(i).downcast::<T>().unwrap(), p), "C02 SliceMut::get");
    check!(n == 0 || std::ptr::eq(s.get_mut(i).downcast::<T>().unwrap(), p), "C02 SliceMut::get_mut");
    let t = s.iter_as::<T>().unwrap().into_slice();
    check!(t.len() == n && (n == 0 || std::ptr::eq(&t[i], p)), "C02 SliceMut::iter_as");
    let r: Slice<DropVTable> = Slice::from(s);
    check!(r.len() == n && (n == 0 || std::ptr::eq(r.get_as::<T>(i).unwrap(), p)), "C02 Slice from SliceMut");
    reached!();
}

/// Untyped slices of the containers show the container's elements.
pub fn container_slices<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let i = idx(n);
    let p: *const T = v.as_ptr().wrapping_add(i);
    if any_bool() {
        let mut d: VecCopy = v.into();
        let s = d.as_slice();
        check!(s.len() == n && (n == 0 || std::ptr::eq(s.get_as::<T>(i).unwrap(), p)), "C02 VecCopy::as_slice");
        let mut s = d.as_mut_slice();
        check!(s.len() == n && (n == 0 || std::ptr::eq(s.get_as::<T>(i).unwrap(), p)), "C02 VecCopy::as_mut_slice");
    } else {
        let mut d: VecDyn<DropVTable> = v.into();
        let s = d.as_slice();
        check!(s.len() == n && (n == 0 || std::ptr::eq(s.get_as::<T>(i).unwrap(), p)), "C02 VecDyn::as_slice");
        let mut s = d.as_mut_slice();
        check!(s.len() == n && (n == 0 || std::ptr::eq(s.get_as::<T>(i).unwrap(), p)), "C02 VecDyn::as_mut_slice");
        std::mem::forget(d);
    }
    reached!();
}

/// Copying in from a slice and out into a `Vec`.
pub fn copies<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let (i, j) = (idx(n), below(T::LANES));
    let x = if n > 0 { v[i].lane(j) } else { 0 };
    let d: VecCopy = VecCopy::from_slice(&v);
    check!(d.len() == n, "C02 VecCopy::from_slice keeps the length");
    check!(n == 0 || d.as_slice_as::<T>().unwrap().as_ptr() != v.as_ptr(), "C02 VecCopy::from_slice makes a copy");
    check!(n == 0 || d.as_slice_as::<T>().unwrap()[i].lane(j) == x, "C02 VecCopy::from_slice copies the elements");
    reached!();
}
pub fn copies_out<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let (i, j) = (idx(n), below(T::LANES));
    let x = if n > 0 { v[i].lane(j) } else { 0 };
    let d: VecCopy = v.into();
    let w = d.copy_into_vec::<T>().unwrap();
    check!(w.len() == n && d.len() == n, "C02 VecCopy::copy_into_vec keeps the length");
    check!(n == 0 || w.as_ptr() != d.as_slice_as::<T>().unwrap().as_ptr(), "C02 VecCopy::copy_into_vec makes a copy");
    check!(n == 0 || w[i].lane(j) == x, "C02 VecCopy::copy_into_vec copies the elements");
    reached!();
}
/// Appending copies keeps what was in the target before.
pub fn append_out<T: Lay>() {
    let v = any_vec::<T>();
    let mut t = any_vec::<T>();
    let (n, m) = (v.len(), t.len());
    let (i, j) = (any_usize(), below(T::LANES));
    let x = if i < m { t[i].lane(j) } else if i < n + m { v[i - m].lane(j) } else { 0 };
    let d: VecCopy = v.into();
    check!(d.append_copy_to_vec(&mut t).is_some(), "C02 VecCopy::append_copy_to_vec accepts the type");
    check!(t.len() == n + m, "C02 append_copy_to_vec adds every element");
    check!(i >= n + m || t[i].lane(j) == x, "C02 append_copy_to_vec appends in order");
    reached!();
}
fn append_out_slice_n<T: Lay>(n: usize, m: usize) {
    let mut v = some::<T>(n);
    let mut t = some::<T>(m);
    let (i, j) = (any_usize(), below(T::LANES));
    let x = if i < m { t[i].lane(j) } else if i < n + m { v[i - m].lane(j) } else { 0 };
    let done = if any_bool() {
        SliceCopy::<()>::from_slice(&v).append_copy_to_vec(&mut t).is_some()
    } else {
        SliceCopyMut::<()>::from_slice(&mut v).append_copy_to_vec(&mut t).is_some()
    };
    check!(done, "C02 SliceCopy::append_copy_to_vec accepts the type");
    check!(t.len() == n + m, "C02 SliceCopy::append_copy_to_vec adds every element");
    check!(i >= n + m || t[i].lane(j) == x, "C02 SliceCopy::append_copy_to_vec appends in order");
}
/// The same for slices (iterates).
/// Bounded: 0, 1, 2 and 9 elements to 0, 1 and 2.
pub fn append_out_slice<T: Lay>() {
    match any_u8() {
        0 => append_out_slice_n::<T>(0, 0), 1 => append_out_slice_n::<T>(1, 0), 2 => append_out_slice_n::<T>(2, 1), 3 => append_out_slice_n::<T>(9, 2),
        _ => append_out_slice_n::<T>(0, 2),
    }
    reached!();
}

/// Values: boxed, word sized, by reference.
pub fn values<T: Lay>() {
    let mut x = T::any();
    let y = x;
    let b: BoxValue<DropVTable> = BoxValue::new(x);
    check!(b.size() == std::mem::size_of::<T>(), "C02 BoxValue::size");
    check!(b.value_alignment() == std::mem::align_of::<T>(), "C02 BoxValue::value_alignment");
    check!(same(b.as_ref().downcast::<T>().unwrap(), &y), "C02 BoxValue::as_ref");
    check!(same(&*b.downcast::<T>().unwrap(), &y), "C02 BoxValue returns the value");
    match SmallValue::<DropVTable>::try_new(x) {
        Some(s) => {
            check!(std::mem::size_of::<T>() == std::mem::size_of::<usize>(), "C02 SmallValue holds only words");
            check!(same(s.as_ref().downcast::<T>().unwrap(), &y), "C02 SmallValue::as_ref");
            check!(same(&s.downcast::<T>().unwrap(), &y), "C02 SmallValue returns the value");
        }
        None => check!(std::mem::size_of::<T>() != std::mem::size_of::<usize>(), "C02 SmallValue accepts any word"),
    }
    let p: *const T = &x;
    check!(std::ptr::eq(ValueRef::<DropVTable>::new(&x).downcast::<T>().unwrap(), p), "C02 ValueRef");
    check!(std::ptr::eq(CopyValueRef::<()>::new(&x).downcast::<T>().unwrap(), p), "C02 CopyValueRef");
    check!(std::ptr::eq(ValueMut::<DropVTable>::new(&mut x).downcast::<T>().unwrap(), p), "C02 ValueMut");
    check!(std::ptr::eq(CopyValueMut::<()>::new(&mut x).downcast::<T>().unwrap(), p), "C02 CopyValueMut");
    reached!();
}

/// Raw parts reassemble into the same container.
pub fn raw_parts<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let i = idx(n);
    let p: *const T = v.as_ptr().wrapping_add(i);
    if any_bool() {
        let d: VecCopy = v.into();
        let (data, vt) = d.into_raw_parts();
        let d = unsafe { VecCopy::from_raw_parts(data, vt) };
        check!(d.len() == n && (n == 0 || std::ptr::eq(d.get_ref_as::<T>(i).unwrap(), p)), "C02 VecCopy raw parts");
    } else {
        let d: VecDyn<DropVTable> = v.into();
        let (data, vt) = d.into_raw_parts();
        let d = unsafe { VecDyn::from_raw_parts(data, vt) };
        check!(d.len() == n && (n == 0 || std::ptr::eq(d.get_ref_as::<T>(i).unwrap(), p)), "C02 VecDyn raw parts");
        std::mem::forget(d);
    }
    reached!();
}

fn filled_n<T: Lay>(n: usize) {
    let x = T::any();
    let i = idx(n);
    let d: VecCopy = VecCopy::with_size(n, x);
    check!(d.len() == n, "C02 VecCopy::with_size");
    check!(n == 0 || same(d.get_ref_as::<T>(i).unwrap(), &x), "C02 VecCopy::with_size fills");
}
/// Filled construction.
/// Bounded: 0, 1, 2 and 9 elements.
pub fn filled<T: Lay>() {
    match any_u8() { 0 => filled_n::<T>(0), 1 => filled_n::<T>(1), 2 => filled_n::<T>(2), _ => filled_n::<T>(9) }
    reached!();
}
fn slice_copies_n<T: Lay>(n: usize) {
    let mut w = some::<T>(n);
    let (i, j) = (idx(n), below(T::LANES));
    let x = if n > 0 { w[i].lane(j) } else { 0 };
    let c = if any_bool() {
        let s: SliceCopyMut = w.as_mut_slice().into();
        s.copy_into_vec::<T>().unwrap()
    } else {
        let s: SliceCopy = w.as_slice().into();
        s.copy_into_vec::<T>().unwrap()
    };
    check!(c.len() == n, "C02 copy_into_vec of slices keeps the length");
    check!(n == 0 || c[i].lane(j) == x, "C02 copy_into_vec of slices copies the elements");
}
/// Copies of untyped slices (iterates).
/// Bounded: 0, 1, 2 and 9 elements.
pub fn slice_copies<T: Lay>() {
    match any_u8() { 0 => slice_copies_n::<T>(0), 1 => slice_copies_n::<T>(1), 2 => slice_copies_n::<T>(2), _ => slice_copies_n::<T>(9) }
    reached!();
}

cases! {
    veccopy [u8_: u8, u32_: u32, a3u8: [u8; 3], a3u32: [u32; 3], a16x2: A16x2] more [u64_: u64, pad: Pad, a32x2: A32x2, u128_: u128, a64: A64, a128: A128, a1k: A1k] unwind 6 pure;
    vecdyn [u8_: u8, u32_: u32, a3u32: [u32; 3], a16x2: A16x2] more [a3u8: [u8; 3], pad: Pad, a32x2: A32x2, a128: A128] unwind 6 pure;
    veccopy_views [u8_: u8, a3u32: [u32; 3], a32x2: A32x2] more [a3u8: [u8; 3], pad: Pad, u128_: u128, a128: A128] unwind 6 pure;
    veccopy_by_value [u32_: u32, a3u8: [u8; 3]] more [pad: Pad, a16x2: A16x2] unwind 6 pure;
    vecdyn_views [u8_: u8, a2u32: [u32; 2], a32x2: A32x2] more [a3u8: [u8; 3], a3u32: [u32; 3], pad: Pad] unwind 6 pure;
    slicecopy [u8_: u8, a2u32: [u32; 2]] more [pad: Pad, a3u8: [u8; 3], a3u32: [u32; 3], a32x2: A32x2] unwind 6 pure;
    slice [u8_: u8, a2u32: [u32; 2]] more [pad: Pad, a3u8: [u8; 3], a3u32: [u32; 3], a32x2: A32x2] unwind 6 pure;
    slicecopymut [u8_: u8, a2u32: [u32; 2]] more [pad: Pad, a3u8: [u8; 3], a3u32: [u32; 3], a32x2: A32x2] unwind 6 pure;
    slicemut [u8_: u8, a2u32: [u32; 2]] more [pad: Pad, a3u8: [u8; 3], a3u32: [u32; 3], a32x2: A32x2] unwind 6 pure;
    container_slices [u8_: u8, a2u32: [u32; 2]] more [pad: Pad, a3u32: [u32; 3], a32x2: A32x2] unwind 6 pure;
    copies [u32_: u32, a3u8: [u8; 3]] more [u8_: u8, pad: Pad] unwind 6 pure;
    copies_out [u32_: u32, a3u8: [u8; 3]] more [u8_: u8, pad: Pad] unwind 6 pure;
    append_out [u8_: u8] more [u16_: u16, u32_: u32] unwind 6 pure;
    append_out_slice [u16_: u16, a3u8: [u8; 3]] more [u8_: u8, u32_: u32] unwind 12 flat;
    values [u8_: u8, u64_: u64, f64_: f64, a2u32: [u32; 2], a3u32: [u32; 3], a32x2: A32x2] more [pad: Pad, a2u8: [u8; 2], u128_: u128, a1k: A1k] unwind 6 flat;
    raw_parts [u8_: u8, a3u32: [u32; 3]] more [pad: Pad, a16x2: A16x2] unwind 6 pure;
    filled [u32_: u32] more [u8_: u8, a2u32: [u32; 2]] unwind 12 flat;
    slice_copies [u32_: u32, a3u8: [u8; 3]] more [u8_: u8, pad: Pad] unwind 12 pure;
}
