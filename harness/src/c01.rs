//! C01: typed access yields the data exactly for the stored type; otherwise nothing changes.
use crate::lay::*;
use crate::sym::*;
use crate::tok::*;
use dync::traits::DropVTable;
use dync::*;

/// Read-only accessors of `VecCopy`.
pub fn veccopy_read<P: Pair>() {
    let v = any_vec::<P::A>();
    let n = v.len();
    let i = idx(n);
    let p = v.as_ptr();
    let mut d: VecCopy = v.into();
    check!(d.element_type_id() == std::any::TypeId::of::<P::A>(), "C01 VecCopy::element_type_id");
    check!(d.check_ref::<P::B>().is_none(), "C01 VecCopy::check_ref rejects another type");
    check!(d.check_mut::<P::B>().is_none(), "C01 VecCopy::check_mut rejects another type");
    check!(d.as_slice_as::<P::B>().is_none(), "C01 VecCopy::as_slice_as rejects another type");
    check!(d.as_mut_slice_as::<P::B>().is_none(), "C01 VecCopy::as_mut_slice_as rejects another type");
    check!(d.iter_as::<P::B>().is_none(), "C01 VecCopy::iter_as rejects another type");
    check!(d.iter_mut_as::<P::B>().is_none(), "C01 VecCopy::iter_mut_as rejects another type");
    check!(n == 0 || d.get_as::<P::B>(i).is_none(), "C01 VecCopy::get_as rejects another type");
    check!(n == 0 || d.get_ref_as::<P::B>(i).is_none(), "C01 VecCopy::get_ref_as rejects another type");
    check!(n == 0 || d.get_mut_as::<P::B>(i).is_none(), "C01 VecCopy::get_mut_as rejects another type");
    check!(n == 0 || d.get_ref(i).downcast::<P::B>().is_none(), "C01 VecCopy::get_ref keeps the type");
    check!(n == 0 || d.get_mut(i).downcast::<P::B>().is_none(), "C01 VecCopy::get_mut keeps the type");
    check!(d.check_ref::<P::A>().is_some(), "C01 VecCopy::check_ref accepts the type");
    check!(d.check_mut::<P::A>().is_some(), "C01 VecCopy::check_mut accepts the type");
    let s = d.as_slice_as::<P::A>();
    check!(s.is_some(), "C01 VecCopy::as_slice_as accepts the type");
    check!((n == 0 || s.unwrap().as_ptr() == p) && d.len() == n, "C01 VecCopy is unchanged");
    if any_bool() {
        check!(d.check::<P::B>().is_none(), "C01 VecCopy::check rejects another type");
    } else {
        let d = d.check::<P::A>();
        check!(d.is_some(), "C01 VecCopy::check accepts the type");
        let d = d.unwrap();
        check!(d.into_vec::<P::B>().is_none(), "C01 VecCopy::into_vec rejects another type");
    }
    reached!();
}
/// Accessors that copy or edit `VecCopy`.
fn veccopy_frame<P: Pair>(f: impl FnOnce(&mut VecCopy)) {
    let v = any_vec::<P::A>();
    let n = v.len();
    let (i, j) = (idx(n), below(P::A::LANES));
    let x = if n > 0 { v[i].lane(j) } else { 0 };
    let (p, c) = (v.as_ptr(), v.capacity());
    let mut d: VecCopy = v.into();
    f(&mut d);
    let w = d.into_vec::<P::A>();
    check!(w.is_some(), "C01 VecCopy::into_vec accepts the type");
    let w = w.unwrap();
    check!(w.len() == n, "C01 VecCopy is unchanged: length");
    check!(n == 0 || w.as_ptr() == p, "C01 VecCopy is unchanged: storage");
    check!(c == 0 || w.capacity() == c, "C01 VecCopy is unchanged: capacity");
    check!(n == 0 || w[i].lane(j) == x, "C01 VecCopy keeps its elements");
    reached!();
}
pub fn veccopy_push<P: Pair>() {
    veccopy_frame::<P>(|d| {
        check!(d.push_as::<P::B>(P::B::any()).is_none(), "C01 VecCopy::push_as rejects another type");
    })
}
pub fn veccopy_push_ref<P: Pair>() {
    veccopy_frame::<P>(|d| {
        let b = P::B::any();
        if std::mem::size_of::<P::A>() == std::mem::size_of::<P::B>() {
            check!(d.push(CopyValueRef::<()>::new(&b)).is_none(), "C01 VecCopy::push rejects another type");
        }
    })
}
pub fn veccopy_fill<P: Pair>() {
    veccopy_frame::<P>(|d| {
        check!(d.fill::<P::B>(P::B::any()).is_none(), "C01 VecCopy::fill rejects another type");
        let b = P::B::any();
        check!(d.copy_from_slice::<P::B>(&[b]).is_none(), "C01 VecCopy::copy_from_slice rejects another type");
    })
}
pub fn veccopy_resize<P: Pair>() {
    veccopy_frame::<P>(|d| {
        check!(d.resize::<P::B>(any_len(), P::B::any()).is_none(), "C01 VecCopy::resize rejects another type");
    })
}
pub fn veccopy_out<P: Pair>() {
    veccopy_frame::<P>(|d| {
        check!(d.copy_into_vec::<P::B>().is_none(), "C01 VecCopy::copy_into_vec rejects another type");
        let mut out: Vec<P::B> = Vec::new();
        check!(d.append_copy_to_vec(&mut out).is_none() && out.is_empty(), "C01 VecCopy::append_copy_to_vec rejects another type");
    })
}
/// Appending a vector of another type.
pub fn veccopy_append<P: Pair>() {
    let v = any_vec::<P::A>();
    let u = any_vec::<P::B>();
    let (n, m) = (v.len(), u.len());
    let (p, q) = (v.as_ptr(), u.as_ptr());
    let mut d: VecCopy = v.into();
    let mut e: VecCopy = u.into();
    check!(d.append(&mut e).is_none(), "C01 VecCopy::append rejects another type");
    check!(d.len() == n && e.len() == m, "C01 VecCopy::append changes nothing on failure");
    check!(n == 0 || d.as_slice_as::<P::A>().unwrap().as_ptr() == p, "C01 VecCopy::append leaves the vector in place");
    check!(m == 0 || e.as_slice_as::<P::B>().unwrap().as_ptr() == q, "C01 VecCopy::append leaves the other vector in place");
    reached!();
}
/// Read-only accessors of `VecDyn`.
pub fn vecdyn_read<P: Pair>() {
    let v = any_vec::<P::A>();
    let n = v.len();
    let i = idx(n);
    let p = v.as_ptr();
    let mut d: VecDyn<DropVTable> = v.into();
    check!(d.element_type_id() == std::any::TypeId::of::<P::A>(), "C01 VecDyn::element_type_id");
    check!(d.check_ref::<P::B>().is_none(), "C01 VecDyn::check_ref rejects another type");
    check!(d.check_mut::<P::B>().is_none(), "C01 VecDyn::check_mut rejects another type");
    check!(d.as_slice_as::<P::B>().is_none(), "C01 VecDyn::as_slice_as rejects another type");
    check!(d.as_mut_slice_as::<P::B>().is_none(), "C01 VecDyn::as_mut_slice_as rejects another type");
    check!(d.iter_as::<P::B>().is_none(), "C01 VecDyn::iter_as rejects another type");
    check!(d.iter_mut_as::<P::B>().is_none(), "C01 VecDyn::iter_mut_as rejects another type");
    check!(n == 0 || d.get_ref_as::<P::B>(i).is_none(), "C01 VecDyn::get_ref_as rejects another type");
    check!(n == 0 || d.get_mut_as::<P::B>(i).is_none(), "C01 VecDyn::get_mut_as rejects another type");
    check!(n == 0 || d.get(i).downcast::<P::B>().is_none(), "C01 VecDyn::get keeps the type");
    check!(n == 0 || d.get_mut(i).downcast::<P::B>().is_none(), "C01 VecDyn::get_mut keeps the type");
    check!(d.check_ref::<P::A>().is_some(), "C01 VecDyn::check_ref accepts the type");
    check!(d.check_mut::<P::A>().is_some(), "C01 VecDyn::check_mut accepts the type");
    let s = d.as_slice_as::<P::A>();
    check!(s.is_some(), "C01 VecDyn::as_slice_as accepts the type");
    check!((n == 0 || s.unwrap().as_ptr() == p) && d.len() == n, "C01 VecDyn is unchanged");
    let d = d.check::<P::A>();
    check!(d.is_some(), "C01 VecDyn::check accepts the type");
    std::mem::forget(d);
    reached!();
}
/// Accessors that consume or edit `VecDyn`.
pub fn vecdyn_edit<P: Pair>() {
    let v = any_vec::<P::A>();
    let n = v.len();
    let i = idx(n);
    let x = if n > 0 { v[i].lane(0) } else { 0 };
    let mut d: VecDyn<CloneDrop> = v.into();
    check!(d.push_as::<P::B>(P::B::any()).is_none(), "C01 VecDyn::push_as rejects another type");
    check!(d.fill::<P::B>(P::B::any()).is_none(), "C01 VecDyn::fill rejects another type");
    check!(d.resize::<P::B>(any_len(), P::B::any()).is_none(), "C01 VecDyn::resize rejects another type");
    check!(d.push(BoxValue::<DropVTable>::new(P::B::any())).is_none(), "C01 VecDyn::push rejects another type");
    let b = P::B::any();
    check!(d.push_cloned(ValueRef::new(&b)).is_none(), "C01 VecDyn::push_cloned rejects another type");
    check!(d.clone_into_vec::<P::B>().is_none(), "C01 VecDyn::clone_into_vec rejects another type");
    let mut out: Vec<P::B> = Vec::new();
    check!(d.append_cloned_to_vec(&mut out).is_none() && out.is_empty(), "C01 VecDyn::append_cloned_to_vec rejects another type");
    let mut e: VecDyn<CloneDrop> = VecDyn::from_vec(vec![b]);
    check!(d.append(&mut e).is_none() && e.len() == 1, "C01 VecDyn::append rejects another type");
    check!(d.len() == n, "C01 VecDyn keeps its length");
    check!(e.into_vec::<P::B>().is_some(), "C01 VecDyn::into_vec accepts the type");
    let w = d.into_vec::<P::A>();
    check!(w.is_some(), "C01 VecDyn::into_vec accepts the type");
    let w = w.unwrap();
    check!(w.len() == n && (n == 0 || w[i].lane(0) == x), "C01 VecDyn keeps its elements");
    reached!();
}
/// Consuming accessors drop the elements on failure (iterates).
/// Bounded: length up to 2.
pub fn vecdyn_consume<P: Pair>() {
    let v = small_vec::<P::A>(2);
    let d: VecDyn<CloneDrop> = v.into();
    if any_bool() {
        check!(d.into_vec::<P::B>().is_none(), "C01 VecDyn::into_vec rejects another type");
    } else {
        check!(d.check::<P::B>().is_none(), "C01 VecDyn::check rejects another type");
    }
    reached!();
}

/// Untyped slices of copyable data.
pub fn slicecopy<P: Pair>() {
    let mut v = any_vec::<P::A>();
    let n = v.len();
    let i = idx(n);
    let p = v.as_ptr();
    {
        let s: SliceCopy = v.as_slice().into();
        check!(s.element_type_id() == std::any::TypeId::of::<P::A>(), "C01 SliceCopy::element_type_id");
        check!(s.check::<P::B>().is_none(), "C01 SliceCopy::check rejects another type");
        check!(s.check::<P::A>().is_some(), "C01 SliceCopy::check accepts the type");
        check!(s.as_slice::<P::B>().is_none(), "C01 SliceCopy::as_slice rejects another type");
        check!(s.iter_as::<P::B>().is_none(), "C01 SliceCopy::iter_as rejects another type");
        check!(n == 0 || s.get_as::<P::B>(i).is_none(), "C01 SliceCopy::get_as rejects another type");
        check!(n == 0 || s.get(i).downcast::<P::B>().is_none(), "C01 SliceCopy::get keeps the type");
        check!(s.copy_into_vec::<P::B>().is_none(), "C01 SliceCopy::copy_into_vec rejects another type");
        let mut out: Vec<P::B> = Vec::new();
        check!(s.append_copy_to_vec(&mut out).is_none() && out.is_empty(), "C01 SliceCopy::append_copy_to_vec rejects another type");
        check!(s.subslice(i..).as_slice::<P::B>().is_none(), "C01 SliceCopy::subslice keeps the type");
        check!(s.split_at(i).1.as_slice::<P::B>().is_none(), "C01 SliceCopy::split_at keeps the type");
        check!(s.reborrow().as_slice::<P::B>().is_none(), "C01 SliceCopy::reborrow keeps the type");
        check!(s.as_slice::<P::A>().is_some() && (n == 0 || s.as_slice::<P::A>().unwrap().as_ptr() == p), "C01 SliceCopy is unchanged");
    }
    reached!();
}
pub fn slicecopymut<P: Pair>() {
    let mut v = any_vec::<P::A>();
    let n = v.len();
    let i = idx(n);
    let p = v.as_ptr();
    let b = P::B::any();
    let mut s: SliceCopyMut = v.as_mut_slice().into();
    check!(s.element_type_id() == std::any::TypeId::of::<P::A>(), "C01 SliceCopyMut::element_type_id");
    check!(s.check::<P::B>().is_none(), "C01 SliceCopyMut::check rejects another type");
    check!(s.check::<P::A>().is_some(), "C01 SliceCopyMut::check accepts the type");
    check!(s.as_slice::<P::B>().is_none(), "C01 SliceCopyMut::as_slice rejects another type");
    check!(s.iter_as::<P::B>().is_none(), "C01 SliceCopyMut::iter_as rejects another type");
    check!(n == 0 || s.get_as::<P::B>(i).is_none(), "C01 SliceCopyMut::get_as rejects another type");
    check!(n == 0 || s.get(i).downcast::<P::B>().is_none(), "C01 SliceCopyMut::get keeps the type");
    check!(n == 0 || s.get_mut(i).downcast::<P::B>().is_none(), "C01 SliceCopyMut::get_mut keeps the type");
    check!(s.copy_from_slice::<P::B>(&[b]).is_none(), "C01 SliceCopyMut::copy_from_slice rejects another type");
    let mut out: Vec<P::B> = Vec::new();
    check!(s.append_copy_to_vec(&mut out).is_none() && out.is_empty(), "C01 SliceCopyMut::append_copy_to_vec rejects another type");
    check!(s.subslice(i..).as_slice::<P::B>().is_none(), "C01 SliceCopyMut::subslice keeps the type");
    check!(s.subslice_mut(i..).as_slice::<P::B>().is_none(), "C01 SliceCopyMut::subslice_mut keeps the type");
    check!(s.split_at(i).1.as_slice::<P::B>().is_none(), "C01 SliceCopyMut::split_at keeps the type");
    check!(s.reborrow().as_slice::<P::B>().is_none(), "C01 SliceCopyMut::reborrow keeps the type");
    check!(s.reborrow_mut().as_slice::<P::B>().is_none(), "C01 SliceCopyMut::reborrow_mut keeps the type");
    check!(s.as_slice::<P::A>().is_some() && (n == 0 || s.as_slice::<P::A>().unwrap().as_ptr() == p), "C01 SliceCopyMut is unchanged");
    check!(s.copy_into_vec::<P::B>().is_none(), "C01 SliceCopyMut::copy_into_vec rejects another type");
    reached!();
}
pub fn slice<P: Pair>() {
    let v = any_vec::<P::A>();
    let n = v.len();
    let i = idx(n);
    let p = v.as_ptr();
    let s: Slice<CloneDrop> = v.as_slice().into();
    check!(s.element_type_id() == std::any::TypeId::of::<P::A>(), "C01 Slice::element_type_id");
    check!(s.check::<P::B>().is_none(), "C01 Slice::check rejects another type");
    check!(s.check::<P::A>().is_some(), "C01 Slice::check accepts the type");
    check!(s.as_slice::<P::B>().is_none(), "C01 Slice::as_slice rejects another type");
    check!(s.iter_as::<P::B>().is_none(), "C01 Slice::iter_as rejects another type");
    check!(n == 0 || s.get_as::<P::B>(i).is_none(), "C01 Slice::get_as rejects another type");
    check!(n == 0 || s.get(i).downcast::<P::B>().is_none(), "C01 Slice::get keeps the type");
    check!(s.clone_into_vec::<P::B>().is_none(), "C01 Slice::clone_into_vec rejects another type");
    let mut out: Vec<P::B> = Vec::new();
    check!(s.append_clone_to_vec(&mut out).is_none() && out.is_empty(), "C01 Slice::append_clone_to_vec rejects another type");
    check!(s.subslice(i..).as_slice::<P::B>().is_none(), "C01 Slice::subslice keeps the type");
    check!(s.split_at(i).1.as_slice::<P::B>().is_none(), "C01 Slice::split_at keeps the type");
    check!(s.reborrow().as_slice::<P::B>().is_none(), "C01 Slice::reborrow keeps the type");
    check!(s.as_slice::<P::A>().is_some() && (n == 0 || s.as_slice::<P::A>().unwrap().as_ptr() == p), "C01 Slice is unchanged");
    reached!();
}
pub fn slicemut<P: Pair>() {
    let mut v = any_vec::<P::A>();
    let n = v.len();
    let i = idx(n);
    let p = v.as_ptr();
    let b = P::B::any();
    let mut s: SliceMut<CloneDrop> = v.as_mut_slice().into();
    check!(s.element_type_id() == std::any::TypeId::of::<P::A>(), "C01 SliceMut::element_type_id");
    check!(s.check::<P::B>().is_none(), "C01 SliceMut::check rejects another type");
    check!(s.check::<P::A>().is_some(), "C01 SliceMut::check accepts the type");
    check!(s.as_slice::<P::B>().is_none(), "C01 SliceMut::as_slice rejects another type");
    check!(s.iter_as::<P::B>().is_none(), "C01 SliceMut::iter_as rejects another type");
    check!(n == 0 || s.get_as::<P::B>(i).is_none(), "C01 SliceMut::get_as rejects another type");
    check!(n == 0 || s.get(i).downcast::<P::B>().is_none(), "C01 SliceMut::get keeps the type");
    check!(n == 0 || s.get_mut(i).downcast::<P::B>().is_none(), "C01 SliceMut::get_mut keeps the type");
    check!(s.clone_from_slice::<P::B>(&[b]).is_none(), "C01 SliceMut::clone_from_slice rejects another type");
    let mut out: Vec<P::B> = Vec::new();
    check!(s.append_clone_to_vec(&mut out).is_none() && out.is_empty(), "C01 SliceMut::append_clone_to_vec rejects another type");
    check!(s.subslice(i..).as_slice::<P::B>().is_none(), "C01 SliceMut::subslice keeps the type");
    check!(s.subslice_mut(i..).as_slice::<P::B>().is_none(), "C01 SliceMut::subslice_mut keeps the type");
    check!(s.split_at(i).1.as_slice::<P::B>().is_none(), "C01 SliceMut::split_at keeps the type");
    check!(s.reborrow().as_slice::<P::B>().is_none(), "C01 SliceMut::reborrow keeps the type");
    check!(s.reborrow_mut().as_slice::<P::B>().is_none(), "C01 SliceMut::reborrow_mut keeps the type");
    check!(s.as_slice::<P::A>().is_some() && (n == 0 || s.as_slice::<P::A>().unwrap().as_ptr() == p), "C01 SliceMut is unchanged");
    check!(s.clone_into_vec::<P::B>().is_none(), "C01 SliceMut::clone_into_vec rejects another type");
    reached!();
}
/// Slices of the containers, and of slices of slices, still know the type.
pub fn derived<P: Pair>() {
    let v = any_vec::<P::A>();
    let n = v.len();
    if any_bool() {
        let mut d: VecCopy = v.into();
        check!(d.as_slice().as_slice::<P::B>().is_none(), "C01 VecCopy::as_slice keeps the type");
        check!(d.as_mut_slice().as_slice::<P::B>().is_none(), "C01 VecCopy::as_mut_slice keeps the type");
        check!(d.as_slice().as_slice::<P::A>().is_some(), "C01 VecCopy::as_slice accepts the type");
        let e: VecCopy = VecCopy::with_type_from(&d);
        check!(e.len() == 0 && e.check_ref::<P::B>().is_none() && e.check_ref::<P::A>().is_some(), "C01 VecCopy::with_type_from keeps the type");
        let s = SliceCopy::from(d.as_mut_slice());
        check!(s.as_slice::<P::B>().is_none() && s.as_slice::<P::A>().is_some(), "C01 SliceCopy from SliceCopyMut keeps the type");
        let mut it = s.into_iter();
        let x = it.next();
        check!(x.is_some() == (n > 0) && !x.map_or(false, |x| x.downcast::<P::B>().is_some()), "C01 SliceCopy::into_iter keeps the type");
    } else {
        let mut d: VecDyn<DropVTable> = v.into();
        check!(d.as_slice().as_slice::<P::B>().is_none(), "C01 VecDyn::as_slice keeps the type");
        check!(d.as_mut_slice().as_slice::<P::B>().is_none(), "C01 VecDyn::as_mut_slice keeps the type");
        check!(d.as_slice().as_slice::<P::A>().is_some(), "C01 VecDyn::as_slice accepts the type");
        let e: VecDyn<DropVTable> = VecDyn::with_type_from(d.as_slice());
        check!(e.len() == 0 && e.check_ref::<P::B>().is_none() && e.check_ref::<P::A>().is_some(), "C01 VecDyn::with_type_from keeps the type");
        let s = Slice::from(d.as_mut_slice());
        check!(s.as_slice::<P::B>().is_none() && s.as_slice::<P::A>().is_some(), "C01 Slice from SliceMut keeps the type");
        let x = s.iter().next();
        check!(x.is_some() == (n > 0) && !x.map_or(false, |x| x.downcast::<P::B>().is_some()), "C01 Slice::iter keeps the type");
        std::mem::forget(d);
        std::mem::forget(e);
    }
    reached!();
}
/// Values.
pub fn values<P: Pair>() {
    let mut a = P::A::any();
    let id = std::any::TypeId::of::<P::A>();
    let p: *const P::A = &a;
    {
        let r = CopyValueRef::<()>::new(&a);
        check!(r.is::<P::A>() && !r.is::<P::B>() && r.value_type_id() == id, "C01 CopyValueRef knows its type");
        check!(r.downcast::<P::B>().is_none(), "C01 CopyValueRef::downcast rejects another type");
        let r = ValueRef::<CloneDrop>::new(&a);
        check!(r.is::<P::A>() && !r.is::<P::B>() && r.value_type_id() == id, "C01 ValueRef knows its type");
        check!(r.reborrow().downcast::<P::B>().is_none(), "C01 ValueRef::downcast rejects another type");
        let c = r.clone_value();
        check!(c.is::<P::A>() && !c.is::<P::B>(), "C01 ValueRef::clone_value keeps the type");
        check!(c.downcast::<P::B>().is_none(), "C01 BoxValue::downcast rejects another type");
        check!(r.downcast::<P::A>().is_some(), "C01 ValueRef::downcast accepts the type");
    }
    {
        let r = CopyValueMut::<()>::new(&mut a);
        check!(r.is::<P::A>() && !r.is::<P::B>() && r.value_type_id() == id, "C01 CopyValueMut knows its type");
        let r = CopyValueRef::from(r);
        check!(r.is::<P::A>() && r.downcast::<P::B>().is_none(), "C01 CopyValueRef from CopyValueMut keeps the type");
        check!(CopyValueMut::<()>::new(&mut a).downcast::<P::B>().is_none(), "C01 CopyValueMut::downcast rejects another type");
        let mut r = ValueMut::<CloneDrop>::new(&mut a);
        check!(r.is::<P::A>() && !r.is::<P::B>() && r.value_type_id() == id, "C01 ValueMut knows its type");
        check!(r.reborrow().downcast::<P::B>().is_none(), "C01 ValueMut::reborrow keeps the type");
        check!(r.reborrow_mut().downcast::<P::B>().is_none(), "C01 ValueMut::downcast rejects another type");
        check!(std::ptr::eq(r.downcast::<P::A>().unwrap(), p), "C01 ValueMut::downcast accepts the type");
    }
    let mut b: BoxValue<CloneDrop> = BoxValue::new(a);
    check!(b.is::<P::A>() && !b.is::<P::B>() && b.value_type_id() == id, "C01 BoxValue knows its type");
    check!(b.as_ref().downcast::<P::B>().is_none(), "C01 BoxValue::as_ref keeps the type");
    check!(b.as_mut().downcast::<P::B>().is_none(), "C01 BoxValue::as_mut keeps the type");
    if any_bool() {
        check!(b.downcast::<P::B>().is_none(), "C01 BoxValue::downcast rejects another type");
    } else {
        check!(b.downcast::<P::A>().is_some(), "C01 BoxValue::downcast accepts the type");
    }
    if let Some(mut s) = SmallValue::<CloneDrop>::try_new(a) {
        check!(s.is::<P::A>() && !s.is::<P::B>() && s.value_type_id() == id, "C01 SmallValue knows its type");
        check!(s.as_ref().downcast::<P::B>().is_none(), "C01 SmallValue::as_ref keeps the type");
        check!(s.as_mut().downcast::<P::B>().is_none(), "C01 SmallValue::as_mut keeps the type");
        if any_bool() {
            check!(s.downcast::<P::B>().is_none(), "C01 SmallValue::downcast rejects another type");
        } else {
            check!(s.downcast::<P::A>().is_some(), "C01 SmallValue::downcast accepts the type");
        }
    }
    reached!();
}

cases! {
    veccopy_read [u32_i32: (u32, i32), u32_a4u8: (u32, [u8; 4]), a3u8_u8: ([u8; 3], u8), f64_u64: (f64, u64)] more [u64_u128: (u64, u128), pad_a2u32: (Pad, [u32; 2]), u8_i8: (u8, i8)] unwind 4 pure;
    veccopy_push [u32_f32: (u32, f32), a3u8_u8: ([u8; 3], u8)] more [u64_i64: (u64, i64), pad_a2u32: (Pad, [u32; 2]), u16_a2u8: (u16, [u8; 2])] unwind 4 pure;
    veccopy_push_ref [u32_f32: (u32, f32), u64_i64: (u64, i64)] more [pad_a2u32: (Pad, [u32; 2]), u16_a2u8: (u16, [u8; 2])] unwind 4 pure;
    veccopy_fill [u32_f32: (u32, f32), a3u8_u8: ([u8; 3], u8)] more [u64_i64: (u64, i64), pad_a2u32: (Pad, [u32; 2])] unwind 4 pure;
    veccopy_resize [u32_f32: (u32, f32), a3u8_u8: ([u8; 3], u8)] more [u64_i64: (u64, i64), pad_a2u32: (Pad, [u32; 2])] unwind 4 pure;
    veccopy_out [u32_f32: (u32, f32), a3u8_u8: ([u8; 3], u8)] more [u64_i64: (u64, i64), pad_a2u32: (Pad, [u32; 2])] unwind 4 pure;
    veccopy_append [u32_i32: (u32, i32), u8_u16: (u8, u16)] more [f64_u64: (f64, u64), a2u32_u64: ([u32; 2], u64)] unwind 4 pure;
    vecdyn_read [u32_i32: (u32, i32), u32_a4u8: (u32, [u8; 4]), a3u8_u8: ([u8; 3], u8), f64_u64: (f64, u64)] more [u64_u128: (u64, u128), u8_i8: (u8, i8)] unwind 4 pure;
    vecdyn_edit [u32_f32: (u32, f32), u64_i64: (u64, i64)] more [u8_u32: (u8, u32)] unwind 4 pure;
    vecdyn_consume [u32_f32: (u32, f32)] more [u64_i64: (u64, i64), u8_u32: (u8, u32)] unwind 4 flat;
    slicecopy [u32_i32: (u32, i32), a4u8_u32: ([u8; 4], u32), f64_u64: (f64, u64)] more [u64_u8: (u64, u8)] unwind 4 pure;
    slicecopymut [u32_i32: (u32, i32), a4u8_u32: ([u8; 4], u32), f64_u64: (f64, u64)] more [u64_u8: (u64, u8)] unwind 4 pure;
    slice [u32_i32: (u32, i32), a4u8_u32: ([u8; 4], u32), f64_u64: (f64, u64)] more [u64_u8: (u64, u8)] unwind 4 pure;
    slicemut [u32_i32: (u32, i32), a4u8_u32: ([u8; 4], u32), f64_u64: (f64, u64)] more [u64_u8: (u64, u8)] unwind 4 pure;
    derived [u32_i32: (u32, i32), u8_u32: (u8, u32)] more [u64_f64: (u64, f64), pad_a2u32: (Pad, [u32; 2])] unwind 4 pure;
    values [u32_i32: (u32, i32), u64_usize: (u64, usize), f64_u64: (f64, u64), u8_a2u8: (u8, [u8; 2])] more [pad_u64: (Pad, u64), a32_a32x2: (A32, A32x2)] unwind 4 flat;
}
