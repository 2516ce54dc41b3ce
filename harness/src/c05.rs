//! C05: clones are deep, independent and made element by element exactly once, in order.
//!
//! Elements are tokens: every value has an identity, handed out in order of creation, and every
//! clone remembers what it was cloned from.
use crate::lay::*;
use crate::sym::*;
use crate::tok::*;
use dync::*;

fn keep<D>(d: D) -> std::mem::ManuallyDrop<D> { std::mem::ManuallyDrop::new(d) }
type V = TkVTable;

/// The tokens at `s` are, in order, the first clones of the tokens `of..`, made from identity `at`.
fn clones<T: Token>(s: &[T], of: usize, at: usize) -> bool {
    let i = any_usize();
    assume(i < s.len());
    let id = s[i].id();
    id as usize == at + i && origin(id) as usize == of + i && alive(id)
}
/// The tokens at `s` are, in order, those with identity `from..`, all alive.
fn are<T: Token>(s: &[T], from: usize) -> bool {
    let i = any_usize();
    assume(i < s.len());
    s[i].id() as usize == from + i && alive(s[i].id())
}
/// Run the contract for each of the lengths 0 to 3, and for 10.
macro_rules! lengths {
    ($f:ident) => {{ match any_u8() { 0 => $f::<T>(0), 1 => $f::<T>(1), 2 => $f::<T>(2), 3 => $f::<T>(10), _ => $f::<T>(3) }; reached!(); }};
}

fn vec_clone_n<T: Token>(n: usize) {
    let d = keep(VecDyn::<V>::from_vec(toks::<T>(n, n + 1)));
    let mut c = keep((*d).clone());
    check!(created() == 2 * n, "C05 VecDyn::clone clones every element exactly once");
    check!(c.len() == n && d.len() == n, "C05 VecDyn::clone keeps the length");
    let (s, t) = (d.as_slice_as::<T>().unwrap(), c.as_mut_slice_as::<T>().unwrap());
    if n > 0 {
        check!(are(s, 0), "C05 VecDyn::clone leaves the original as it was");
        check!(clones(t, 0, n), "C05 VecDyn::clone clones the elements in order");
        t[0] = T::new();
        check!(are(s, 0), "C05 writing to a clone leaves the original VecDyn as it was");
        check!(!alive(n as u8), "C05 overwriting an element of the clone drops the clone's element");
    }
}
/// Cloning a vector.
/// Bounded: at most 3 elements, or 10.
pub fn vec_clone<T: Token>() { lengths!(vec_clone_n) }

fn vec_clone_drop_n<T: Token>(n: usize) {
    let d = keep(VecDyn::<V>::from_vec(toks::<T>(n, n)));
    if any_bool() {
        drop((*d).clone());
        if n > 0 { check!(are(d.as_slice_as::<T>().unwrap(), 0), "C05 dropping a clone leaves the original VecDyn as it was"); }
    } else {
        let c = keep((*d).clone());
        drop(std::mem::ManuallyDrop::into_inner(d));
        if n > 0 { check!(clones(c.as_slice_as::<T>().unwrap(), 0, n), "C05 dropping the original leaves the clone of a VecDyn as it was"); }
    }
    check!(alive_count() == n, "C05 a VecDyn and its clone are dropped independently");
}
/// Dropping a clone, or the original.
/// Bounded: at most 3 elements, or 10.
pub fn vec_clone_drop<T: Token>() { lengths!(vec_clone_drop_n) }

fn from_slice_n<T: Token>(n: usize) {
    let v = keep(toks::<T>(n, n));
    let d = keep(if any_bool() { VecDyn::<V>::from_slice(&v) } else { VecDyn::<V>::from(&v[..]) });
    check!(created() == 2 * n, "C05 VecDyn::from_slice clones every element exactly once");
    check!(d.len() == n, "C05 VecDyn::from_slice gives the length");
    if n > 0 {
        check!(are(&v, 0), "C05 VecDyn::from_slice leaves the source as it was");
        check!(clones(d.as_slice_as::<T>().unwrap(), 0, n), "C05 VecDyn::from_slice clones the elements in order");
    }
}
/// Building a vector from a slice.
/// Bounded: at most 3 elements, or 10.
pub fn from_slice<T: Token>() { lengths!(from_slice_n) }

/// Every element of `s` is the value 0 of the contract or a clone of it, alive, and `i` and `k` differ.
fn copies_of<T: Token>(s: &[T], of: u8) -> bool {
    let (i, k) = (any_usize(), any_usize());
    assume(i < s.len() && k < s.len());
    origin(s[i].id()) == of && alive(s[i].id()) && (i == k || s[i].id() != s[k].id())
}
fn with_size_n<T: Token>(n: usize) {
    let e = T::new();
    let d = keep(VecDyn::<V>::with_size(n, e));
    check!(d.len() == n, "C05 VecDyn::with_size gives the length");
    check!(alive_count() == n, "C05 VecDyn::with_size makes as many values as elements");
    if n > 0 { check!(copies_of(d.as_slice_as::<T>().unwrap(), 0), "C05 VecDyn::with_size fills in distinct clones"); }
}
/// Building a vector of clones of one value.
/// Bounded: at most 3 elements, or 10.
pub fn with_size<T: Token>() { lengths!(with_size_n) }

fn grow_n<T: Token>(n: usize) {
    let mut d = keep(VecDyn::<V>::from_vec(toks::<T>(n, n)));
    let e = T::new();
    let m = n + 2;
    check!(d.resize(m, e).is_some(), "C05 VecDyn::resize accepts the type");
    let s = d.as_slice_as::<T>().unwrap();
    check!(s.len() == m, "C05 VecDyn::resize gives the length");
    if n > 0 { check!(are(&s[..n], 0), "C05 VecDyn::resize leaves the front"); }
    check!(copies_of(&s[n..], n as u8), "C05 VecDyn::resize fills in distinct clones");
    check!(alive_count() == m, "C05 VecDyn::resize makes as many values as elements");
}
/// Growing.
/// Bounded: by 2, from at most 3 elements, or 10.
pub fn grow<T: Token>() { lengths!(grow_n) }

fn fill_n<T: Token>(n: usize) {
    let mut d = keep(VecDyn::<V>::from_vec(toks::<T>(n, n)));
    let e = T::new();
    check!(d.fill(e).is_some(), "C05 VecDyn::fill accepts the type");
    let s = d.as_slice_as::<T>().unwrap();
    check!(s.len() == n, "C05 VecDyn::fill keeps the length");
    if n > 0 { check!(copies_of(s, n as u8), "C05 VecDyn::fill writes distinct clones"); }
    check!(alive_count() == n, "C05 VecDyn::fill makes as many values as elements");
}
/// Filling.
/// Bounded: at most 3 elements, or 10.
pub fn fill<T: Token>() { lengths!(fill_n) }

fn push_cloned_n<T: Token>(n: usize) {
    let mut d = keep(VecDyn::<V>::from_vec(toks::<T>(n, n)));
    let e = keep(T::new());
    check!(d.push_cloned(ValueRef::new(&*e)).is_some(), "C05 VecDyn::push_cloned accepts the type");
    check!(created() == n + 2, "C05 VecDyn::push_cloned clones exactly once");
    let s = d.as_slice_as::<T>().unwrap();
    check!(s.len() == n + 1, "C05 VecDyn::push_cloned adds one element");
    if n > 0 { check!(are(&s[..n], 0), "C05 VecDyn::push_cloned leaves the others"); }
    check!(s[n].id() as usize == n + 1 && origin(s[n].id()) as usize == n && alive(s[n].id()), "C05 VecDyn::push_cloned adds the clone");
    check!(alive(e.id()), "C05 VecDyn::push_cloned leaves the source");
}
/// Pushing a clone.
/// Bounded: onto at most 3 elements, or 10.
pub fn push_cloned<T: Token>() { lengths!(push_cloned_n) }

fn to_vec_n<T: Token>(n: usize) {
    let mut v = keep(toks::<T>(n, n));
    let mut out = keep(Vec::<T>::new());
    let c = match any_u8() {
        0 => { let d = keep(VecDyn::<V>::from_vec(std::mem::ManuallyDrop::into_inner(v)));
               let c = keep(d.clone_into_vec::<T>().unwrap());
               check!(n == 0 || are(d.as_slice_as::<T>().unwrap(), 0), "C05 VecDyn::clone_into_vec leaves the vector as it was"); c }
        1 => { let d = keep(VecDyn::<V>::from_vec(std::mem::ManuallyDrop::into_inner(v)));
               check!(d.append_cloned_to_vec::<T>(&mut out).is_some(), "C05 VecDyn::append_cloned_to_vec accepts the type");
               check!(n == 0 || are(d.as_slice_as::<T>().unwrap(), 0), "C05 VecDyn::append_cloned_to_vec leaves the vector as it was"); out }
        2 => keep(Slice::<V>::from_slice(&v).clone_into_vec::<T>().unwrap()),
        3 => { check!(Slice::<V>::from_slice(&v).append_clone_to_vec::<T>(&mut out).is_some(), "C05 Slice::append_clone_to_vec accepts the type"); out }
        4 => keep(SliceMut::<V>::from_slice(&mut v).clone_into_vec::<T>().unwrap()),
        _ => { check!(SliceMut::<V>::from_slice(&mut v).append_clone_to_vec::<T>(&mut out).is_some(), "C05 SliceMut::append_clone_to_vec accepts the type"); out }
    };
    check!(c.len() == n, "C05 cloning into a Vec gives the length");
    check!(created() == 2 * n && alive_count() == 2 * n, "C05 cloning into a Vec clones every element exactly once");
    if n > 0 { check!(clones(&c, 0, n), "C05 cloning into a Vec clones the elements in order"); }
}
/// Cloning out into a typed vector.
/// Bounded: at most 3 elements, or 10.
pub fn to_vec<T: Token>() { lengths!(to_vec_n) }
fn append_to_n<T: Token>(n: usize) {
    let d = keep(VecDyn::<V>::from_vec(toks::<T>(n, n)));
    let mut out = keep(toks::<T>(2, 2));
    if any_bool() {
        check!(d.append_cloned_to_vec::<T>(&mut out).is_some(), "C05 VecDyn::append_cloned_to_vec accepts the type");
    } else {
        check!(d.as_slice().append_clone_to_vec::<T>(&mut out).is_some(), "C05 Slice::append_clone_to_vec accepts the type");
    }
    check!(out.len() == n + 2, "C05 appending clones to a Vec adds every element");
    check!(created() == 2 * n + 2 && alive_count() == 2 * n + 2, "C05 appending clones to a Vec clones every element exactly once");
    check!(are(&out[..2], n), "C05 appending clones to a Vec leaves its elements");
    if n > 0 { check!(clones(&out[2..], 0, n + 2), "C05 appending clones to a Vec keeps the order"); }
}
/// ... that has elements already.
/// Bounded: at most 3 elements, or 10.
pub fn append_to<T: Token>() { lengths!(append_to_n) }

fn onto_n<T: Token>(n: usize) {
    let mut v = keep(toks::<T>(n, n));
    let u = keep(toks::<T>(n, n));
    check!(SliceMut::<V>::from_slice(&mut v).clone_from_slice::<T>(&u).is_some(), "C05 SliceMut::clone_from_slice accepts the type");
    check!(created() == 3 * n && alive_count() == 2 * n, "C05 SliceMut::clone_from_slice clones every element exactly once and drops the old");
    if n > 0 {
        check!(are(&u, n), "C05 SliceMut::clone_from_slice leaves the source as it was");
        check!(clones(&v, n, 2 * n), "C05 SliceMut::clone_from_slice clones the elements in order");
    }
}
/// Cloning a slice over another.
/// Bounded: at most 3 elements, or 10.
pub fn onto<T: Token>() { lengths!(onto_n) }

/// A token in a box.
pub fn value_clone<T: Token>() {
    let mut t = keep(T::new());
    let b = keep(match any_u8() {
        0 => { let a = keep(BoxValue::<V>::new(std::mem::ManuallyDrop::into_inner(t))); (*a).clone() }
        1 => { let a = keep(BoxValue::<V>::new(std::mem::ManuallyDrop::into_inner(t))); a.as_ref().clone_value() }
        2 => { let mut a = keep(BoxValue::<V>::new(std::mem::ManuallyDrop::into_inner(t))); a.as_mut().clone_value() }
        3 => ValueRef::<V>::new(&*t).clone_value(),
        _ => ValueMut::<V>::new(&mut *t).clone_value(),
    });
    check!(created() == 2 && alive_count() == 2, "C05 cloning a value clones exactly once and drops nothing");
    let c = keep(b.as_ref().downcast::<T>().unwrap());
    check!(c.id() == 1 && origin(1) == 0, "C05 cloning a value gives the clone");
    reached!();
}
/// A word-sized token in a small value.
pub fn small_clone<T: Token>() {
    let mut t = keep(T::new());
    let b = keep(match any_u8() {
        0 => { let a = keep(SmallValue::<V>::new(std::mem::ManuallyDrop::into_inner(t))); (*a).clone() }
        1 => { let a = keep(BoxValue::<V>::new(std::mem::ManuallyDrop::into_inner(t))); a.as_ref().clone_small_value() }
        2 => { let mut a = keep(SmallValue::<V>::new(std::mem::ManuallyDrop::into_inner(t))); a.as_mut().clone_small_value() }
        3 => ValueRef::<V>::new(&*t).clone_small_value(),
        _ => ValueMut::<V>::new(&mut *t).clone_small_value(),
    });
    check!(created() == 2 && alive_count() == 2, "C05 cloning a small value clones exactly once and drops nothing");
    check!(b.as_ref().downcast::<T>().unwrap().id() == 1 && origin(1) == 0, "C05 cloning a small value gives the clone");
    reached!();
}
/// Independence of a cloned value.
pub fn value_drop<T: Token>() {
    let a = keep(BoxValue::<V>::new(T::new()));
    let b = keep((*a).clone());
    let (x, gone, left) = if any_bool() { drop(std::mem::ManuallyDrop::into_inner(a)); (b, 0, 1) } else { drop(std::mem::ManuallyDrop::into_inner(b)); (a, 1, 0) };
    check!(!alive(gone) && alive(left) && x.as_ref().downcast::<T>().unwrap().id() == left, "C05 a value and its clone are dropped independently");
    reached!();
}
pub fn small_drop<T: Token>() {
    let a = keep(SmallValue::<V>::new(T::new()));
    let b = keep((*a).clone());
    let (x, gone, left) = if any_bool() { drop(std::mem::ManuallyDrop::into_inner(a)); (b, 0, 1) } else { drop(std::mem::ManuallyDrop::into_inner(b)); (a, 1, 0) };
    check!(!alive(gone) && alive(left) && x.as_ref().downcast::<T>().unwrap().id() == left, "C05 a small value and its clone are dropped independently");
    reached!();
}
/// Cloning one value over another.
pub fn clone_from<T: Token>() {
    let mut v = keep(toks::<T>(3, 3));
    let e = keep(T::new());
    let i = match any_u8() { 0 => 0, 1 => 1, _ => 2 };
    let ok = match any_u8() {
        0 => { let mut d = keep(VecDyn::<V>::from_vec(std::mem::ManuallyDrop::into_inner(v)));
               let ok = d.get_mut(i).clone_from_other(ValueRef::new(&*e)).is_ok();
               v = keep(std::mem::ManuallyDrop::into_inner(d).into_vec::<T>().unwrap()); ok }
        1 => { let b = keep(BoxValue::<V>::new(T::clone(&e)));
               retire(4); // this clone only stands for the source
               let ok = SliceMut::<V>::from_slice(&mut v).get_mut(i).clone_from_other(b.as_ref()).is_ok();
               check!(ok && v[i].id() == 5 && origin(5) == 4, "C05 ValueMut::clone_from_other clones the source");
               reached!();
               return; }
        _ => ValueMut::<V>::new(&mut v[i]).clone_from_other(ValueRef::new(&*e)).is_ok(),
    };
    check!(ok, "C05 ValueMut::clone_from_other accepts the type");
    check!(created() == 5 && alive_count() == 4 && !alive(i as u8), "C05 ValueMut::clone_from_other clones exactly once and drops the old value");
    check!(v[i].id() == 4 && origin(4) == 3 && alive(3), "C05 ValueMut::clone_from_other puts the clone in place");
    let k = below(3);
    check!(k == i || v[k].id() as usize == k && alive(k as u8), "C05 ValueMut::clone_from_other leaves the others");
    reached!();
}
/// Another type: nothing is cloned.
pub fn wrong<P: Two>() {
    let mut v = keep(toks::<P::A>(2, 2));
    let mut out = keep(Vec::<P::B>::new());
    match any_u8() {
        0 => { let d = keep(VecDyn::<V>::from_vec(std::mem::ManuallyDrop::into_inner(v)));
               check!(d.clone_into_vec::<P::B>().is_none(), "C05 VecDyn::clone_into_vec refuses another type") }
        1 => { let d = keep(VecDyn::<V>::from_vec(std::mem::ManuallyDrop::into_inner(v)));
               check!(d.append_cloned_to_vec::<P::B>(&mut out).is_none(), "C05 VecDyn::append_cloned_to_vec refuses another type") }
        2 => check!(Slice::<V>::from_slice(&v).append_clone_to_vec::<P::B>(&mut out).is_none(), "C05 Slice::append_clone_to_vec refuses another type"),
        3 => check!(SliceMut::<V>::from_slice(&mut v).append_clone_to_vec::<P::B>(&mut out).is_none(), "C05 SliceMut::append_clone_to_vec refuses another type"),
        4 => { let mut d = keep(VecDyn::<V>::from_vec(std::mem::ManuallyDrop::into_inner(v)));
               let e = keep(P::B::new()); retire(2);
               check!(d.push_cloned(ValueRef::new(&*e)).is_none(), "C05 VecDyn::push_cloned refuses another type");
               check!(created() == 3, "C05 nothing is cloned for another type");
               reached!();
               return; }
        _ => { let e = keep(P::B::new()); retire(2);
               check!(ValueMut::<V>::new(&mut v[1]).clone_from_other(ValueRef::new(&*e)).is_err(), "C05 ValueMut::clone_from_other refuses another type");
               check!(created() == 3 && alive_count() == 2, "C05 nothing is cloned for another type");
               reached!();
               return; }
    }
    check!(created() == 2 && alive_count() == 2 && out.len() == 0, "C05 nothing is cloned for another type");
    reached!();
}
pub trait Two { type A: Token; type B: Token; }
impl<A: Token, B: Token> Two for (A, B) { type A = A; type B = B; }

/// Copies of copyable data: separate storage, same contents.
pub fn copy_vec<T: Lay>() {
    let v = any_vec::<T>();
    let n = v.len();
    let (i, j) = (idx(n), below(T::LANES));
    let x = if n > 0 { v[i].lane(j) } else { 0 };
    let mut d = keep(VecCopy::<()>::from_vec(v));
    let mut c = keep((*d).clone());
    check!(c.len() == n && d.len() == n, "C05 VecCopy::clone keeps the length");
    let (p, q) = (d.as_slice_as::<T>().unwrap().as_ptr() as usize, c.as_slice_as::<T>().unwrap().as_ptr() as usize);
    check!(p + n * std::mem::size_of::<T>() <= q || q + n * std::mem::size_of::<T>() <= p, "C05 a VecCopy and its clone share no memory");
    check!(n == 0 || c.as_slice_as::<T>().unwrap()[i].lane(j) == x, "C05 VecCopy::clone has the same contents");
    let e = T::any();
    if n == 0 {
    } else if any_bool() {
        c.as_mut_slice_as::<T>().unwrap()[i] = e;
        check!(d.as_slice_as::<T>().unwrap()[i].lane(j) == x, "C05 writing to a clone leaves the original VecCopy as it was");
    } else {
        d.as_mut_slice_as::<T>().unwrap()[i] = e;
        check!(c.as_slice_as::<T>().unwrap()[i].lane(j) == x, "C05 writing to the original leaves the clone of a VecCopy as it was");
    }
    reached!();
}
/// Copying out.
pub fn copy_out<T: Lay>() {
    let mut v = any_vec::<T>();
    let n = v.len();
    let (i, j) = (idx(n), below(T::LANES));
    let x = if n > 0 { v[i].lane(j) } else { 0 };
    let mut out = keep(Vec::<T>::new());
    let p = v.as_ptr();
    match any_u8() {
        0 => { let d = keep(VecCopy::<()>::from_vec(v)); out = keep(d.copy_into_vec::<T>().unwrap()) }
        1 => { let d = keep(VecCopy::<()>::from_vec(v)); check!(d.append_copy_to_vec::<T>(&mut out).is_some(), "C05 VecCopy::append_copy_to_vec accepts the type") }
        2 => out = keep(SliceCopy::<()>::from_slice(&v).copy_into_vec::<T>().unwrap()),
        _ => check!(SliceCopyMut::<()>::from_slice(&mut v).append_copy_to_vec::<T>(&mut out).is_some(), "C05 SliceCopyMut::append_copy_to_vec accepts the type"),
    }
    check!(out.len() == n && (n == 0 || out.as_ptr() != p), "C05 copying out gives a separate vector of the same length");
    check!(n == 0 || out[i].lane(j) == x, "C05 copying out gives the same contents");
    reached!();
}

cases! {
    vec_clone [tb: TB, tw: TW, th: TH] more [ta: TA, ts: TS] unwind 40 flat;
    vec_clone_drop [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 40 flat;
    from_slice [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 26 flat;
    with_size [th: TH, tw: TW] more [tb: TB, ta: TA] unwind 26 flat;
    grow [th: TH, tw: TW] more [tb: TB, ta: TA] unwind 26 flat;
    fill [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 26 flat;
    push_cloned [tb: TB, tw: TW, th: TH] more [ta: TA, ts: TS] unwind 40 flat;
    to_vec [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 26 flat;
    append_to [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 26 flat;
    onto [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 26 flat;
    value_clone [tb: TB, tw: TW, ta: TA] more [th: TH, ts: TS] unwind 40 flat;
    small_clone [ts: TS] more [] unwind 26 flat;
    value_drop [tb: TB, tw: TW, ta: TA] more [th: TH, ts: TS] unwind 40 flat;
    small_drop [ts: TS] more [] unwind 26 flat;
    clone_from [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 26 flat;
    wrong [tb_th: (TB, TH)] more [tw_ts: (TW, TS), ta_tw: (TA, TW)] unwind 26 flat;
    copy_vec [u8_: u8, u32_: u32] more [a2u16: [u16; 2], pad: Pad] unwind 2 pure;
    copy_out [u8_: u8, u32_: u32] more [a2u16: [u16; 2], pad: Pad] unwind 2 pure;
}
