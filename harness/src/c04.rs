//! C04: every owned value is dropped exactly once: no leak, no double drop.
//!
//! Elements are tokens with an identity. Dropping a token that is not alive is reported where it
//! happens (`retire`); every contract ends with everything dropped and nothing left alive.
use crate::sym::*;
use crate::tok::*;
use dync::traits::DropVTable;
use dync::*;

type V = TkVTable;
/// Run the contract for each of the lengths 0 to 3, and one longer (`long`).
macro_rules! lengths {
    ($f:ident) => {{ match any_u8() { 0 => $f::<T>(0), 1 => $f::<T>(1), 2 => $f::<T>(2), _ => $f::<T>(3) }; reached!(); }};
    ($f:ident long $n:literal) => {{ match any_u8() { 0 => $f::<T>(0), 1 => $f::<T>(1), 2 => $f::<T>(2), 3 => $f::<T>($n), _ => $f::<T>(3) }; reached!(); }};
    ($f:ident, $P:ty) => {{ match any_u8() { 0 => $f::<$P>(0), 1 => $f::<$P>(1), _ => $f::<$P>(3) }; reached!(); }};
}
/// The tokens at `s` are, in order, those with identity `from..`, all alive.
fn are<T: Token>(s: &[T], from: usize) -> bool {
    if s.len() == 0 { return true; }
    let i = any_usize();
    assume(i < s.len());
    s[i].id() as usize == from + i && alive(s[i].id())
}
fn vec<T: Token>(n: usize) -> VecDyn<V> { VecDyn::<V>::from_vec(toks::<T>(n, n)) }
fn view<T: Token>(d: &VecDyn<V>) -> &[T] { d.as_slice_as::<T>().unwrap() }
pub trait Two { type A: Token; type B: Token; }
impl<A: Token, B: Token> Two for (A, B) { type A = A; type B = B; }

fn drop_vec_n<T: Token>(n: usize) {
    let d = vec::<T>(n);
    check!(alive_count() == n, "C04 VecDyn::from_vec drops nothing");
    drop(d);
    check!(created() == n, "C04 dropping a VecDyn creates nothing");
    all_retired!();
}
/// Dropping a vector.
/// Bounded: at most 3 elements, or 17.
pub fn drop_vec<T: Token>() { lengths!(drop_vec_n long 17) }
fn round_trip_n<T: Token>(n: usize) {
    let d = vec::<T>(n);
    let w: Vec<T> = if any_bool() { d.into_vec::<T>().unwrap() } else { Option::<Vec<T>>::from(d).unwrap() };
    check!(w.len() == n && are(&w, 0) && alive_count() == n && created() == n, "C04 VecDyn::into_vec hands over every element");
    drop(w);
    all_retired!();
}
/// Taking the vector back.
/// Bounded: at most 3 elements, or 17.
pub fn round_trip<T: Token>() { lengths!(round_trip_n long 17) }
fn wrong_n<P: Two>(n: usize) {
    let d = vec::<P::A>(n);
    match any_u8() {
        0 => check!(d.into_vec::<P::B>().is_none(), "C04 VecDyn::into_vec refuses another type"),
        1 => check!(Option::<Vec<P::B>>::from(d).is_none(), "C04 VecDyn::into_vec refuses another type"),
        _ => check!(d.check::<P::B>().is_none(), "C04 VecDyn::check refuses another type"),
    }
    all_retired!();
}
/// ... as another type.
/// Bounded: at most 3 elements.
pub fn wrong<P: Two>() { lengths!(wrong_n, P) }
fn convert_n<T: Token>(n: usize) {
    let d = vec::<T>(n);
    match any_u8() {
        0 => { let e: VecDyn<DropVTable> = d.upcast(); check!(e.len() == n && alive_count() == n, "C04 VecDyn::upcast keeps every element"); drop(e); }
        1 => { let (a, b) = d.into_raw_parts(); let e = unsafe { VecDyn::<V>::from_raw_parts(a, b) }; check!(e.len() == n && alive_count() == n, "C04 the parts of a VecDyn keep every element"); drop(e); }
        2 => { let e = d.check::<T>().unwrap(); check!(e.len() == n && alive_count() == n, "C04 VecDyn::check keeps every element"); drop(e); }
        3 => { let e = into_dyn![VecDyn<dyn HasTk>](d); check!(e.len() == n && alive_count() == n, "C04 into_dyn keeps every element"); drop(e); }
        _ => { let e = into_dyn![VecDyn<dyn HasTk>](d); let e = from_dyn![VecDyn<dyn HasTk as TkVTable>](e); check!(e.len() == n && alive_count() == n, "C04 from_dyn keeps every element"); drop(e); }
    }
    check!(created() == n, "C04 converting a VecDyn creates nothing");
    all_retired!();
}
/// Converting to other forms.
/// Bounded: at most 3 elements, or 17.
pub fn convert<T: Token>() { lengths!(convert_n long 17) }

fn clear_n<T: Token>(n: usize) {
    let mut d = vec::<T>(n);
    d.clear();
    check!(alive_count() == 0, "C04 VecDyn::clear drops every element");
    check!(d.push_as(T::new()).is_some() && alive_count() == 1, "C04 a cleared VecDyn can be pushed to");
    drop(d);
    all_retired!();
}
/// Clearing.
/// Bounded: at most 3 elements, or 17.
pub fn clear<T: Token>() { lengths!(clear_n long 17) }
fn resize_to<T: Token>(n: usize, m: usize) {
    let mut d = vec::<T>(n);
    check!(d.resize(m, T::new()).is_some(), "C04 VecDyn::resize accepts the type");
    check!(d.len() == m && alive_count() == m, "C04 VecDyn::resize drops exactly the removed elements and the value");
    check!(are(&view::<T>(&d)[..if m < n { m } else { n }], 0), "C04 VecDyn::resize keeps the front");
    drop(d);
    all_retired!();
}
/// Resizing.
/// Bounded: from 0 to 3 elements to 0 to 4 elements, from 17 to 1 and from 1 to 10.
pub fn resize<T: Token>() {
    match any_u8() {
        0 => resize_to::<T>(0, 0), 1 => resize_to::<T>(0, 2), 2 => resize_to::<T>(2, 0), 3 => resize_to::<T>(2, 2),
        4 => resize_to::<T>(2, 3), 5 => resize_to::<T>(3, 1), 6 => resize_to::<T>(3, 2), 7 => resize_to::<T>(17, 1), 8 => resize_to::<T>(1, 10), _ => resize_to::<T>(2, 4),
    }
    reached!();
}
fn fill_n<T: Token>(n: usize) {
    let mut d = vec::<T>(n);
    check!(d.fill(T::new()).is_some(), "C04 VecDyn::fill accepts the type");
    check!(alive_count() == n, "C04 VecDyn::fill drops the old elements and the value");
    drop(d);
    all_retired!();
}
/// Filling.
/// Bounded: at most 3 elements, or 10.
pub fn fill<T: Token>() { lengths!(fill_n long 10) }
fn refused_n<P: Two>(n: usize) {
    let mut d = vec::<P::A>(n);
    match any_u8() {
        0 => check!(d.resize(1, P::B::new()).is_none(), "C04 VecDyn::resize refuses another type"),
        1 => check!(d.fill(P::B::new()).is_none(), "C04 VecDyn::fill refuses another type"),
        2 => check!(d.push(BoxValue::<V>::new(P::B::new())).is_none(), "C04 VecDyn::push refuses another type"),
        3 => { let e = P::B::new();
               check!(d.push_cloned(ValueRef::new(&e)).is_none(), "C04 VecDyn::push_cloned refuses another type") }
        _ => { let mut e = vec::<P::B>(2);
               check!(d.append(&mut e).is_none(), "C04 VecDyn::append refuses another type");
               check!(e.len() == 2 && are(view::<P::B>(&e), n), "C04 a refused append leaves the other vector") }
    }
    check!(d.len() == n && are(view::<P::A>(&d), 0), "C04 a refused operation leaves the vector");
    check!(alive_count() == n, "C04 a refused operation drops the value and nothing else");
    drop(d);
    all_retired!();
}
/// Values of another type.
/// Bounded: at most 3 elements.
pub fn refused<P: Two>() { lengths!(refused_n, P) }
fn refused_as_n<P: Two>(n: usize) {
    let mut d = vec::<P::A>(n);
    check!(d.push_as(P::B::new()).is_none(), "C04 VecDyn::push_as refuses another type");
    check!(d.len() == n && are(view::<P::A>(&d), 0), "C04 a refused operation leaves the vector");
    check!(alive_count() == n, "C04 a refused operation drops the value and nothing else");
    drop(d);
    all_retired!();
}
/// ... of the same size, pushed.
/// Bounded: at most 3 elements.
pub fn refused_as<P: Two>() { lengths!(refused_as_n, P) }
fn push_n<T: Token>(n: usize) {
    let mut d = vec::<T>(n);
    match any_u8() {
        0 => check!(d.push_as(T::new()).is_some(), "C04 VecDyn::push_as accepts the type"),
        1 => check!(d.push(BoxValue::<V>::new(T::new())).is_some(), "C04 VecDyn::push accepts the type"),
        _ => check!(d.push(BoxValue::<DropVTable>::new(T::new())).is_some(), "C04 VecDyn::push accepts another table"),
    }
    check!(d.len() == n + 1 && created() == n + 1, "C04 pushing moves the value");
    check!(are(view::<T>(&d), 0) && alive_count() == n + 1, "C04 pushing drops nothing");
    drop(d);
    all_retired!();
}
/// Pushing.
/// Bounded: onto at most 3 elements.
pub fn push<T: Token>() { lengths!(push_n) }
fn push_cloned_n<T: Token>(n: usize) {
    let mut d = vec::<T>(n);
    let e = T::new();
    check!(d.push_cloned(ValueRef::new(&e)).is_some(), "C04 VecDyn::push_cloned accepts the type");
    check!(alive_count() == n + 2 && alive(e.id()) && are(&view::<T>(&d)[..n], 0), "C04 VecDyn::push_cloned drops nothing");
    drop(e);
    check!(alive_count() == n + 1, "C04 VecDyn::push_cloned leaves the source to its owner");
    drop(d);
    all_retired!();
}
/// Pushing a clone.
/// Bounded: onto at most 3 elements.
pub fn push_cloned<T: Token>() { lengths!(push_cloned_n) }
fn append_n<T: Token>(n: usize) {
    let (mut d, mut e) = (vec::<T>(n), vec::<T>(2));
    check!(d.append(&mut e).is_some(), "C04 VecDyn::append accepts the type");
    check!(d.len() == n + 2 && e.len() == 0, "C04 VecDyn::append moves every element");
    drop(e);
    check!(are(view::<T>(&d), 0) && alive_count() == n + 2, "C04 VecDyn::append drops nothing");
    drop(d);
    all_retired!();
}
/// Appending.
/// Bounded: 2 elements to at most 3, or to 9.
pub fn append<T: Token>() { lengths!(append_n long 9) }
/// Permuting.
/// Bounded: 3 elements.
pub fn permute<T: Token>() {
    let mut d = vec::<T>(3);
    match any_u8() {
        0 => d.rotate_left(1),
        1 => d.rotate_right(1),
        2 => d.as_mut_slice().rotate_left(2),
        3 => d.as_mut_slice().rotate_right(2),
        _ => d.as_mut_slice().swap(0, 2),
    }
    check!(d.len() == 3 && alive_count() == 3 && created() == 3, "C04 permuting drops nothing");
    drop(d);
    all_retired!();
    reached!();
}
/// Overwriting an element by assignment.
/// Bounded: 3 elements.
pub fn assign<T: Token>() {
    let mut d = vec::<T>(3);
    let i = match any_u8() { 0 => 0, 1 => 1, _ => 2 };
    if any_bool() {
        d.get_mut(i).assign(BoxValue::new(T::new()));
    } else {
        d.as_mut_slice().get_mut(i).assign(BoxValue::new(T::new()));
    }
    check!(!alive(i as u8) && alive_count() == 3, "C04 ValueMut::assign drops exactly the old value");
    check!(view::<T>(&d)[i].id() == 3, "C04 ValueMut::assign puts the new value in place");
    drop(d);
    all_retired!();
    reached!();
}
/// Bounded: 3 elements.
pub fn assign_small<T: Token>() {
    let mut d = vec::<T>(3);
    let i = match any_u8() { 0 => 0, 1 => 1, _ => 2 };
    d.get_mut(i).assign(SmallValue::new(T::new()));
    check!(!alive(i as u8) && alive_count() == 3, "C04 ValueMut::assign (small) drops exactly the old value");
    check!(view::<T>(&d)[i].id() == 3, "C04 ValueMut::assign (small) puts the new value in place");
    drop(d);
    all_retired!();
    reached!();
}
/// Bounded: 2 elements.
pub fn assign_wrong<P: Two>() {
    let mut d = vec::<P::A>(2);
    let i = match any_u8() { 0 => 0, _ => 1 };
    match any_u8() {
        0 => d.get_mut(i).assign(BoxValue::new(P::B::new())),
        1 => { let mut e = P::B::new(); d.get_mut(i).swap(&mut ValueMut::new(&mut e)); check!(alive(2), "C04 a refused swap drops nothing") }
        _ => { let e = P::B::new(); check!(d.get_mut(i).clone_from_other(ValueRef::new(&e)).is_err(), "C04 ValueMut::clone_from_other refuses another type") }
    }
    check!(are(view::<P::A>(&d), 0) && alive_count() == 2, "C04 a refused assignment drops the value and nothing else");
    drop(d);
    all_retired!();
    reached!();
}
/// Overwriting elements by swapping and by cloning.
/// Bounded: 2 elements.
pub fn overwrite<T: Token>() {
    let mut d = vec::<T>(2);
    let mut e = T::new();
    match any_u8() {
        0 => { d.get_mut(1).swap(&mut ValueMut::new(&mut e));
               check!(e.id() == 1 && view::<T>(&d)[1].id() == 2 && alive_count() == 3, "C04 ValueMut::swap drops nothing") }
        1 => { check!(d.get_mut(1).clone_from_other(ValueRef::new(&e)).is_ok(), "C04 ValueMut::clone_from_other accepts the type");
               check!(!alive(1) && view::<T>(&d)[1].id() == 3 && alive_count() == 3, "C04 ValueMut::clone_from_other drops exactly the old value") }
        2 => { let u = [T::new(), T::new()];
               check!(d.as_mut_slice().clone_from_slice(&u).is_some(), "C04 SliceMut::clone_from_slice accepts the type");
               check!(!alive(0) && !alive(1) && alive_count() == 5, "C04 SliceMut::clone_from_slice drops exactly the old values") }
        _ => { *d.get_mut_as::<T>(0).unwrap() = T::new();
               check!(!alive(0) && alive_count() == 3, "C04 writing to an element drops exactly the old value") }
    }
    drop(e);
    drop(d);
    all_retired!();
    reached!();
}
/// Cloning and making.
/// Bounded: 2 elements.
pub fn make<T: Token>() {
    match any_u8() {
        0 => { let d = vec::<T>(2); let c = d.clone(); drop(d); check!(alive_count() == 2, "C04 a VecDyn and its clone are separate"); drop(c); }
        1 => { let v = toks::<T>(2, 2); let d = VecDyn::<V>::from_slice(&v); drop(v); check!(alive_count() == 2, "C04 VecDyn::from_slice owns its clones"); drop(d); }
        2 => { let d = VecDyn::<V>::with_size(2, T::new()); check!(d.len() == 2 && alive_count() == 2, "C04 VecDyn::with_size owns its elements"); drop(d); }
        3 => { let d = VecDyn::<V>::with_size(0, T::new()); check!(d.len() == 0 && alive_count() == 0, "C04 VecDyn::with_size drops the value"); drop(d); }
        4 => { let d = VecDyn::<V>::with_type::<T>(); drop(d); }
        _ => { let d = VecDyn::<V>::with_capacity::<T>(3); drop(d); }
    }
    all_retired!();
    reached!();
}

/// Boxed values.
pub fn boxed<T: Token>() {
    let b = BoxValue::<V>::new(T::new());
    check!(alive_count() == 1, "C04 BoxValue::new drops nothing");
    match any_u8() {
        0 => drop(b),
        1 => { let t = b.downcast::<T>().unwrap(); check!(t.id() == 0 && alive_count() == 1, "C04 BoxValue::downcast hands over the value"); drop(t); }
        2 => { let c: BoxValue<DropVTable> = b.upcast(); check!(alive_count() == 1, "C04 BoxValue::upcast drops nothing"); drop(c); }
        3 => { let c = b.clone(); drop(b); check!(alive_count() == 1 && alive(1), "C04 a BoxValue and its clone are separate"); drop(c); }
        4 => { let mut b = b; let mut c = BoxValue::<V>::new(T::new()); b.as_mut().swap(&mut c.as_mut()); drop(b); check!(alive(0) && !alive(1), "C04 swapping BoxValues drops nothing"); drop(c); }
        _ => { let mut b = b; b.as_mut().assign(BoxValue::new(T::new())); check!(!alive(0) && alive(1), "C04 assigning to a BoxValue drops the old value"); drop(b); }
    }
    all_retired!();
    reached!();
}
/// ... asked for another type.
pub fn boxed_wrong<P: Two>() {
    let b = BoxValue::<V>::new(P::A::new());
    match any_u8() {
        0 => check!(b.downcast::<P::B>().is_none(), "C04 BoxValue::downcast refuses another type"),
        1 => { let mut b = b; b.as_mut().assign(BoxValue::new(P::B::new())); check!(alive(0) && !alive(1), "C04 assigning another type drops the value given"); drop(b); }
        _ => { check!(b.as_ref().downcast::<P::B>().is_none() && alive(0), "C04 a reference drops nothing"); drop(b); }
    }
    all_retired!();
    reached!();
}
/// Small values.
pub fn small<T: Token>() {
    let b = if any_bool() { SmallValue::<V>::new(T::new()) } else { SmallValue::<V>::try_new(T::new()).unwrap() };
    check!(alive_count() == 1, "C04 SmallValue::new drops nothing");
    match any_u8() {
        0 => drop(b),
        1 => { let t = b.downcast::<T>().unwrap(); check!(t.id() == 0 && alive_count() == 1, "C04 SmallValue::downcast hands over the value"); drop(t); }
        2 => { let c: SmallValue<DropVTable> = b.upcast(); check!(alive_count() == 1, "C04 SmallValue::upcast drops nothing"); drop(c); }
        3 => { let c = b.clone(); drop(b); check!(alive_count() == 1 && alive(1), "C04 a SmallValue and its clone are separate"); drop(c); }
        4 => { let mut b = b; let mut c = SmallValue::<V>::new(T::new()); b.as_mut().swap(&mut c.as_mut()); drop(b); check!(alive(0) && !alive(1), "C04 swapping SmallValues drops nothing"); drop(c); }
        _ => { let mut b = b; b.as_mut().assign(SmallValue::new(T::new())); check!(!alive(0) && alive(1), "C04 assigning to a SmallValue drops the old value"); drop(b); }
    }
    all_retired!();
    reached!();
}
pub fn small_wrong<P: Two>() {
    let b = SmallValue::<V>::new(P::A::new());
    match any_u8() {
        0 => check!(b.downcast::<P::B>().is_none(), "C04 SmallValue::downcast refuses another type"),
        _ => { let mut b = b; b.as_mut().assign(BoxValue::new(P::B::new())); check!(alive(0) && !alive(1), "C04 assigning another type drops the value given"); drop(b); }
    }
    all_retired!();
    reached!();
}
/// A value that does not fit.
pub fn small_unfit<T: Token>() {
    check!(SmallValue::<V>::try_new(T::new()).is_none(), "C04 SmallValue::try_new refuses a value that is not a word");
    all_retired!();
    reached!();
}
/// References and views never drop what they refer to.
pub fn views<T: Token>() {
    let mut v = toks::<T>(2, 2);
    match any_u8() {
        0 => { let r = ValueRef::<V>::new(&v[0]); let s = r.clone(); drop(r); drop(s.upcast::<DropVTable>()); }
        1 => { let mut r = ValueMut::<V>::new(&mut v[0]); drop(r.reborrow_mut()); drop(r.upcast_mut::<DropVTable>()); drop(r.upcast::<DropVTable>()); }
        2 => { let s = Slice::<V>::from_slice(&v); drop(s.get(1)); drop(s.subslice(0..1)); drop(s); }
        3 => { let mut s = SliceMut::<V>::from_slice(&mut v); drop(s.get_mut(1)); drop(s.subslice_mut(0..1)); drop(s); }
        4 => { let r = ValueMut::<V>::new(&mut v[0]); drop(ValueRef::from(r)); }
        _ => { let s = SliceMut::<V>::from_slice(&mut v); drop(s.upcast::<DropVTable>()); }
    }
    check!(are(&v, 0) && alive_count() == 2 && created() == 2, "C04 references and slices drop nothing");
    drop(v);
    all_retired!();
    reached!();
}

cases! {
    drop_vec [tb: TB, th: TH, tw: TW, ta: TA] more [ts: TS] unwind 33 flat;
    round_trip [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 26 flat;
    wrong [tb_th: (TB, TH), tw_tw2: (TH, TH2)] more [ta_tw: (TA, TW)] unwind 26 flat;
    convert [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 26 flat;
    clear [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 26 flat;
    resize [tb: TB, th: TH] more [tw: TW, ta: TA] unwind 26 flat;
    fill [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 26 flat;
    refused [tb_th: (TB, TH), th_th2: (TH, TH2)] more [ta_tw: (TA, TW)] unwind 26 flat;
    refused_as [th_th2: (TH, TH2)] more [th2_th: (TH2, TH)] unwind 26 flat;
    push [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 26 flat;
    push_cloned [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 27 flat;
    append [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 26 flat;
    permute [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 33 flat;
    assign [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 33 flat;
    assign_small [ts: TS] more [] unwind 26 flat;
    assign_wrong [tb_th: (TB, TH), th_th2: (TH, TH2)] more [ta_tw: (TA, TW)] unwind 26 flat;
    overwrite [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 33 flat;
    make [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 33 flat;
    boxed [tb: TB, tw: TW, ta: TA] more [th: TH] unwind 33 flat;
    boxed_wrong [tb_th: (TB, TH), th_th2: (TH, TH2)] more [ta_tw: (TA, TW)] unwind 26 flat;
    small [ts: TS] more [] unwind 26 flat;
    small_wrong [ts_th: (TS, TH)] more [ts_tb: (TS, TB)] unwind 26 flat;
    small_unfit [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 26 flat;
    views [tb: TB, tw: TW] more [th: TH, ta: TA] unwind 26 flat;
}
