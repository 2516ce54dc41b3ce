//! Elements with identity: every value is created once and must be dropped exactly once; clones are
//! new values that remember what they were cloned from.
use crate::sym::*;
use dync::dync_trait;

pub const IDS: usize = 48;
// The initial value of a mutable static must be unlike every constant of the program: Kani gives
// one object to a static and a constant of equal bytes (writing one then changes the other).
struct Ids { _unlike: u64, /* 1 while the value is alive */ live: [u8; IDS], origin: [u8; IDS], next: usize, count: usize }
static mut G: Ids = Ids { _unlike: 0x746f_6b65_6e73_d1ce, live: [0; IDS], origin: [0; IDS], next: 0, count: 0 };

pub fn fresh() -> u8 {
    unsafe {
        let id = G.next;
        assert!(id < IDS, "GHOST out of identities");
        G.next += 1;
        G.count += 1;
        G.live[id] = 1;
        G.origin[id] = id as u8;
        id as u8
    }
}
pub fn fresh_clone(of: u8) -> u8 {
    let id = fresh();
    unsafe { G.origin[id as usize] = of; }
    id
}
pub fn retire(id: u8) {
    unsafe {
        check!((id as usize) < G.next, "C04 only values that exist are dropped");
        check!(G.live[id as usize] == 1, "C04 no value is dropped twice");
        G.live[id as usize] = 0;
        G.count -= 1;
    }
}
pub fn alive(id: u8) -> bool { unsafe { G.live[id as usize] == 1 } }
pub fn origin(id: u8) -> u8 { unsafe { G.origin[id as usize] } }
/// How many values were ever created.
pub fn created() -> usize { unsafe { G.next } }
/// How many values are alive now.
pub fn alive_count() -> usize { unsafe { G.count } }

/// A token type: an identity stored in some layout.
pub trait Token: Clone + PartialEq + 'static {
    fn new() -> Self;
    fn id(&self) -> u8;
}
macro_rules! token {
    ($(#[$m:meta])* $n:ident { $($f:ident : $t:ty = $v:expr),* }) => {
        $(#[$m])*
        pub struct $n { $($f: $t,)* id: u8 }
        impl $n { fn with(id: u8) -> Self { $n { $($f: $v,)* id } } }
        impl Token for $n {
            fn new() -> Self { Self::with(fresh()) }
            fn id(&self) -> u8 { $( check!(self.$f == $v, "C04 a token is moved as a whole"); )* self.id }
        }
        impl Clone for $n { fn clone(&self) -> Self { Self::with(fresh_clone(self.id())) } }
        impl Drop for $n { fn drop(&mut self) { retire(self.id()) } }
        impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { origin(self.id) == origin(o.id) } }
    };
}
// One byte; several words; padded, more than one alignment chunk; over-aligned.
token!(#[repr(C)] TB {});
token!(#[repr(C)] TW { a: u64 = 0x0123_4567_89ab_cdef, b: u64 = 0xfedc_ba98_7654_3210 });
token!(#[repr(C)] TH { a: u16 = 0x5aa5 });
token!(#[repr(C, align(32))] TA { a: u64 = 77 });
// Another type with the layout of `TH`.
token!(#[repr(C)] TH2 { a: u16 = 0x1234 });
/// Exactly one machine word, for `SmallValue`.
#[repr(C)]
pub struct TS { id: u8, w: u32 }
impl TS { fn with(id: u8) -> Self { TS { id, w: 0x600d_600d } } }
impl Token for TS {
    fn new() -> Self { Self::with(fresh()) }
    fn id(&self) -> u8 { check!(self.w == 0x600d_600d, "C04 a token is moved as a whole"); self.id }
}
impl Clone for TS { fn clone(&self) -> Self { Self::with(fresh_clone(self.id())) } }
impl Drop for TS { fn drop(&mut self) { retire(self.id()) } }
impl PartialEq for TS { fn eq(&self, o: &Self) -> bool { origin(self.id) == origin(o.id) } }

/// The vtable used with tokens.
#[dync_trait]
pub trait Tk: Clone + PartialEq {}
impl<T: Clone + PartialEq> Tk for T {}

/// Clone and drop only: what plain data needs in an owning container.
#[dync_trait]
pub trait CloneDropT: Clone {}
impl<T: Clone> CloneDropT for T {}
pub type CloneDrop = CloneDropTVTable;

/// `n` tokens and the identity at every index (identities are handed out in order).
pub fn toks<T: Token>(n: usize, cap: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(cap);
    let mut i = 0;
    while i < n { v.push(T::new()); i += 1; }
    v
}
/// An arbitrary number of tokens up to `max`.
pub fn any_toks<T: Token>(max: usize) -> Vec<T> {
    let n = upto(max);
    toks(n, max)
}
/// Every value created so far was dropped (exactly once: `retire` checks that).
#[macro_export]
macro_rules! all_retired {
    () => { check!($crate::tok::alive_count() == 0, "C04 every value is dropped: nothing leaks"); };
}
