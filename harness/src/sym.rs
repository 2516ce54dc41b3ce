//! Symbolic inputs, assumptions and checks.
//!
//! Under Kani every `any_*` is an unconstrained symbolic value. Natively (replay) the values are
//! taken, in order, from the counterexample Kani printed.

#[cfg(kani)]
mod imp {
    pub fn any_bytes_u8() -> u8 { kani::any() }
    pub fn any_bytes_u16() -> u16 { kani::any() }
    pub fn any_bytes_u32() -> u32 { kani::any() }
    pub fn any_bytes_u64() -> u64 { kani::any() }
    pub fn any_bytes_u128() -> u128 { kani::any() }
    pub fn any_bytes_usize() -> usize { kani::any() }
    #[inline(always)]
    pub fn assume(c: bool) { kani::assume(c) }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! { static Q: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new()); }
    pub fn load(q: Vec<Vec<u8>>) { Q.with(|x| *x.borrow_mut() = q.into()) }
    fn pop<const N: usize>() -> [u8; N] {
        let v = Q.with(|x| x.borrow_mut().pop_front());
        let mut out = [0u8; N];
        match v {
            // A value that the counterexample does not mention is unconstrained.
            None => {}
            Some(v) => {
                if v.len() != N {
                    eprintln!("REPLAY-DIVERGED: expected {} bytes, counterexample has {}", N, v.len());
                    std::process::exit(77);
                }
                out.copy_from_slice(&v);
            }
        }
        out
    }
    pub fn any_bytes_u8() -> u8 { u8::from_ne_bytes(pop()) }
    pub fn any_bytes_u16() -> u16 { u16::from_ne_bytes(pop()) }
    pub fn any_bytes_u32() -> u32 { u32::from_ne_bytes(pop()) }
    pub fn any_bytes_u64() -> u64 { u64::from_ne_bytes(pop()) }
    pub fn any_bytes_u128() -> u128 { u128::from_ne_bytes(pop()) }
    pub fn any_bytes_usize() -> usize { usize::from_ne_bytes(pop()) }
    pub fn assume(c: bool) {
        if !c {
            eprintln!("REPLAY-DIVERGED: assumption not satisfied");
            std::process::exit(77);
        }
    }
}
pub use imp::*;

pub fn any_u8() -> u8 { any_bytes_u8() }
pub fn any_u32() -> u32 { any_bytes_u32() }
pub fn any_u64() -> u64 { any_bytes_u64() }
pub fn any_usize() -> usize { any_bytes_usize() }
pub fn any_bool() -> bool { let b = any_u8(); assume(b < 2); b == 1 }
/// Any value strictly below `n`.
pub fn below(n: usize) -> usize { let i = any_usize(); assume(i < n); i }
/// Any index below `n`; zero if there is none.
pub fn idx(n: usize) -> usize { if n == 0 { 0 } else { below(n) } }
/// Any value up to and including `n`.
pub fn upto(n: usize) -> usize { let i = any_usize(); assume(i <= n); i }

/// An obligation: a postcondition that must hold.
#[macro_export]
macro_rules! check {
    ($c:expr, $($m:literal),+) => {{
        let c: bool = $c;
        #[cfg(kani)]
        { kani::assert(c, concat!("CHECK ", $($m),+)); }
        #[cfg(not(kani))]
        { if !c { panic!(concat!("CHECK ", $($m),+)); } }
    }};
}

/// Reachability of the end of a contract, guarding against vacuous proofs.
#[macro_export]
macro_rules! reached {
    () => {{
        #[cfg(kani)]
        { kani::cover!($crate::lay::all_small(), "REACHED end"); }
    }};
}

/// The expression must diverge (panic) and never produce a value.
#[macro_export]
macro_rules! must_panic {
    ($m:literal, $e:expr) => {{
        #[cfg(kani)]
        {
            kani::cover!($crate::lay::all_small(), "REACHED must_panic call");
            ::std::mem::forget($e);
            kani::assert(false, concat!("CHECK MUST: ", $m));
        }
        #[cfg(not(kani))]
        {
            let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| { ::std::mem::forget($e); }));
            if r.is_ok() { println!("REPRODUCED CHECK MUST: {}", $m); ::std::process::exit(101); }
            $crate::sym::panicked_as_required()
        }
    }};
}
#[cfg(not(kani))]
pub fn panicked_as_required() -> ! { println!("PANICKED-AS-REQUIRED"); std::process::exit(0) }
