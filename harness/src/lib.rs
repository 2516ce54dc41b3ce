//! Contracts on the public API of dync; see /verif/DESIGN.md.
#![allow(static_mut_refs, clippy::all)]
extern crate alloc;
#[macro_use]
pub mod sym;
#[macro_use]
pub mod macros;
pub mod lay;
pub mod ghost;
#[macro_use]
pub mod tok;

macro_rules! properties {
    ($($m:ident)*) => {
        $( pub mod $m; )*
        /// Every contract instance by name, for replaying counterexamples.
        #[cfg(not(kani))]
        pub fn tables() -> Vec<(&'static str, fn())> {
            let mut v = Vec::new();
            for m in [$( $m::TABLES ),*] { for c in m { for t in *c { v.extend_from_slice(t); } } }
            v
        }
    };
}
properties! { c01 c02 c03 c07 c10 c08 c13 c14 c05 c04 c09 c12 c11 c06 }
