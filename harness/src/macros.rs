/// Instantiate contracts: every entry becomes a proof harness `module::contract::case` and an entry
/// of the replay table. The cases after `more` are only built for the thorough tier.
#[macro_export]
macro_rules! cases {
    ($( $h:ident [ $( $c:ident : $t:ty ),* $(,)? ] more [ $( $mc:ident : $mt:ty ),* $(,)? ] unwind $u:literal $k:ident ; )*) => {
        $( pub mod $h {
            #[allow(unused_imports)] use super::*;
            #[allow(unused_imports)] use crate::alloc;
            $( $crate::one_case!($c, super::$h::<$t>(), $u, $k); )*
            #[cfg(feature = "thorough")]
            mod more_ {
                #[allow(unused_imports)] use super::*;
                #[allow(unused_imports)] use crate::alloc;
                $( $crate::one_case!($mc, super::super::$h::<$mt>(), $u, $k); )*
                pub const TABLE: &[(&str, fn())] = &[ $( (concat!(module_path!(), "::", stringify!($mc)), $mc as fn()) ),* ];
            }
            #[cfg(not(feature = "thorough"))]
            mod more_ { pub const TABLE: &[(&str, fn())] = &[]; }
            pub const TABLE: &[&[(&str, fn())]] = &[
                &[ $( (concat!(module_path!(), "::", stringify!($c)), $c as fn()) ),* ],
                more_::TABLE,
            ];
        } )*
        pub const TABLES: &[&[&[(&str, fn())]]] = &[ $( $h::TABLE ),* ];
    };
}
#[macro_export]
macro_rules! one_case {
    ($c:ident, $e:expr, $u:literal, pure) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(all(kani, not(feature = "wide")), kani::unwind($u))]
        #[cfg_attr(all(kani, feature = "wide"), kani::unwind(34))]
        #[cfg_attr(kani, kani::stub(std::intrinsics::type_id_eq, crate::ghost::type_id_eq))]
        pub fn $c() { $crate::rows!($e) }
    };
    // Contracts that choose their lengths themselves.
    ($c:ident, $e:expr, $u:literal, flat) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(all(kani, not(feature = "wide")), kani::unwind($u))]
        #[cfg_attr(all(kani, feature = "wide"), kani::unwind(34))]
        #[cfg_attr(kani, kani::stub(std::intrinsics::type_id_eq, crate::ghost::type_id_eq))]
        pub fn $c() { $e }
    };
    // `slice::rotate_left/right` by the contract of the function both are made of, exact at the watched
    // byte; everything else becomes arbitrary.
    ($c:ident, $e:expr, $u:literal, rotate) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(all(kani, not(feature = "wide")), kani::unwind($u))]
        #[cfg_attr(all(kani, feature = "wide"), kani::unwind(34))]
        #[cfg_attr(kani, kani::stub(std::intrinsics::type_id_eq, crate::ghost::type_id_eq))]
        #[cfg_attr(all(kani, not(feature = "bounded")), kani::stub(core::slice::rotate::ptr_rotate, crate::ghost::ptr_rotate))]
        pub fn $c() { $crate::rows!($e) }
    };
    // Exchanging two ranges of memory by its contract.
    ($c:ident, $e:expr, $u:literal, swap) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(all(kani, not(feature = "wide")), kani::unwind($u))]
        #[cfg_attr(all(kani, feature = "wide"), kani::unwind(34))]
        #[cfg_attr(kani, kani::stub(std::intrinsics::type_id_eq, crate::ghost::type_id_eq))]
        #[cfg_attr(all(kani, not(feature = "bounded")), kani::stub(std::ptr::swap_nonoverlapping, crate::ghost::swap_ranges))]
        pub fn $c() { $crate::rows!($e) }
    };
    // Growing is replaced by an over-approximation: a new block with arbitrary contents.
    ($c:ident, $e:expr, $u:literal, havoc) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(all(kani, not(feature = "wide")), kani::unwind($u))]
        #[cfg_attr(all(kani, feature = "wide"), kani::unwind(34))]
        #[cfg_attr(kani, kani::stub(std::intrinsics::type_id_eq, crate::ghost::type_id_eq))]
        #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, crate::ghost::havoc_realloc))]
        pub fn $c() { $crate::rows!($e) }
    };
    // Contracts that observe the allocator.
    ($c:ident, $e:expr, $u:literal, heap) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(all(kani, not(feature = "wide")), kani::unwind($u))]
        #[cfg_attr(all(kani, feature = "wide"), kani::unwind(34))]
        #[cfg_attr(kani, kani::stub(std::intrinsics::type_id_eq, crate::ghost::type_id_eq))]
        #[cfg_attr(kani, kani::stub(std::alloc::alloc, crate::ghost::g_alloc))]
        #[cfg_attr(kani, kani::stub(std::alloc::alloc_zeroed, crate::ghost::g_alloc_zeroed))]
        #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, crate::ghost::g_dealloc))]
        #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, crate::ghost::g_realloc))]
        pub fn $c() { $crate::rows!($e) }
    };
    // The same, where the contents of grown blocks do not matter (they become arbitrary).
    ($c:ident, $e:expr, $u:literal, layout) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(all(kani, not(feature = "wide")), kani::unwind($u))]
        #[cfg_attr(all(kani, feature = "wide"), kani::unwind(34))]
        #[cfg_attr(kani, kani::stub(std::intrinsics::type_id_eq, crate::ghost::type_id_eq))]
        #[cfg_attr(kani, kani::stub(std::alloc::alloc, crate::ghost::g_alloc))]
        #[cfg_attr(kani, kani::stub(std::alloc::alloc_zeroed, crate::ghost::g_alloc_zeroed))]
        #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, crate::ghost::g_dealloc))]
        #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, crate::ghost::g_realloc_havoc))]
        pub fn $c() { $crate::rows!($e) }
    };
}
/// Once, or in the bounded variant once for every row of lengths.
#[cfg(not(feature = "bounded"))]
#[macro_export]
macro_rules! rows { ($e:expr) => { $e } }
#[cfg(feature = "bounded")]
#[macro_export]
macro_rules! rows { ($e:expr) => { match $crate::sym::any_u8() {
    0 => { $crate::lay::start_row(0); $e }
    1 => { $crate::lay::start_row(1); $e }
    2 => { $crate::lay::start_row(2); $e }
    3 => { $crate::lay::start_row(3); $e }
    4 => { $crate::lay::start_row(4); $e }
    _ => { $crate::lay::start_row(5); $e }
} } }
