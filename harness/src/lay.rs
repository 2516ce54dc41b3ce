//! Element types of every layout class: `size / align` equal to one and above one, every alignment
//! class, padding, sizes that are not powers of two.
use crate::sym::*;

/// A `Copy` element all of whose bit patterns are valid, with observable lanes.
pub trait Lay: Copy + 'static {
    const LANES: usize;
    fn any() -> Self;
    fn lane(&self, j: usize) -> u64;
}

macro_rules! int_lay { ($($t:ident $a:ident),*) => { $( impl Lay for $t {
    const LANES: usize = 1;
    fn any() -> Self { $a() as $t }
    fn lane(&self, _: usize) -> u64 { *self as u64 }
} )* } }
int_lay!(u8 any_bytes_u8, i8 any_bytes_u8, u16 any_bytes_u16, i16 any_bytes_u16, u32 any_bytes_u32,
         i32 any_bytes_u32, u64 any_bytes_u64, i64 any_bytes_u64, usize any_bytes_usize);
impl Lay for u128 {
    const LANES: usize = 2;
    fn any() -> Self { any_bytes_u128() }
    fn lane(&self, j: usize) -> u64 { if j == 0 { *self as u64 } else { (*self >> 64) as u64 } }
}
impl Lay for f32 {
    const LANES: usize = 1;
    fn any() -> Self { f32::from_bits(any_bytes_u32()) }
    fn lane(&self, _: usize) -> u64 { self.to_bits() as u64 }
}
impl Lay for f64 {
    const LANES: usize = 1;
    fn any() -> Self { f64::from_bits(any_bytes_u64()) }
    fn lane(&self, _: usize) -> u64 { self.to_bits() }
}
macro_rules! arr_lay { ($($t:ident $n:literal [$($k:literal)*]),*) => { $( impl Lay for [$t; $n] {
    const LANES: usize = $n;
    // No loop: contracts choose their own bounds for the loops of the code under verification.
    fn any() -> Self { [$( { let _ = $k; <$t as Lay>::any() } ),*] }
    fn lane(&self, j: usize) -> u64 { self[j] as u64 }
} )* } }
arr_lay!(u8 2 [0 1], u8 3 [0 1 2], u8 4 [0 1 2 3], u16 2 [0 1], u16 3 [0 1 2], u32 2 [0 1], u32 3 [0 1 2], u64 2 [0 1], u64 3 [0 1 2], i64 3 [0 1 2]);

/// Padding inside the element.
#[derive(Copy, Clone)]
#[repr(C)]
pub struct Pad(pub u8, pub u32);
impl Lay for Pad {
    const LANES: usize = 2;
    fn any() -> Self { Pad(any_bytes_u8(), any_bytes_u32()) }
    fn lane(&self, j: usize) -> u64 { if j == 0 { self.0 as u64 } else { self.1 as u64 } }
}

macro_rules! aligned { ($($n:ident $a:literal $k:literal [$($i:literal)*]),*) => { $(
    /// `$k` words in an over-aligned element.
    #[derive(Copy, Clone)]
    #[repr(C, align($a))]
    pub struct $n(pub [u64; $k]);
    impl Lay for $n {
        const LANES: usize = $k;
        fn any() -> Self { $n([$( { let _ = $i; any_bytes_u64() } ),*]) }
        fn lane(&self, j: usize) -> u64 { self.0[j] }
    }
)* } }
aligned!(A16 16 2 [0 1], A16x2 16 4 [0 1 2 3], A32 32 1 [0], A32x2 32 5 [0 1 2 3 4], A64 64 2 [0 1], A128 128 1 [0], A1k 1024 1 [0]);

/// Equality of two elements at an arbitrary lane (so: at every lane).
#[inline]
pub fn same<T: Lay>(a: &T, b: &T) -> bool {
    if T::LANES == 1 { return a.lane(0) == b.lane(0); }
    let j = below(T::LANES);
    a.lane(j) == b.lane(j)
}

/// The largest length used by the bounded variants.
pub const SMALL: usize = 3;

/// An arbitrary length; unbounded unless the `bounded` variant is built.
#[cfg(not(feature = "bounded"))]
pub fn any_len() -> usize {
    let n = any_usize();
    assume(n <= 1 << 40);
    unsafe { if n > SMALL { ALL_SMALL = 0; } }
    n
}
/// The bounded variant goes through the contract once for each of these rows; the lengths (and
/// spare capacities) of the contract are the numbers of the row.
#[cfg(feature = "bounded")]
const ROWS: [[usize; 6]; 6] = [
    [0, 0, 2, 0, 1, 0], [2, 0, 1, 3, 0, 2], [1, 3, 2, 0, 3, 1],
    [3, 0, 0, 2, 2, 0], [2, 1, 3, 5, 1, 1], [1, 0, 3, 8, 2, 0],
];
#[cfg(feature = "bounded")]
struct Row { _unlike: u64, row: usize, next: usize }
#[cfg(feature = "bounded")]
static mut ROW: Row = Row { _unlike: 0x726f_7773_726f_d1ce, row: 0, next: 0 };
#[cfg(feature = "bounded")]
pub fn start_row(r: usize) { unsafe { ROW.row = r; ROW.next = 0; } }
#[cfg(feature = "bounded")]
pub fn any_len() -> usize {
    unsafe {
        let n = ROWS[ROW.row][ROW.next % 6];
        ROW.next += 1;
        n
    }
}

#[cfg(not(feature = "bounded"))]
/// Not zero while every length is small (see `tok` for the initial value).
static mut ALL_SMALL: u64 = 0x6c65_6e67_7468_d1ce;
/// Every length chosen so far is small: where the end of a contract is shown to be reachable, this
/// keeps the witness printable.
pub fn all_small() -> bool {
    #[cfg(feature = "bounded")]
    { true }
    #[cfg(not(feature = "bounded"))]
    { unsafe { ALL_SMALL != 0 } }
}

/// A vector of any length and capacity (capacity zero included) and any contents.
pub fn any_vec<T: Lay>() -> Vec<T> {
    let n = any_len();
    #[cfg(not(feature = "bounded"))]
    let c = { let c = any_len(); assume(n <= c); c };
    #[cfg(feature = "bounded")]
    let c = n + any_len();
    vec_with(n, c)
}

/// An arbitrary vector. Dividing an unbounded length by an element size that is not a power of two
/// is out of reach of the back end: those are limited to 63 elements.
pub fn window_vec<T: Lay>() -> Vec<T> {
    if std::mem::size_of::<T>().is_power_of_two() { return any_vec(); }
    few_vec(63)
}
/// An arbitrary vector; up to 2^20 elements if their size is not a power of two.
pub fn odd_vec<T: Lay>() -> Vec<T> {
    let v = any_vec();
    assume(std::mem::size_of::<T>().is_power_of_two() || v.capacity() < 1 << 20);
    v
}
/// At most `mask` elements (a mask of bits).
pub fn few_vec<T: Lay>(mask: u8) -> Vec<T> {
    #[cfg(feature = "bounded")]
    let n = { let _ = mask; any_len() };
    #[cfg(not(feature = "bounded"))]
    let n = (any_u8() & mask) as usize;
    vec_with(n, n)
}

pub fn vec_with<T: Lay>(n: usize, c: usize) -> Vec<T> {
    #[cfg(not(kani))]
    if c.saturating_mul(std::mem::size_of::<T>()) > 1 << 28 {
        eprintln!("REPLAY-DIVERGED: more memory than a replay may use");
        std::process::exit(77);
    }
    let mut v: Vec<T> = Vec::with_capacity(c);
    #[cfg(not(feature = "bounded"))]
    unsafe {
        // The memory of a fresh allocation is unconstrained: any contents.
        #[cfg(not(kani))]
        for i in 0..n * std::mem::size_of::<T>() { *(v.as_mut_ptr() as *mut u8).add(i) = (i * 29 + i / 64) as u8; }
        v.set_len(n);
    }
    #[cfg(feature = "bounded")]
    {
        // No loop under Kani: contracts choose their own bounds for the loops of the code.
        if n > 0 { v.push(T::any()); }
        if n > 1 { v.push(T::any()); }
        if n > 2 { v.push(T::any()); }
        if n > 3 { v.push(T::any()); }
        if n > 4 { fill_rest(&mut v, n); }
    }
    v
}
#[cfg(feature = "bounded")]
fn fill_rest<T: Lay>(v: &mut Vec<T>, n: usize) {
    #[cfg(not(kani))]
    while v.len() < n { v.push(T::any()); }
    #[cfg(kani)]
    { let _ = v; assume(n <= 4); }
}

/// A vector of small (bounded) length and any contents, for contracts whose code iterates.
pub fn small_vec<T: Lay>(max: usize) -> Vec<T> {
    let n = upto(max);
    let mut v: Vec<T> = Vec::with_capacity(max);
    let mut i = 0;
    while i < n { v.push(T::any()); i += 1; }
    v
}

/// Exactly `n` elements of any contents (the length must be known when the code is unrolled).
pub fn some<T: Lay>(n: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(n + 1);
    if n > 0 { v.push(T::any()); }
    if n > 1 { v.push(T::any()); }
    if n > 2 { v.push(T::any()); }
    while v.len() < n { v.push(T::any()); }
    v
}

/// A stored type and another type it is wrongly asked for.
pub trait Pair { type A: Lay; type B: Lay; }
impl<A: Lay, B: Lay> Pair for (A, B) { type A = A; type B = B; }
