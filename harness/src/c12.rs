//! C12: numeric conversion casts every element like a checked primitive cast.
//!
//! The expected values are computed from the language's own integer and float conversions, not with
//! the library that the code under verification uses.
use crate::lay::*;
use crate::sym::*;
use dync::traits::DropVTable;
use dync::*;

fn keep<D>(d: D) -> std::mem::ManuallyDrop<D> { std::mem::ManuallyDrop::new(d) }

/// A number: where it lies.
#[derive(Copy, Clone)]
pub enum Num { Int(i128), Float(f64) }
/// The ten numeric types.
pub trait Numeric: Lay + num_traits::NumCast + num_traits::Zero {
    fn num(self) -> Num;
    /// The checked cast of a number; zero when the number cannot be represented.
    fn from_num(x: Num) -> Self;
}
macro_rules! int { ($($t:ident),*) => { $( impl Numeric for $t {
    fn num(self) -> Num { Num::Int(self as i128) }
    fn from_num(x: Num) -> Self {
        match x {
            Num::Int(i) => if i >= $t::MIN as i128 && i <= $t::MAX as i128 { i as $t } else { 0 },
            // Strictly between MIN - 1 and MAX + 1: what is left after dropping the fraction fits.
            // (For 64 bits the limits below are the neighbouring floats; no float lies in between.)
            Num::Float(f) => if f > LOW::<$t>::get() && f < HIGH::<$t>::get() || f == $t::MIN as f64 { f as $t } else { 0 },
        }
    }
}
impl Limits for $t {
    const LOW: f64 = if $t::MIN == 0 { -1.0 } else if std::mem::size_of::<$t>() == 8 { $t::MIN as f64 } else { $t::MIN as f64 - 1.0 };
    const HIGH: f64 = if std::mem::size_of::<$t>() == 8 { $t::MAX as f64 } else { $t::MAX as f64 + 1.0 };
} )* } }
pub trait Limits { const LOW: f64; const HIGH: f64; }
#[allow(non_camel_case_types, clippy::upper_case_acronyms)]
struct LOW<T>(std::marker::PhantomData<T>);
impl<T: Limits> LOW<T> { fn get() -> f64 { T::LOW } }
#[allow(non_camel_case_types, clippy::upper_case_acronyms)]
struct HIGH<T>(std::marker::PhantomData<T>);
impl<T: Limits> HIGH<T> { fn get() -> f64 { T::HIGH } }
int!(u8, i8, u16, i16, u32, i32, u64, i64);
impl Numeric for f32 {
    fn num(self) -> Num { Num::Float(self as f64) }
    fn from_num(x: Num) -> Self { match x { Num::Int(i) => if i < 0 { i as i64 as f32 } else { i as u64 as f32 }, Num::Float(f) => f as f32 } }
}
impl Numeric for f64 {
    fn num(self) -> Num { Num::Float(self) }
    fn from_num(x: Num) -> Self { match x { Num::Int(i) => if i < 0 { i as i64 as f64 } else { i as u64 as f64 }, Num::Float(f) => f } }
}
/// The same number (any NaN is the same as any other).
fn agree<O: Numeric>(a: O, b: O) -> bool {
    if let (Num::Float(x), Num::Float(y)) = (a.num(), b.num()) { if x != x { return y != y; } }
    a.lane(0) == b.lane(0)
}

fn cast_one<S: Numeric, O: Numeric>() {
    let v = vec![S::any(), S::any()];
    let i = below(2);
    let want = O::from_num(v[i].num());
    let d = keep(VecCopy::<()>::from_vec(v));
    let w = keep(d.cast_into_vec::<O>());
    check!(w.len() == 2, "C12 VecCopy::cast_into_vec gives as many elements");
    check!(agree(w[i], want), "C12 VecCopy::cast_into_vec casts every element, in order");
}
/// Signed and unsigned integers of every size as destination.
/// Bounded: 2 elements.
pub fn to_small<S: Numeric>() {
    match any_u8() {
        0 => cast_one::<S, u8>(), 1 => cast_one::<S, i8>(), 2 => cast_one::<S, u16>(), _ => cast_one::<S, i16>(),
    }
    reached!();
}
/// Bounded: 2 elements.
pub fn to_large<S: Numeric>() {
    match any_u8() {
        0 => cast_one::<S, u32>(), 1 => cast_one::<S, i32>(), 2 => cast_one::<S, u64>(), _ => cast_one::<S, i64>(),
    }
    reached!();
}
/// Bounded: 2 elements.
pub fn to_float<S: Numeric>() {
    if any_bool() { cast_one::<S, f32>() } else { cast_one::<S, f64>() }
    reached!();
}
fn cast_dyn<S: Numeric, O: Numeric>() {
    let v = vec![S::any(), S::any()];
    let i = below(2);
    let want = O::from_num(v[i].num());
    let d = keep(VecDyn::<DropVTable>::from_vec(v));
    let w = d.cast_into_vec::<O>();
    check!(w.is_some(), "C12 VecDyn::cast_into_vec accepts numbers");
    let w = keep(w.unwrap());
    check!(w.len() == 2, "C12 VecDyn::cast_into_vec gives as many elements");
    check!(agree(w[i], want), "C12 VecDyn::cast_into_vec casts every element, in order");
}
/// The same from a `VecDyn`.
/// Bounded: 2 elements.
pub fn from_dyn<S: Numeric>() {
    match any_u8() { 0 => cast_dyn::<S, u8>(), 1 => cast_dyn::<S, i32>(), 2 => cast_dyn::<S, i64>(), _ => cast_dyn::<S, f32>() }
    reached!();
}
fn lengths_n<S: Numeric>(n: usize) {
    let v = some::<S>(n);
    let i = any_usize();
    let want = if i < n { i32::from_num(v[i].num()) } else { 0 };
    let dy = any_bool();
    let w = keep(if dy { let d = keep(VecDyn::<DropVTable>::from_vec(v)); let w = d.cast_into_vec::<i32>().unwrap();
                         check!(d.len() == n && d.check_ref::<S>().is_some(), "C12 VecDyn::cast_into_vec leaves the vector"); w }
                 else { let d = keep(VecCopy::<()>::from_vec(v)); let w = d.cast_into_vec::<i32>();
                        check!(d.len() == n && d.check_ref::<S>().is_some(), "C12 VecCopy::cast_into_vec leaves the vector"); w });
    check!(w.len() == n, "C12 cast_into_vec gives as many elements");
    if i < n { check!(w[i] == want, "C12 cast_into_vec keeps the order"); }
}
/// Other lengths.
/// Bounded: 0, 1, 3 and 9 elements.
pub fn lengths<S: Numeric>() { match any_u8() { 0 => lengths_n::<S>(0), 1 => lengths_n::<S>(1), 2 => lengths_n::<S>(9), _ => lengths_n::<S>(3) }; reached!(); }
/// Contents that are not numbers.
pub fn refused<T: Lay>() {
    let v = vec![T::any(), T::any()];
    match any_u8() {
        0 => check!(keep(VecDyn::<DropVTable>::from_vec(v)).cast_into_vec::<i32>().is_none(), "C12 VecDyn::cast_into_vec refuses what is not a number"),
        1 => check!(keep(VecDyn::<DropVTable>::from_vec(v)).cast_into_vec::<f64>().is_none(), "C12 VecDyn::cast_into_vec refuses what is not a number"),
        2 => check!(keep(VecCopy::<()>::from_vec(v)).cast_into_vec::<u8>().is_empty(), "C12 VecCopy::cast_into_vec gives nothing for what is not a number"),
        _ => check!(keep(VecCopy::<()>::from_vec(v)).cast_into_vec::<f32>().is_empty(), "C12 VecCopy::cast_into_vec gives nothing for what is not a number"),
    }
    reached!();
}

cases! {
    to_small [u8_: u8, i8_: i8, u16_: u16, i16_: i16, u32_: u32, i32_: i32, u64_: u64, i64_: i64, f32_: f32, f64_: f64] more [] unwind 4 flat;
    to_large [u8_: u8, i8_: i8, u16_: u16, i16_: i16, u32_: u32, i32_: i32, u64_: u64, i64_: i64, f32_: f32, f64_: f64] more [] unwind 4 flat;
    to_float [u8_: u8, i8_: i8, u16_: u16, i16_: i16, u32_: u32, i32_: i32, u64_: u64, i64_: i64, f32_: f32, f64_: f64] more [] unwind 4 flat;
    from_dyn [u8_: u8, i64_: i64, f64_: f64] more [i8_: i8, u16_: u16, i16_: i16, u32_: u32, i32_: i32, u64_: u64, f32_: f32] unwind 4 flat;
    lengths [i8_: i8, u32_: u32, f32_: f32] more [u8_: u8, u16_: u16, i16_: i16, i32_: i32, u64_: u64, i64_: i64, f64_: f64] unwind 12 flat;
    refused [a2u8: [u8; 2], u128_: u128, pad: Pad] more [usize_: usize, a2u16: [u16; 2]] unwind 4 flat;
}
