//! Small IEEE formats, computed through f64 and rounded once (exact for significands up to 25 bits).
use num_traits::{Bounded, Num, One, Signed, Zero};
use std::ops::*;

pub fn max_finite(e: u32, s: u32) -> f64 {
    if (e, s) == (11, 53) { return f64::MAX; }
    let emax = (1i32 << (e - 1)) - 1;
    (2.0 - (2.0f64).powi(1 - s as i32)) * (2.0f64).powi(emax)
}
pub fn round(x: f64, e: u32, s: u32) -> f64 {
    if (e, s) == (11, 53) || x == 0.0 || !x.is_finite() { return x; }
    if (e, s) == (8, 24) { return x as f32 as f64; }
    let emin = 2 - (1i32 << (e - 1));
    let ex = ((x.to_bits() >> 52) & 0x7ff) as i32 - 1023;
    let quant = (2.0f64).powi(ex.max(emin) - (s as i32 - 1));
    let r = (x / quant).round_ties_even() * quant;
    if r.abs() > max_finite(e, s) { return f64::INFINITY.copysign(x); }
    if r == 0.0 { 0.0f64.copysign(x) } else { r }
}
/// Decodes a bit pattern of the format.
pub fn decode(bits: u64, e: u32, s: u32) -> f64 {
    if (e, s) == (11, 53) { return f64::from_bits(bits); }
    if (e, s) == (8, 24) { return f32::from_bits(bits as u32) as f64; }
    let f = bits & ((1 << (s - 1)) - 1);
    let ex = (bits >> (s - 1)) & ((1 << e) - 1);
    let sg = if bits >> (e + s - 1) & 1 == 1 { -1.0 } else { 1.0 };
    let bias = (1i32 << (e - 1)) - 1;
    if ex == (1 << e) - 1 { return if f == 0 { sg * f64::INFINITY } else { f64::NAN }; }
    if ex == 0 { return sg * f as f64 * (2.0f64).powi(1 - bias - (s as i32 - 1)); }
    sg * (f + (1 << (s - 1))) as f64 * (2.0f64).powi(ex as i32 - bias - (s as i32 - 1))
}
/// Encodes a representable value.
pub fn encode(x: f64, e: u32, s: u32) -> u64 {
    if (e, s) == (11, 53) { return x.to_bits(); }
    if (e, s) == (8, 24) { return (x as f32).to_bits() as u64; }
    let sg = (x.is_sign_negative() as u64) << (e + s - 1);
    let bias = (1i32 << (e - 1)) - 1;
    if x == 0.0 { return sg; }
    if x.is_nan() { return (((1u64 << e) - 1) << (s - 1)) | 1; }
    if x.is_infinite() { return sg | (((1u64 << e) - 1) << (s - 1)); }
    let ex = ((x.to_bits() >> 52) & 0x7ff) as i32 - 1023;
    if ex < 1 - bias {
        return sg | (x.abs() / (2.0f64).powi(1 - bias - (s as i32 - 1))) as u64;
    }
    let m = (x.abs() / (2.0f64).powi(ex - (s as i32 - 1))) as u64;
    sg | (((ex + bias) as u64) << (s - 1)) | (m & ((1 << (s - 1)) - 1))
}

#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
pub struct Fl<const E: u32, const S: u32>(pub f64);
macro_rules! op { ($t:ident,$f:ident,$o:tt) => {
    impl<const E: u32, const S: u32> $t for Fl<E, S> { type Output = Self; fn $f(self, r: Self) -> Self { Fl(round(self.0 $o r.0, E, S)) } }
} }
op!(Add, add, +);
op!(Sub, sub, -);
op!(Mul, mul, *);
op!(Div, div, /);
op!(Rem, rem, %);
impl<const E: u32, const S: u32> Neg for Fl<E, S> { type Output = Self; fn neg(self) -> Self { Fl(-self.0) } }
impl<const E: u32, const S: u32> Zero for Fl<E, S> { fn zero() -> Self { Fl(0.0) } fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl<const E: u32, const S: u32> One for Fl<E, S> { fn one() -> Self { Fl(1.0) } }
impl<const E: u32, const S: u32> Num for Fl<E, S> { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> { Err(()) } }
impl<const E: u32, const S: u32> Bounded for Fl<E, S> { fn min_value() -> Self { Fl(-max_finite(E, S)) } fn max_value() -> Self { Fl(max_finite(E, S)) } }
impl<const E: u32, const S: u32> Signed for Fl<E, S> {
    fn abs(&self) -> Self { Fl(self.0.abs()) }
    fn abs_sub(&self, o: &Self) -> Self { if self <= o { Fl(0.0) } else { *self - *o } }
    fn signum(&self) -> Self { Fl(self.0.signum()) }
    fn is_positive(&self) -> bool { self.0.is_sign_positive() }
    fn is_negative(&self) -> bool { self.0.is_sign_negative() }
}
