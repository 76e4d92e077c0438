//! Exact rationals (i128) with a NaN: the native counterpart of Real mode.
use crate::engine::{stop, Stop};
use crate::term::*;
use num_traits::{Bounded, Num, One, Signed, Zero};
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy, Debug)]
pub struct Q(pub Option<(i128, i128)>);
impl Q {
    pub fn int(v: i128) -> Q { Q(Some((v, 1))) }
}
fn need<T>(x: Option<T>) -> T {
    match x { Some(v) => v, None => stop(Stop::Unsupported("rational overflow in replay".into())) }
}
fn lift(a: Q, b: Q, op: Op) -> Q {
    match (a.0, b.0) {
        (Some(x), Some(y)) => {
            if op == Op::Div && y.0 == 0 {
                if x.0 == 0 { return Q(None); }
                stop::<()>(Stop::Unsupported("infinite quotient".into()));
            }
            match need(arith(Mode::Real, op, Val::Q(x.0, x.1), Val::Q(y.0, y.1))) { Val::Q(n, d) => Q(Some((n, d))), _ => unreachable!() }
        }
        _ => Q(None),
    }
}
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool { match (self.0, o.0) { (Some(a), Some(b)) => a == b, _ => false } }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> { match (self.0, o.0) { (Some(a), Some(b)) => Some(need(qcmp(a, b))), _ => None } }
}
impl Add for Q { type Output = Q; fn add(self, r: Q) -> Q { lift(self, r, Op::Add) } }
impl Sub for Q { type Output = Q; fn sub(self, r: Q) -> Q { lift(self, r, Op::Sub) } }
impl Mul for Q { type Output = Q; fn mul(self, r: Q) -> Q { lift(self, r, Op::Mul) } }
impl Div for Q { type Output = Q; fn div(self, r: Q) -> Q { lift(self, r, Op::Div) } }
impl Rem for Q { type Output = Q; fn rem(self, _: Q) -> Q { stop(Stop::Unsupported("rem".into())) } }
impl Neg for Q { type Output = Q; fn neg(self) -> Q { Q(self.0.map(|(n, d)| (-n, d))) } }
impl Zero for Q { fn zero() -> Q { Q::int(0) } fn is_zero(&self) -> bool { matches!(self.0, Some((0, _))) } }
impl One for Q { fn one() -> Q { Q::int(1) } }
impl Num for Q { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Q, ()> { Err(()) } }
impl Bounded for Q { fn min_value() -> Q { Q::int(-REAL_MAX) } fn max_value() -> Q { Q::int(REAL_MAX) } }
impl Signed for Q {
    fn abs(&self) -> Q { Q(self.0.map(|(n, d)| (n.abs(), d))) }
    fn abs_sub(&self, o: &Q) -> Q { if self <= o { Q::int(0) } else { *self - *o } }
    fn signum(&self) -> Q { Q(self.0.map(|(n, _)| (n.signum(), 1))) }
    fn is_positive(&self) -> bool { matches!(self.0, Some((n, _)) if n > 0) }
    fn is_negative(&self) -> bool { matches!(self.0, Some((n, _)) if n < 0) }
}
