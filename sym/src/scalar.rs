//! `Sym`: the symbolic number that rstar's generic code is instantiated with, and `Sc`, the harness view of a number.
use crate::engine::*;
use crate::fl::Fl;
use crate::q::Q;
use crate::term::*;
use num_traits::{Bounded, Num, One, Signed, Zero};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::ops::*;

/// A term of the current thread's arena. 8 bytes like i64/f64, so size-dependent library code behaves the same.
#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Sym(pub u64);

impl Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", with(|p| p.arena.show(self.0 as u32)))
    }
}
fn t(s: Sym) -> u32 { s.0 as u32 }
fn mk(x: u32) -> Sym { Sym(x as u64) }

fn checked(op: Op, ov: Op, a: Sym, b: Sym, what: &str) -> Sym {
    let o = with(|p| p.arena.ovf(ov, t(a), t(b)));
    if branch_term(o) {
        panic!("attempt to {} with overflow", what);
    }
    mk(with(|p| p.arena.bin(op, t(a), t(b))))
}
fn is_int() -> bool { with(|p| p.arena.mode.irange().is_some()) }

impl Add for Sym { type Output = Sym; fn add(self, r: Sym) -> Sym { checked(Op::Add, Op::OvA, self, r, "add") } }
impl Sub for Sym { type Output = Sym; fn sub(self, r: Sym) -> Sym { checked(Op::Sub, Op::OvS, self, r, "subtract") } }
impl Mul for Sym { type Output = Sym; fn mul(self, r: Sym) -> Sym { checked(Op::Mul, Op::OvM, self, r, "multiply") } }
impl Div for Sym {
    type Output = Sym;
    fn div(self, r: Sym) -> Sym {
        let mode = with(|p| p.arena.mode);
        match mode {
            Mode::Int | Mode::Bv(_) => {
                let zero = Sym::zero();
                if branch_term(with(|p| p.arena.cmp(Op::Eq, t(r), t(zero)))) { panic!("attempt to divide by zero"); }
                let (min, m1) = (Sym::min_value(), Sym::from_i(-1));
                let o = with(|p| { let a = p.arena.cmp(Op::Eq, t(self), t(min)); let b = p.arena.cmp(Op::Eq, t(r), t(m1)); p.arena.and(a, b) });
                if branch_term(o) { panic!("attempt to divide with overflow"); }
                if mode == Mode::Int && with(|p| p.arena.cval(t(r)).is_none()) {
                    stop::<()>(Stop::Unsupported("Int division by a symbolic divisor".into()));
                }
            }
            Mode::Real => {
                if with(|p| p.arena.is_nan_const(t(self)) || p.arena.is_nan_const(t(r))) { return mk(with(|p| p.arena.nan())); }
                let zero = Sym::zero();
                if branch_term(with(|p| p.arena.cmp(Op::Eq, t(r), t(zero)))) {
                    if branch_term(with(|p| p.arena.cmp(Op::Eq, t(self), t(zero)))) { return mk(with(|p| p.arena.nan())); }
                    stop::<()>(Stop::Unsupported("infinite quotient".into()));
                }
            }
            Mode::Fp(..) => {}
        }
        mk(with(|p| p.arena.bin(Op::Div, t(self), t(r))))
    }
}
impl Rem for Sym {
    type Output = Sym;
    fn rem(self, r: Sym) -> Sym {
        if !matches!(with(|p| p.arena.mode), Mode::Bv(_)) { stop::<()>(Stop::Unsupported("rem".into())); }
        let zero = Sym::zero();
        if branch_term(with(|p| p.arena.cmp(Op::Eq, t(r), t(zero)))) { panic!("attempt to calculate the remainder with a divisor of zero"); }
        mk(with(|p| p.arena.bin(Op::Rem, t(self), t(r))))
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        if is_int() {
            let z = Sym::zero();
            let o = with(|p| p.arena.ovf(Op::OvS, t(z), t(self)));
            if branch_term(o) { panic!("attempt to negate with overflow"); }
        }
        mk(with(|p| p.arena.neg(t(self))))
    }
}
impl PartialEq for Sym { fn eq(&self, o: &Sym) -> bool { branch_term(with(|p| p.arena.cmp(Op::Eq, t(*self), t(*o)))) } }
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        let n = with(|p| { let a = p.arena.isnan(t(*self)); let b = p.arena.isnan(t(*o)); p.arena.or(a, b) });
        if branch_term(n) { return None; }
        if self.lt(o) { return Some(Ordering::Less); }
        if self.eq(o) { return Some(Ordering::Equal); }
        Some(Ordering::Greater)
    }
    fn lt(&self, o: &Sym) -> bool { branch_term(with(|p| p.arena.cmp(Op::Lt, t(*self), t(*o)))) }
    fn le(&self, o: &Sym) -> bool { branch_term(with(|p| p.arena.cmp(Op::Le, t(*self), t(*o)))) }
    fn gt(&self, o: &Sym) -> bool { o.lt(self) }
    fn ge(&self, o: &Sym) -> bool { o.le(self) }
}
impl Zero for Sym { fn zero() -> Sym { Sym::from_i(0) } fn is_zero(&self) -> bool { *self == Sym::zero() } }
impl One for Sym { fn one() -> Sym { Sym::from_i(1) } }
impl Num for Sym { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> { Err(()) } }
impl Bounded for Sym {
    fn min_value() -> Sym { mk(with(|p| { let v = p.arena.mode.bounds().0; p.arena.konst(v) })) }
    fn max_value() -> Sym { mk(with(|p| { let v = p.arena.mode.bounds().1; p.arena.konst(v) })) }
}
impl Signed for Sym {
    fn abs(&self) -> Sym { if *self < Sym::zero() { -*self } else { *self } }
    fn abs_sub(&self, o: &Sym) -> Sym { if *self <= *o { Sym::zero() } else { *self - *o } }
    fn signum(&self) -> Sym {
        if *self < Sym::zero() { Sym::from_i(-1) } else if *self == Sym::zero() && is_int() { Sym::zero() } else { Sym::one() }
    }
    fn is_positive(&self) -> bool { *self > Sym::zero() }
    fn is_negative(&self) -> bool { *self < Sym::zero() }
}

/// Numbers a harness is instantiated with.
pub trait Sc: Num + Bounded + Signed + Copy + PartialOrd + Debug + serde::Serialize + serde::de::DeserializeOwned + 'static {
    fn from_i(v: i64) -> Self;
    /// a fresh input in lo..=hi (floating point: any non-NaN value when lo == i64::MIN)
    fn input(lo: i64, hi: i64) -> Self;
    fn blt(self, o: Self) -> B;
    fn ble(self, o: Self) -> B;
    fn beq(self, o: Self) -> B;
    fn bite(c: B, a: Self, b: Self) -> Self;
    /// arithmetic for specifications: never branches (no overflow check; use only where ranges exclude overflow)
    fn sadd(self, o: Self) -> Self;
    fn ssub(self, o: Self) -> Self;
    fn smul(self, o: Self) -> Self;
    /// key under which the very same value is found again (for memo tables in harnesses)
    fn key(self) -> u64;
}
/// Native number types with the symbolic mode that models them.
pub trait Native: Sc {
    const MODE: Mode;
}

impl Sc for Sym {
    fn from_i(v: i64) -> Sym { mk(with(|p| { let v = p.arena.mode.of_int(v); p.arena.konst(v) })) }
    fn input(lo: i64, hi: i64) -> Sym { mk(new_num(lo, hi)) }
    fn blt(self, o: Sym) -> B { bt(with(|p| p.arena.cmp(Op::Lt, t(self), t(o)))) }
    fn ble(self, o: Sym) -> B { bt(with(|p| p.arena.cmp(Op::Le, t(self), t(o)))) }
    fn beq(self, o: Sym) -> B { bt(with(|p| p.arena.cmp(Op::Eq, t(self), t(o)))) }
    fn bite(c: B, a: Sym, b: Sym) -> Sym { let c = tb(c); mk(with(|p| p.arena.ite(c, t(a), t(b)))) }
    fn sadd(self, o: Sym) -> Sym { mk(with(|p| p.arena.bin(Op::Add, t(self), t(o)))) }
    fn ssub(self, o: Sym) -> Sym { mk(with(|p| p.arena.bin(Op::Sub, t(self), t(o)))) }
    fn smul(self, o: Sym) -> Sym { mk(with(|p| p.arena.bin(Op::Mul, t(self), t(o)))) }
    fn key(self) -> u64 { self.0 }
}

macro_rules! native_int { ($t:ty, $m:expr) => {
    impl Sc for $t {
        fn from_i(v: i64) -> Self { v as $t }
        fn input(lo: i64, hi: i64) -> Self { match native_num(lo, hi) { Val::I(i) => i as $t, v => bad(v) } }
        fn blt(self, o: Self) -> B { B::C(self < o) }
        fn ble(self, o: Self) -> B { B::C(self <= o) }
        fn beq(self, o: Self) -> B { B::C(self == o) }
        fn bite(c: B, a: Self, b: Self) -> Self { if conc(c) { a } else { b } }
        fn sadd(self, o: Self) -> Self { self.wrapping_add(o) }
        fn ssub(self, o: Self) -> Self { self.wrapping_sub(o) }
        fn smul(self, o: Self) -> Self { self.wrapping_mul(o) }
        fn key(self) -> u64 { self as u64 }
    }
    impl Native for $t { const MODE: Mode = $m; }
} }
native_int!(i64, Mode::Int);
native_int!(i8, Mode::Bv(8));
native_int!(i16, Mode::Bv(16));
native_int!(i32, Mode::Bv(32));
macro_rules! native_other { ([$($g:tt)*] $t:ty, $m:expr, $from:expr, $val:expr, $key:expr) => {
    impl<$($g)*> Sc for $t {
        fn from_i(v: i64) -> Self { $from(v) }
        fn input(lo: i64, hi: i64) -> Self { $val(native_num(lo, hi)) }
        fn blt(self, o: Self) -> B { B::C(self < o) }
        fn ble(self, o: Self) -> B { B::C(self <= o) }
        fn beq(self, o: Self) -> B { B::C(self == o) }
        fn bite(c: B, a: Self, b: Self) -> Self { if conc(c) { a } else { b } }
        fn sadd(self, o: Self) -> Self { self + o }
        fn ssub(self, o: Self) -> Self { self - o }
        fn smul(self, o: Self) -> Self { self * o }
        fn key(self) -> u64 { $key(self) }
    }
    impl<$($g)*> Native for $t { const MODE: Mode = $m; }
} }
native_other!([] f64, Mode::Fp(11, 53), |v: i64| v as f64, |v| match v { Val::F(f) => f, v => bad(v) }, |s: f64| s.to_bits());
native_other!([] f32, Mode::Fp(8, 24), |v: i64| v as f32, |v| match v { Val::F(f) => f as f32, v => bad(v) }, |s: f32| s.to_bits() as u64);
native_other!([const E: u32, const S: u32] Fl<E, S>, Mode::Fp(E, S), |v: i64| Fl(crate::fl::round(v as f64, E, S)), |v| match v { Val::F(f) => Fl(f), v => bad(v) }, |s: Fl<E, S>| s.0.to_bits());
native_other!([] Q, Mode::Real, |v: i64| Q::int(v as i128), |v| match v { Val::Q(n, d) => Q(Some((n, d))), v => bad(v) }, |s: Q| { let x = s.0.unwrap_or((0, 0)); (x.0 as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ x.1 as u64 });

fn bad<T>(v: Val) -> T { stop(Stop::Unsupported(format!("model value {:?} of the wrong kind", v))) }
fn conc(b: B) -> bool { match b { B::C(b) => b, B::T(_) => unreachable!() } }
fn bt(x: u32) -> B { match x { 0 => B::C(false), 1 => B::C(true), x => B::T(x) } }
fn tb(b: B) -> u32 { match b { B::C(b) => b as u32, B::T(x) => x } }

impl std::ops::Not for B {
    type Output = B;
    fn not(self) -> B { match self { B::C(b) => B::C(!b), B::T(x) => bt(with(|p| p.arena.not(x))) } }
}
impl std::ops::BitAnd for B {
    type Output = B;
    fn bitand(self, o: B) -> B {
        match (self, o) {
            (B::C(a), b) => if a { b } else { B::C(false) },
            (a, B::C(b)) => if b { a } else { B::C(false) },
            (B::T(a), B::T(b)) => bt(with(|p| p.arena.and(a, b))),
        }
    }
}
impl std::ops::BitOr for B {
    type Output = B;
    fn bitor(self, o: B) -> B {
        match (self, o) {
            (B::C(a), b) => if a { B::C(true) } else { b },
            (a, B::C(b)) => if b { B::C(true) } else { a },
            (B::T(a), B::T(b)) => bt(with(|p| p.arena.or(a, b))),
        }
    }
}
impl B {
    pub fn implies(self, o: B) -> B { !self | o }
    pub fn iff(self, o: B) -> B { (self & o) | (!self & !o) }
    pub fn all(i: impl IntoIterator<Item = B>) -> B { i.into_iter().fold(B::C(true), |a, b| a & b) }
    pub fn any(i: impl IntoIterator<Item = B>) -> B { i.into_iter().fold(B::C(false), |a, b| a | b) }
}
impl From<bool> for B { fn from(b: bool) -> B { B::C(b) } }

impl serde::Serialize for Sym {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.serialize_u64(self.0) }
}
impl<'de> serde::Deserialize<'de> for Sym {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Sym, D::Error> { u64::deserialize(d).map(Sym) }
}
impl serde::Serialize for Q {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let x = self.0.unwrap_or((0, 0));
        z.serialize_str(&format!("{}/{}", x.0, x.1))
    }
}
impl<'de> serde::Deserialize<'de> for Q {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Q, D::Error> {
        let s = String::deserialize(d)?;
        let mut i = s.split('/');
        let (n, e) = (i.next().unwrap().parse().unwrap(), i.next().unwrap().parse().unwrap());
        Ok(Q(if e == 0 { None } else { Some((n, e)) }))
    }
}
impl<const E: u32, const S: u32> serde::Serialize for Fl<E, S> {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.serialize_f64(self.0) }
}
impl<'de, const E: u32, const S: u32> serde::Deserialize<'de> for Fl<E, S> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { f64::deserialize(d).map(Fl) }
}
