//! Specification-level geometry, written as formulas (no branching).
use rstar::{Envelope, Point, AABB};
use vsym::*;

pub fn aabb_parts<P: Point>(a: &AABB<P>) -> (P, P) { (a.lower(), a.upper()) }

pub fn le_all<P: Point>(a: &P, b: &P) -> B where P::Scalar: Sc { B::all((0..P::DIMENSIONS).map(|i| a.nth(i).ble(b.nth(i)))) }
pub fn eq_all<P: Point>(a: &P, b: &P) -> B where P::Scalar: Sc { B::all((0..P::DIMENSIONS).map(|i| a.nth(i).beq(b.nth(i)))) }
pub fn box_contains_point<P: Point>(b: &AABB<P>, p: &P) -> B where P::Scalar: Sc { le_all(&b.lower(), p) & le_all(p, &b.upper()) }
pub fn box_contains_box<P: Point>(a: &AABB<P>, b: &AABB<P>) -> B where P::Scalar: Sc { le_all(&a.lower(), &b.lower()) & le_all(&b.upper(), &a.upper()) }
/// two boxes share a point (both given with lower <= upper)
pub fn boxes_touch<P: Point>(a: &AABB<P>, b: &AABB<P>) -> B where P::Scalar: Sc { le_all(&a.lower(), &b.upper()) & le_all(&b.lower(), &a.upper()) }
pub fn box_eq<P: Point>(a: &AABB<P>, b: &AABB<P>) -> B where P::Scalar: Sc { eq_all(&a.lower(), &b.lower()) & eq_all(&a.upper(), &b.upper()) }

/// `e` is the smallest box enclosing `parts`.
pub fn is_tight<P: Point>(e: &AABB<P>, parts: &[AABB<P>]) -> B where P::Scalar: Sc {
    let mut r = B::C(true);
    for i in 0..P::DIMENSIONS {
        let (l, u) = (e.lower().nth(i), e.upper().nth(i));
        r = r & B::all(parts.iter().map(|p| l.ble(p.lower().nth(i)))) & B::any(parts.iter().map(|p| l.beq(p.lower().nth(i))));
        r = r & B::all(parts.iter().map(|p| p.upper().nth(i).ble(u))) & B::any(parts.iter().map(|p| u.beq(p.upper().nth(i))));
    }
    r
}
/// squared distance of a point to a box, as a formula over the outside offsets
pub fn smin<S: Sc>(a: S, b: S) -> S { S::bite(a.ble(b), a, b) }
pub fn smax<S: Sc>(a: S, b: S) -> S { S::bite(a.ble(b), b, a) }
pub fn point_box_d2<P: Point>(b: &AABB<P>, q: &P) -> P::Scalar where P::Scalar: Sc {
    let zero = P::Scalar::from_i(0);
    (0..P::DIMENSIONS).fold(zero, |acc, i| {
        let (l, u, x) = (b.lower().nth(i), b.upper().nth(i), q.nth(i));
        let d = smax(smax(l.ssub(x), x.ssub(u)), zero);
        acc.sadd(d.smul(d))
    })
}
pub fn point_d2<P: Point>(a: &P, b: &P) -> P::Scalar where P::Scalar: Sc {
    (0..P::DIMENSIONS).fold(P::Scalar::from_i(0), |acc, i| { let d = a.nth(i).ssub(b.nth(i)); acc.sadd(d.smul(d)) })
}
pub fn is_empty_box<P: Point>(e: &AABB<P>) -> B where P::Scalar: Sc {
    let n = AABB::<P>::new_empty();
    box_eq(e, &n)
}
