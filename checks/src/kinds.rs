//! Dimensions, object kinds and concrete layouts shared by the harnesses.
use crate::geo::*;
use crate::tree::*;
use rstar::primitives::{CachedEnvelope, GeomWithData, Line, Rectangle};
use rstar::{Point, PointDistance, RTree, RTreeObject, RTreeParams, AABB};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;
use vsym::*;

/// A point type for every number type.
pub trait Dim: Send + Sync + 'static {
    type P<S: Sc>: Pt<Scalar = S>;
}
pub struct D2; pub struct D3; pub struct D4; pub struct T2; pub struct T3;
impl Dim for D2 { type P<S: Sc> = [S; 2]; }
impl Dim for D3 { type P<S: Sc> = [S; 3]; }
impl Dim for D4 { type P<S: Sc> = [S; 4]; }
impl Dim for T2 { type P<S: Sc> = (S, S); }
impl Dim for T3 { type P<S: Sc> = (S, S, S); }

/// An object type built from two opposite corners `lo <= hi`.
pub trait Kind: Send + Sync + 'static {
    type T<S: Sc, D: Dim>: RTreeObject<Envelope = AABB<D::P<S>>> + PointDistance + PartialEq + Clone + Debug + Serialize + DeserializeOwned + 'static;
    const POINT: bool = false;
    fn make<S: Sc, D: Dim>(id: u32, lo: D::P<S>, hi: D::P<S>) -> Self::T<S, D>;
    fn bx<S: Sc, D: Dim>(t: &Self::T<S, D>) -> AABB<D::P<S>>;
    /// does the object contain the point?
    fn has<S: Sc, D: Dim>(t: &Self::T<S, D>, q: &D::P<S>) -> B { box_contains_point(&Self::bx::<S, D>(t), q) }
    /// squared distance
    fn d2<S: Sc, D: Dim>(t: &Self::T<S, D>, q: &D::P<S>) -> S { point_box_d2(&Self::bx::<S, D>(t), q) }
    fn same<S: Sc, D: Dim>(a: &Self::T<S, D>, b: &Self::T<S, D>) -> B { box_eq(&Self::bx::<S, D>(a), &Self::bx::<S, D>(b)) }
}
/// plain points
pub struct KP;
impl Kind for KP {
    type T<S: Sc, D: Dim> = D::P<S>;
    const POINT: bool = true;
    fn make<S: Sc, D: Dim>(_: u32, lo: D::P<S>, _: D::P<S>) -> D::P<S> { lo }
    fn bx<S: Sc, D: Dim>(t: &D::P<S>) -> AABB<D::P<S>> { AABB::from_point(*t) }
    fn has<S: Sc, D: Dim>(t: &D::P<S>, q: &D::P<S>) -> B { eq_all(t, q) }
    fn d2<S: Sc, D: Dim>(t: &D::P<S>, q: &D::P<S>) -> S { point_d2(t, q) }
    fn same<S: Sc, D: Dim>(a: &D::P<S>, b: &D::P<S>) -> B { eq_all(a, b) }
}
/// user-defined boxes with identity
pub struct KO;
impl Kind for KO {
    type T<S: Sc, D: Dim> = Ob<D::P<S>>;
    fn make<S: Sc, D: Dim>(id: u32, lo: D::P<S>, hi: D::P<S>) -> Ob<D::P<S>> { Ob { id, bx: mk_box(lo, hi) } }
    fn bx<S: Sc, D: Dim>(t: &Ob<D::P<S>>) -> AABB<D::P<S>> { t.bx }
    fn same<S: Sc, D: Dim>(a: &Ob<D::P<S>>, b: &Ob<D::P<S>>) -> B { B::C(a.id == b.id) }
}
/// rstar's rectangles
pub struct KR;
impl Kind for KR {
    type T<S: Sc, D: Dim> = Rectangle<D::P<S>>;
    fn make<S: Sc, D: Dim>(_: u32, lo: D::P<S>, hi: D::P<S>) -> Rectangle<D::P<S>> { Rectangle::from_aabb(mk_box(lo, hi)) }
    fn bx<S: Sc, D: Dim>(t: &Rectangle<D::P<S>>) -> AABB<D::P<S>> { mk_box(t.lower(), t.upper()) }
}
/// rectangles with attached data and a cached envelope
pub struct KW;
impl Kind for KW {
    type T<S: Sc, D: Dim> = CachedEnvelope<GeomWithData<Rectangle<D::P<S>>, u32>>;
    fn make<S: Sc, D: Dim>(id: u32, lo: D::P<S>, hi: D::P<S>) -> Self::T<S, D> { CachedEnvelope::new(GeomWithData::new(Rectangle::from_aabb(mk_box(lo, hi)), id)) }
    fn bx<S: Sc, D: Dim>(t: &Self::T<S, D>) -> AABB<D::P<S>> { mk_box(t.geom().lower(), t.geom().upper()) }
    fn same<S: Sc, D: Dim>(a: &Self::T<S, D>, b: &Self::T<S, D>) -> B { B::C(a.data == b.data) & box_eq(&Self::bx::<S, D>(a), &Self::bx::<S, D>(b)) }
}
/// A user object consisting of two opposite corners of its envelope: much farther away than its envelope, and different
/// objects have the same one. Relies on the default methods of `PointDistance`.
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound(serialize = "P: Serialize", deserialize = "P: DeserializeOwned"))]
pub struct Co<P: Point> { pub id: u32, pub a: P, pub b: P }
impl<P: Point> PartialEq for Co<P> { fn eq(&self, o: &Self) -> bool { self.id == o.id } }
impl<P: Point> RTreeObject for Co<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> { AABB::from_corners(self.a.clone(), self.b.clone()) }
}
impl<P: Point> PointDistance for Co<P> where P::Scalar: Sc {
    fn distance_2(&self, p: &P) -> P::Scalar { smin(point_d2(&self.a, p), point_d2(&self.b, p)) }
}
/// pairs of opposite corners; odd ones on the other diagonal
pub struct KC;
impl Kind for KC {
    type T<S: Sc, D: Dim> = Co<D::P<S>>;
    fn make<S: Sc, D: Dim>(id: u32, lo: D::P<S>, hi: D::P<S>) -> Co<D::P<S>> {
        let swap = |p: D::P<S>, q: D::P<S>| <D::P<S> as Point>::generate(|d| if id % 2 == 1 && d == 1 { q.nth(d) } else { p.nth(d) });
        Co { id, a: swap(lo, hi), b: swap(hi, lo) }
    }
    fn bx<S: Sc, D: Dim>(t: &Co<D::P<S>>) -> AABB<D::P<S>> {
        let f = |m: fn(S, S) -> S| <D::P<S> as Point>::generate(|d| m(t.a.nth(d), t.b.nth(d)));
        mk_box(f(smin), f(smax))
    }
    fn has<S: Sc, D: Dim>(t: &Co<D::P<S>>, q: &D::P<S>) -> B { eq_all(&t.a, q) | eq_all(&t.b, q) }
    fn d2<S: Sc, D: Dim>(t: &Co<D::P<S>>, q: &D::P<S>) -> S { smin(point_d2(&t.a, q), point_d2(&t.b, q)) }
    fn same<S: Sc, D: Dim>(a: &Co<D::P<S>>, b: &Co<D::P<S>>) -> B { B::C(a.id == b.id) }
}
/// line segments from the lower to the upper corner (rational coordinates only)
pub struct KL;
impl Kind for KL {
    type T<S: Sc, D: Dim> = Line<D::P<S>>;
    fn make<S: Sc, D: Dim>(_: u32, lo: D::P<S>, hi: D::P<S>) -> Line<D::P<S>> { Line::new(lo, hi) }
    fn bx<S: Sc, D: Dim>(t: &Line<D::P<S>>) -> AABB<D::P<S>> { mk_box(t.from, t.to) }
    /// on the segment: all 2x2 cross products vanish and the point is in the bounding box
    fn has<S: Sc, D: Dim>(t: &Line<D::P<S>>, q: &D::P<S>) -> B {
        let n = <D::P<S> as Point>::DIMENSIONS;
        let mut r = box_contains_point(&Self::bx::<S, D>(t), q);
        for i in 0..n { for j in i + 1..n {
            let d = |k: usize| t.to.nth(k).ssub(t.from.nth(k));
            let e = |k: usize| q.nth(k).ssub(t.from.nth(k));
            r = r & d(i).smul(e(j)).beq(d(j).smul(e(i)));
        } }
        r
    }
    fn d2<S: Sc, D: Dim>(t: &Line<D::P<S>>, q: &D::P<S>) -> S { line_d2(&t.from, &t.to, q) }
}
/// squared distance of a point to a segment with concrete, different end points
pub fn line_d2<P: Point>(a: &P, b: &P, q: &P) -> P::Scalar where P::Scalar: Sc {
    let n = P::DIMENSIONS;
    let (zero, one) = (P::Scalar::from_i(0), P::Scalar::from_i(1));
    let mut dot = zero;
    let mut len = zero;
    for k in 0..n {
        let d = b.nth(k).ssub(a.nth(k));
        dot = dot.sadd(d.smul(q.nth(k).ssub(a.nth(k))));
        len = len.sadd(d.smul(d));
    }
    if len.beq(zero) == B::C(true) { return point_d2(a, q); }
    let s = dot / len;
    let s = smax(zero, smin(one, s));
    let mut r = zero;
    for k in 0..n {
        let e = a.nth(k).sadd(s.smul(b.nth(k).ssub(a.nth(k)))).ssub(q.nth(k));
        r = r.sadd(e.smul(e));
    }
    r
}

/// Concrete layouts: (lower, upper) coordinates of object `i` in dimension `d`.
pub fn lay(kind: usize, i: usize, d: usize) -> (i64, i64) {
    let (k, j) = ((i / 4) as i64, (i % 4) as i64);
    let dd = d as i64;
    match kind {
        // clusters of four points on a staircase
        0 => { let p = match d { 0 => k * 10 + (j % 2) * 3, 1 => k * 6 + (j / 2) * 4, _ => (k * 5 + j * (dd + 1)) % 23 }; (p, p) }
        // all objects in one place
        1 => (5, 5),
        // overlapping boxes of differing size
        2 => { let l = match d { 0 => k * 6 - j * 2, 1 => j * 3 - k, _ => k - j * dd }; (l, l + 3 + if d % 2 == 0 { 1 + 3 * j } else { k - 1 + j % 2 }) }
        // points on a diagonal
        3 => { let p = i as i64 * 3; (p, p) }
        // points on a line along y
        4 => { let p = if d == 1 { i as i64 * 2 } else { 0 }; (p, p) }
        // scattered points, coordinates of both signs
        5 => { let p = ((i as i64 * (17 + 20 * dd) + 5 * dd) % 41) - 20; (p, p) }
        // scattered boxes, some degenerate
        6 => { let p = ((i as i64 * (19 + 16 * dd) + 3 * dd) % 37) - 18; (p, p + ((i as i64 + dd) % 4) * 2) }
        // nested boxes
        7 => { let e = i as i64; (-e, e) }
        // pairs of points in opposite corners of boxes around the origin, from the largest box to the smallest
        9 => { let e = 50 - (i / 2) as i64; let p = if i % 2 == 0 { -e } else { e }; (p, p) }
        // the same in mixed order
        10 => { let e = 4 + (i / 2) as i64 * 17 % 43; let p = if i % 2 == 0 { -e } else { e }; (p, p) }
        // every box twice, some of them flat
        11 => { let k = (i / 2) as i64; let p = ((k * (13 + 6 * dd) + dd) % 23) - 11; (p, p + (k + dd) % 3 * 3) }
        // many distinct points: few values on the first axis, many on the others
        12 => { let p = if d == 0 { (i as i64 * 17) % 41 - 20 } else { (i as i64 * (57 + 20 * dd) + 5 * dd) % 401 - 200 }; (p, p) }
        // many distinct boxes of differing size, some flat
        13 => { let p = if d == 0 { (i as i64 * 17) % 29 - 14 } else { (i as i64 * (57 + 20 * dd) + 5 * dd) % 401 - 200 }; (p, p + (i as i64 + dd) % 4 * if d == 0 { 2 } else { 15 }) }
        // points on a line along x
        _ => { let p = if d == 0 { i as i64 * 2 } else { 0 }; (p, p) }
    }
}
pub fn corners<S: Sc, D: Dim>(kind: usize, i: usize) -> (D::P<S>, D::P<S>) {
    (<D::P<S> as Point>::generate(|d| S::from_i(lay(kind, i, d).0)), <D::P<S> as Point>::generate(|d| S::from_i(lay(kind, i, d).1)))
}
pub fn laid<S: Sc, D: Dim, K: Kind>(kind: usize, n: usize) -> Vec<K::T<S, D>> {
    (0..n).map(|i| { let (l, h) = corners::<S, D>(kind, i); K::make::<S, D>(i as u32, l, h) }).collect()
}
/// Range that covers a layout of n objects with some margin.
pub fn span(kind: usize, n: usize) -> (i64, i64) {
    let v: Vec<i64> = (0..n).flat_map(|i| (0..4).flat_map(move |d| { let x = lay(kind, i, d); [x.0, x.1] })).collect();
    (v.iter().min().copied().unwrap_or(0) - 4, v.iter().max().copied().unwrap_or(0) + 4)
}
pub fn sym_pt<S: Sc, D: Dim>(lo: i64, hi: i64) -> D::P<S> { <D::P<S> as Point>::generate(|_| S::input(lo, hi)) }
/// symbolic in the first `k` dimensions, the given constant elsewhere
pub fn part_pt<S: Sc, D: Dim>(k: usize, other: i64, lo: i64, hi: i64) -> D::P<S> { <D::P<S> as Point>::generate(|d| if d < k { S::input(lo, hi) } else { S::from_i(other) }) }
pub fn sym_corners<S: Sc, D: Dim>(c: &mut Cx, lo: i64, hi: i64) -> (D::P<S>, D::P<S>) {
    let (a, b) = (sym_pt::<S, D>(lo, hi), sym_pt::<S, D>(lo, hi));
    c.assume(le_all(&a, &b));
    (a, b)
}
pub fn sym_box<S: Sc, D: Dim>(c: &mut Cx, lo: i64, hi: i64) -> AABB<D::P<S>> { let (a, b) = sym_corners::<S, D>(c, lo, hi); mk_box(a, b) }
pub fn part_box<S: Sc, D: Dim>(c: &mut Cx, k: usize, other: (i64, i64), lo: i64, hi: i64) -> AABB<D::P<S>> {
    let (a, b) = (part_pt::<S, D>(k, other.0, lo, hi), part_pt::<S, D>(k, other.1, lo, hi));
    c.assume(le_all(&a, &b));
    mk_box(a, b)
}
pub fn sym_objs<S: Sc, D: Dim, K: Kind>(c: &mut Cx, n: usize, lo: i64, hi: i64) -> Vec<K::T<S, D>> {
    (0..n).map(|i| {
        if K::POINT { let p = sym_pt::<S, D>(lo, hi); K::make::<S, D>(i as u32, p, p) }
        else { let (a, b) = sym_corners::<S, D>(c, lo, hi); K::make::<S, D>(i as u32, a, b) }
    }).collect()
}
/// Tree of a given shape with tight envelopes.
pub fn plant<S: Sc, D: Dim, K: Kind, Pa: RTreeParams>(c: &mut Cx, shape: &Sh, objs: &[K::T<S, D>], lo: i64, hi: i64) -> RTree<K::T<S, D>, Pa> {
    build(shape, objs, &mut |parts| tight(c, parts, lo, hi))
}

/// How the tree of a harness comes about.
#[derive(Clone, Debug)]
pub enum Src {
    /// shape, objects all symbolic in lo..=hi
    Sym(Sh, i64, i64),
    /// shape, concrete layout
    Lay(Sh, usize),
    /// bulk loaded from a concrete layout
    Bulk(usize, usize),
    /// inserted one by one from a concrete layout
    Ins(usize, usize),
    /// the first `.1` objects bulk loaded, the rest inserted, every third removed
    Mixed(usize, usize),
}
impl Src {
    pub fn n(&self) -> usize { match self { Src::Sym(s, ..) | Src::Lay(s, _) => s.leaves(), Src::Bulk(_, n) | Src::Ins(_, n) | Src::Mixed(_, n) => *n } }
    pub fn span(&self) -> (i64, i64) {
        match self { Src::Sym(_, l, h) => (*l, *h), Src::Lay(s, k) => span(*k, s.leaves()), Src::Bulk(k, n) | Src::Ins(k, n) | Src::Mixed(k, n) => span(*k, *n) }
    }
    pub fn tree<S: Sc, D: Dim, K: Kind, Pa: RTreeParams>(&self, c: &mut Cx) -> RTree<K::T<S, D>, Pa> {
        let (lo, hi) = self.span();
        match self {
            Src::Sym(s, lo, hi) => { let o = sym_objs::<S, D, K>(c, s.leaves(), *lo, *hi); plant::<S, D, K, Pa>(c, s, &o, *lo, *hi) }
            Src::Lay(s, k) => { let o = laid::<S, D, K>(*k, s.leaves()); plant::<S, D, K, Pa>(c, s, &o, lo, hi) }
            Src::Bulk(k, n) => RTree::bulk_load_with_params(laid::<S, D, K>(*k, *n)),
            Src::Ins(k, n) => { let mut t = RTree::new_with_params(); for o in laid::<S, D, K>(*k, *n) { t.insert(o); } t }
            Src::Mixed(k, n) => {
                let o = laid::<S, D, K>(*k, *n);
                let mut t: RTree<K::T<S, D>, Pa> = RTree::bulk_load_with_params(o[..n / 2].to_vec());
                for x in &o[n / 2..] { t.insert(x.clone()); }
                for x in o.iter().step_by(3) { t.remove(x); }
                t
            }
        }
    }
    pub fn text(&self) -> String {
        match self {
            Src::Sym(s, l, h) => format!("every tree of shape {} over symbolic coordinates in {}..={}", show(s), l, h),
            Src::Lay(s, k) => format!("tree of shape {} over layout {}", show(s), k),
            Src::Bulk(k, n) => format!("bulk load of {} objects of layout {}", n, k),
            Src::Ins(k, n) => format!("{} insertions of layout {}", n, k),
            Src::Mixed(k, n) => format!("{} objects of layout {} bulk loaded, inserted, every third removed", n, k),
        }
    }
}
pub fn show(s: &Sh) -> String {
    match s {
        Sh::L(_) => "o".into(),
        Sh::N(v) if v.len() > 4 && v.iter().all(|x| show(x) == show(&v[0])) => format!("({}x{})", v.len(), show(&v[0])),
        Sh::N(v) => format!("({})", v.iter().map(show).collect::<String>()),
    }
}
/// The stored objects in structure order, found through the public node accessors.
pub fn leaves<T: RTreeObject, Pa: RTreeParams>(t: &RTree<T, Pa>) -> Vec<&T> {
    let mut v = vec![];
    visit(t.root(), 0, &mut |_, _| {}, &mut |o, _| v.push(o));
    v
}
