//! Built-in object and point types (P01-P04).
use crate::*;
use rstar::primitives::{CachedEnvelope, GeomWithData, Line, ObjectRef, PointWithData, Rectangle};
use rstar::{Envelope, Point, PointDistance, RTreeObject, AABB};
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::Arc;

fn mk_bounds(dims: usize, text: &str, lo: i64, hi: i64) -> String { if lo == i64::MIN { format!("{text}, {dims} dimensions, every finite value") } else { format!("{text}, {dims} dimensions, coordinates in {lo}..={hi}") } }
fn push<'a, M: Native, D: Dim, H: Harn>(v: &'a mut Vec<Harness>, name: String, text: &str, lo: i64, hi: i64, h: H) -> &'a mut Harness {
    let t = std::any::type_name::<D>().rsplit(':').next().unwrap();
    let dims = <D::P<M> as Point>::DIMENSIONS;
    let mut h = Harness::new::<M, _>(format!("{}-{}-{}-{}", v.len(), name, t, M::MODE.name().split(' ').next().unwrap()), h).bounds(mk_bounds(dims, text, lo, hi));
    h.timeout = 30_000;
    h.tactic = match M::MODE { Mode::Fp(..) => Some("qffp"), Mode::Bv(_) => Some("qfbv"), _ => None };
    v.push(h);
    v.last_mut().unwrap()
}
/// some object answers exactly this threshold query
fn threshold<S: Sc, O: PointDistance + ?Sized>(c: &mut Cx, what: &str, o: &O, q: &<O::Envelope as Envelope>::Point, d: S, m: S)
where <O::Envelope as Envelope>::Point: Point<Scalar = S> {
    match o.distance_2_if_less_or_equal(q, m) {
        Some(x) => { c.cover("within"); c.check(&format!("{what}: only distances up to the threshold"), d.ble(m)); c.check(&format!("{what}: the distance is returned"), x.beq(d)); }
        None => { c.cover("beyond"); c.check(&format!("{what}: every distance up to the threshold"), !d.ble(m)); }
    }
}

// ---------------------------------------------------------------- P01
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum L { Fixed([i64; 8]), Frac([i64; 8], i64), Axis(usize), From(usize), Zero, Size, SizeZero }
pub struct Lines<D> { pub l: L, pub lo: i64, pub hi: i64, pub _p: PhantomData<fn() -> D> }
impl<D: Dim> Harn for Lines<D> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let n = <D::P<S> as Point>::DIMENSIONS;
        let (lo, hi) = (self.lo, self.hi);
        let zero = S::from_i(0);
        let sym = || sym_pt::<S, D>(lo, hi);
        let (a, b) = match self.l {
            L::Fixed(k) => (D::P::<S>::generate(|i| S::from_i(k[i])), D::P::<S>::generate(|i| S::from_i(k[4 + i]))),
            // coordinates that are fractions
            L::Frac(k, m) => { let f = |x: i64| S::from_i(x) / S::from_i(m); (D::P::<S>::generate(|i| f(k[i])), D::P::<S>::generate(|i| f(k[4 + i]))) }
            // along one axis, both ends unknown
            L::Axis(x) => { let a = sym(); let t = S::input(lo, hi); (a, D::P::<S>::generate(|i| if i == x { t } else { a.nth(i) })) }
            // one end in the origin, the other unknown in the first k coordinates
            L::From(k) => (D::P::<S>::generate(|_| zero), part_pt::<S, D>(k, 2, lo, hi)),
            L::Zero | L::SizeZero => { let a = sym(); (a, a) }
            L::Size => (sym(), sym()),
        };
        let line = Line::new(a, b);
        c.check("end points are kept", eq_all(&line.from, &a) & eq_all(&line.to, &b));
        c.check("envelope is the smallest box around the end points", is_tight(&line.envelope(), &[AABB::from_point(a), AABB::from_point(b)]));
        if !matches!(self.l, L::Zero) || lo != i64::MIN { c.check("squared length", line.length_2().beq(point_d2(&a, &b))); }
        if matches!(self.l, L::Size | L::SizeZero) { c.check("squared length either way round", Line::new(b, a).length_2().beq(line.length_2())); return; }
        let q = sym();
        if self.l == L::Zero {
            c.check("zero length: nearest point is the point", eq_all(&line.nearest_point(&q), &a));
            c.check("zero length: distance is that of the point", PointDistance::distance_2(&line, &q).beq(PointDistance::distance_2(&a, &q)));
            return;
        }
        if let L::Axis(_) | L::From(_) = self.l { c.assume(!eq_all(&a, &b)); }
        let m = line.nearest_point(&q);
        // on the segment
        c.check("nearest point lies in the envelope", box_contains_point(&line.envelope(), &m));
        for i in 0..n { for j in i + 1..n {
            let (x, y) = ((b.nth(i).ssub(a.nth(i)), b.nth(j).ssub(a.nth(j))), (m.nth(i).ssub(a.nth(i)), m.nth(j).ssub(a.nth(j))));
            c.check("nearest point lies on the line", x.0.smul(y.1).beq(x.1.smul(y.0)));
        } }
        // the segment lies on the far side of the plane through the nearest point: no point of it is closer
        for e in [&a, &b] {
            let s = (0..n).fold(zero, |s, i| s.sadd(q.nth(i).ssub(m.nth(i)).smul(e.nth(i).ssub(m.nth(i)))));
            c.check("no point of the segment is closer", s.ble(zero));
        }
        let d = PointDistance::distance_2(&line, &q);
        c.check("distance is that to the nearest point", d.beq(point_d2(&m, &q)));
        c.check("not farther than the end points", d.ble(point_d2(&a, &q)) & d.ble(point_d2(&b, &q)));
        if eq_all(&m, &a) == B::C(true) { c.cover("first end"); } else if eq_all(&m, &b) == B::C(true) { c.cover("second end"); } else { c.cover("between"); }
    }
}
#[inline]
pub fn p01() -> Vec<Harness> {
    let mut v = vec![];
    let v_ = &mut v;
    const W: i64 = 1_000_000;
    fn add<M: Native, D: Dim>(v: &mut Vec<Harness>, l: L, lo: i64, hi: i64) -> &mut Harness {
        let text = match l { L::Frac(k, m) => format!("segment from {:?}/{m} to {:?}/{m}, every query", &k[..4], &k[4..]), L::Fixed(k) => format!("segment from {:?} to {:?}, every query", &k[..4], &k[4..]), L::Axis(x) => format!("every segment along axis {x}, every query"), L::From(k) => format!("segments from the origin to every point of {k} coordinates, every query"), L::Zero => "every zero-length segment, every query".into(), _ => "every segment".into() };
        let tag = match l { L::Frac(k, m) => format!("Frac{k:?}/{m}").replace(' ', ""), L::Fixed(k) => format!("Fixed{k:?}").replace(' ', ""), l => format!("{l:?}") };
        push::<M, D, _>(v, tag, &text, lo, hi, Lines::<D> { l, lo, hi, _p: PhantomData })
    }
    let segs: &[[i64; 8]] = &[[0, 0, 0, 0, 4, 2, 1, 3], [-3, 5, 2, 1, 2, -1, -2, 1], [1, 1, 1, 1, 1, 7, 1, 1], [7, -2, 3, 0, -1, -2, 3, 0], [100, 3, -40, 8, -37, 11, 1000, -8], [2, 3, 9, 9, 2, 3, -1, 9]];
    for s in segs {
        let flat = s[0] == s[4] && s[1] == s[5];
        let three = ["first end", "second end", "between"].map(String::from).to_vec();
        if !flat { add::<Q, D2>(v_, L::Fixed(*s), -W, W).covers = three.clone(); add::<Q, T2>(v_, L::Fixed(*s), -W, W).covers = three.clone(); }
        add::<Q, D3>(v_, L::Fixed(*s), -W, W).covers = three.clone();
        add::<Q, T3>(v_, L::Fixed(*s), -W, W).covers = three.clone();
        add::<Q, D4>(v_, L::Fixed(*s), -W, W).covers = three.clone();
        for m in [9, 1000] {
            if !flat { add::<Q, D2>(v_, L::Frac(*s, m), -W, W).covers = three.clone(); }
            add::<Q, T3>(v_, L::Frac(*s, m), -W, W).covers = three.clone();
        }
    }
    // every direction, from several places
    for i in 0..81i64 {
        let dir = [i % 3 - 1, i / 3 % 3 - 1, i / 9 % 3 - 1, i / 27 - 1];
        if dir[0] == 0 && dir[1] == 0 { continue; }
        let len = 1 + i % 4;
        let a = [i % 7 - 3, i % 5 - 2, i % 6 - 3, i % 4];
        let s = [a[0], a[1], a[2], a[3], a[0] + dir[0] * len, a[1] + dir[1] * (1 + i % 3), a[2] + dir[2] * len, a[3] + dir[3]];
        let three = ["first end", "second end", "between"].map(String::from).to_vec();
        if i / 9 == 4 { add::<Q, D2>(v_, L::Fixed(s), -W, W).covers = three.clone(); }
        if i / 27 == 1 { add::<Q, D3>(v_, L::Fixed(s), -W, W).covers = three.clone(); }
        add::<Q, D4>(v_, L::Fixed(s), -W, W).covers = three;
    }
    for x in 0..2 { add::<Q, D2>(v_, L::Axis(x), -W, W).thorough = true; }
    for x in 0..3 { add::<Q, D3>(v_, L::Axis(x), -W, W).thorough = true; }
    add::<Q, D2>(v_, L::From(1), -W, W); add::<Q, D2>(v_, L::From(2), -W, W).thorough = true; add::<Q, D3>(v_, L::From(1), -W, W); add::<Q, T2>(v_, L::From(1), -W, W); add::<Q, T3>(v_, L::From(1), -W, W);
    add::<Q, D2>(v_, L::Zero, -W, W); add::<Q, D3>(v_, L::Zero, -W, W); add::<Q, T3>(v_, L::Zero, -W, W);
    add::<f32, D2>(v_, L::Zero, -W, W); add::<f64, D2>(v_, L::Zero, -W, W).thorough = true; add::<f32, D3>(v_, L::Zero, -W, W).thorough = true;
    for l in [L::Size, L::SizeZero] { add::<Q, D2>(v_, l, -W, W); add::<Q, D3>(v_, l, -W, W); add::<i64, D2>(v_, l, -W, W); add::<i64, T3>(v_, l, -W, W); add::<i64, D4>(v_, l, -W, W); }
    v
}

// ---------------------------------------------------------------- P02
/// a user object that relies on every default
#[derive(Clone, PartialEq, Debug)]
pub struct Plain<P: Point> { bx: AABB<P>, d: P::Scalar }
impl<P: Point> RTreeObject for Plain<P> { type Envelope = AABB<P>; fn envelope(&self) -> AABB<P> { self.bx.clone() } }
impl<P: Point> PointDistance for Plain<P> where P::Scalar: Sc { fn distance_2(&self, _: &P) -> P::Scalar { self.d } }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum O { Point, Rect, Corners, Data, Cached, Default, LineTh, PointData }
pub struct Objs<D> { pub o: O, pub lo: i64, pub hi: i64, pub exact: bool, pub _p: PhantomData<fn() -> D> }
impl<D: Dim> Harn for Objs<D> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let (lo, hi) = (self.lo, self.hi);
        let zero = S::from_i(0);
        let q = sym_pt::<S, D>(lo, hi);
        let m = if lo == i64::MIN { S::input(lo, hi) } else { S::input(-3, (hi - lo).saturating_mul(hi - lo).min(1 << 50)) };
        match self.o {
            O::Point => {
                let p = sym_pt::<S, D>(lo, hi);
                let d = PointDistance::distance_2(&p, &q);
                let has = p.contains_point(&q);
                c.check("a point contains only itself", B::C(has).iff(eq_all(&p, &q)));
                c.check("contained: distance zero", (!B::C(has)) | d.beq(zero));
                if self.exact { c.check("squared distance", d.beq(point_d2(&p, &q))); c.check("distance zero: contained", B::C(has) | !d.beq(zero)); }
                threshold(c, "point", &p, &q, d, m);
            }
            O::Rect => {
                let b = sym_box::<S, D>(c, lo, hi);
                let r = Rectangle::from_aabb(b);
                c.check("corners are those of the box", eq_all(&r.lower(), &b.lower()) & eq_all(&r.upper(), &b.upper()));
                c.check("envelope is the box", box_eq(&r.envelope(), &b));
                let has = r.contains_point(&q);
                let d = r.distance_2(&q);
                let near = r.nearest_point(&q);
                c.check("contains exactly the points of the box", B::C(has).iff(box_contains_point(&b, &q)));
                c.check("nearest point lies inside", box_contains_point(&b, &near));
                c.check("contained: nearest point is the query", (!B::C(has)) | eq_all(&near, &q));
                c.check("contained: distance zero", (!B::C(has)) | d.beq(zero));
                c.check("distance is that to the nearest point", d.beq(PointDistance::distance_2(&near, &q)));
                if self.exact { c.check("squared distance", d.beq(point_box_d2(&b, &q))); c.check("distance zero: contained", B::C(has) | !d.beq(zero)); }
                threshold(c, "rectangle", &r, &q, d, m);
            }
            O::Corners => {
                let (a, b) = (sym_pt::<S, D>(lo, hi), sym_pt::<S, D>(lo, hi));
                let r = Rectangle::from_corners(a, b);
                let hull = is_tight(&mk_box(r.lower(), r.upper()), &[AABB::from_point(a), AABB::from_point(b)]);
                c.check("corners enclose the given ones", hull);
                c.check("any corner order", eq_all(&Rectangle::from_corners(b, a).lower(), &r.lower()) & eq_all(&Rectangle::from_corners(b, a).upper(), &r.upper()));
                let f: Rectangle<D::P<S>> = r.envelope().into();
                c.check("from its box", eq_all(&f.lower(), &r.lower()) & eq_all(&f.upper(), &r.upper()));
                c.cover("within"); c.cover("beyond");
            }
            O::Data => {
                let b = sym_box::<S, D>(c, lo, hi);
                let o = GeomWithData::new(Rectangle::from_aabb(b), 7u8);
                let d = o.distance_2(&q);
                if self.exact { c.check("squared distance", d.beq(point_box_d2(&b, &q))); }
                c.check("contains", B::C(o.contains_point(&q)).iff(box_contains_point(&b, &q)));
                threshold(c, "rectangle with data", &o, &q, d, m);
            }
            O::Cached => {
                let b = sym_box::<S, D>(c, lo, hi);
                let o = CachedEnvelope::new(Ob { id: 0, bx: b });
                let d = o.distance_2(&q);
                if self.exact { c.check("squared distance", d.beq(point_box_d2(&b, &q))); }
                threshold(c, "cached envelope", &o, &q, d, m);
            }
            O::PointData => {
                let p = sym_pt::<S, D>(lo, hi);
                #[allow(deprecated)]
                let o = PointWithData::new(1u8, p);
                let d = o.distance_2(&q);
                c.check("distance of the point", d.beq(PointDistance::distance_2(&p, &q)));
                c.check("contains its point", B::C(o.contains_point(&q)).iff(eq_all(&p, &q)));
                c.check("envelope of the point", box_eq(&o.envelope(), &AABB::from_point(p)));
                c.check("position", eq_all(o.position(), &p));
                threshold(c, "point with data", &o, &q, d, m);
            }
            O::Default => {
                // any distance not below that of the envelope
                let o = Plain { bx: sym_box::<S, D>(c, lo, hi), d: S::input(0, (hi - lo).saturating_mul(hi - lo).saturating_mul(4).min(1 << 52)) };
                c.assume(point_box_d2(&o.bx, &q).ble(o.d));
                let has = o.contains_point(&q);
                c.check("contained if and only if the distance is zero", B::C(has).iff(o.d.beq(zero)));
                threshold(c, "user object", &o, &q, o.d, m);
            }
            O::LineTh => {
                let l = Line::new(D::P::<S>::generate(|i| S::from_i([1, -2, 3, 5][i])), D::P::<S>::generate(|i| S::from_i([4, 2, 3, -5][i])));
                let d = PointDistance::distance_2(&l, &q);
                c.check("contained if and only if the distance is zero", B::C(l.contains_point(&q)).iff(d.beq(zero)));
                threshold(c, "segment", &l, &q, d, m);
            }
        }
    }
}
#[inline]
pub fn p02() -> Vec<Harness> {
    let mut v = vec![];
    let v_ = &mut v;
    const W: i64 = 1_000_000;
    const F: i64 = i64::MIN;
    type F6 = Fl<3, 3>;
    fn add<M: Native, D: Dim>(v: &mut Vec<Harness>, o: O, lo: i64, hi: i64) -> &mut Harness {
        let exact = matches!(M::MODE, Mode::Int | Mode::Real);
        let h = push::<M, D, _>(v, format!("{o:?}"), &format!("{o:?}: every object, query and threshold"), lo, hi, Objs::<D> { o, lo, hi, exact, _p: PhantomData });
        h.covers = vec!["within".into(), "beyond".into()];
        h
    }
    for o in [O::Point, O::Rect, O::Corners, O::Data, O::Cached, O::PointData] {
        add::<i64, D2>(v_, o, -W, W); add::<i64, T2>(v_, o, -W, W); add::<i64, D3>(v_, o, -W, W); add::<Q, D2>(v_, o, -W, W); add::<Q, T3>(v_, o, -W, W);
        add::<F6, D2>(v_, o, F, 0);
        add::<f32, D2>(v_, o, F, 0).thorough = o != O::Corners && o != O::Point;
    }
    for o in [O::Point, O::Corners] { add::<i8, D2>(v_, o, -3, 3); add::<i64, D4>(v_, o, -W, W); add::<f64, D2>(v_, o, F, 0).thorough = o == O::Point; }
    add::<i64, D2>(v_, O::Default, -W, W); add::<Q, D2>(v_, O::Default, -W, W); add::<i64, D3>(v_, O::Default, -W, W); add::<i64, T2>(v_, O::Default, -W, W);
    add::<Q, D2>(v_, O::LineTh, -W, W); add::<Q, D3>(v_, O::LineTh, -W, W);
    v
}

// ---------------------------------------------------------------- P03
/// an object whose three answers are unrelated to each other and depend on all their arguments
#[derive(Clone, PartialEq, Debug)]
pub struct Odd<P: Point> { bx: AABB<P>, a: P::Scalar, k: P::Scalar, t: P::Scalar }
fn mix<P: Point>(p: &P) -> P::Scalar where P::Scalar: Sc { (0..P::DIMENSIONS).fold(P::Scalar::from_i(0), |s, i| s.sadd(p.nth(i).smul(P::Scalar::from_i(2 * i as i64 + 3)))) }
impl<P: Point> RTreeObject for Odd<P> { type Envelope = AABB<P>; fn envelope(&self) -> AABB<P> { self.bx.clone() } }
impl<P: Point> PointDistance for Odd<P> where P::Scalar: Sc {
    fn distance_2(&self, p: &P) -> P::Scalar { self.a.sadd(mix(p)) }
    fn contains_point(&self, p: &P) -> bool { decide(mix(p).blt(self.k)) }
    fn distance_2_if_less_or_equal(&self, p: &P, m: P::Scalar) -> Option<P::Scalar> { if decide(m.sadd(mix(p)).blt(self.t)) { None } else { Some(m.smul(P::Scalar::from_i(5)).ssub(mix(p)).sadd(self.t)) } }
}
fn decide(b: B) -> bool { with_cx(|c| c.split(b)) }
fn same_answers<S: Sc, P: Pt<Scalar = S>, A: PointDistance<Envelope = AABB<P>> + ?Sized, C: PointDistance<Envelope = AABB<P>> + ?Sized>(c: &mut Cx, what: &str, inner: &A, outer: &C, q: &P, m: S) {
    c.check(&format!("{what}: envelope"), box_eq(&inner.envelope(), &outer.envelope()));
    c.check(&format!("{what}: distance"), inner.distance_2(q).beq(outer.distance_2(q)));
    c.check(&format!("{what}: containment"), (inner.contains_point(q) == outer.contains_point(q)).into());
    match (inner.distance_2_if_less_or_equal(q, m), outer.distance_2_if_less_or_equal(q, m)) {
        (Some(a), Some(b)) => { c.cover("some"); c.check(&format!("{what}: thresholded distance"), a.beq(b)); }
        (None, None) => c.cover("none"),
        _ => c.check(&format!("{what}: threshold"), false.into()),
    }
}
pub struct Wrap<D> { pub lo: i64, pub hi: i64, pub _p: PhantomData<fn() -> D> }
impl<D: Dim> Harn for Wrap<D> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let (lo, hi) = (self.lo, self.hi);
        let o = Odd { bx: sym_box::<S, D>(c, lo, hi), a: S::input(lo, hi), k: S::input(lo, hi), t: S::input(lo, hi) };
        let q = sym_pt::<S, D>(lo, hi);
        let m = S::input(lo, hi);
        let data = S::input(lo, hi);
        match c.choose(9) {
            0 => {
                let mut w = GeomWithData::new(o.clone(), data);
                same_answers(c, "attached data", &o, &w, &q, m);
                c.check("attached data is kept", w.data.beq(data));
                same_odd(c, "geometry is kept", w.geom(), &o);
                w.data = m;
                c.check("attached data can be changed", w.data.beq(m));
                same_answers(c, "attached data changed", &o, &w, &q, m);
                let w2 = w.clone();
                c.check("cloned data", w2.data.beq(m));
                same_answers(c, "cloned wrapper", &o, &w2, &q, m);
            }
            1 => { let w = CachedEnvelope::new(o.clone()); same_answers(c, "cached envelope", &o, &w, &q, m); same_odd(c, "cached: geometry is kept", &w, &o); same_answers(c, "cached envelope clone", &o, &w.clone(), &q, m); }
            2 => { let w = ObjectRef::new(&o); same_answers(c, "reference", &o, &w, &q, m); same_odd(c, "reference: geometry is kept", &w, &o); same_answers(c, "copied reference", &o, &{ w }, &q, m); }
            3 => same_answers(c, "Rc", &o, &Rc::new(o.clone()), &q, m),
            4 => same_answers(c, "Arc", &o, &Arc::new(o.clone()), &q, m),
            5 => { let w = CachedEnvelope::new(GeomWithData::new(Rc::new(o.clone()), data)); same_answers(c, "cached data of Rc", &o, &w, &q, m); c.check("nested data", w.data.beq(data)); same_odd(c, "nested geometry", w.geom(), &o); }
            6 => { let a = Arc::new(CachedEnvelope::new(o.clone())); let w = GeomWithData::new(ObjectRef::new(&a), 3u8); same_answers(c, "data of reference of Arc of cached", &o, &w, &q, m); c.check("nested data", (w.data == 3).into()); }
            7 => { let w: Rc<dyn PointDistance<Envelope = AABB<D::P<S>>>> = Rc::new(o.clone()); same_answers(c, "Rc of a trait object", &o, &w, &q, m); let w: Arc<dyn PointDistance<Envelope = AABB<D::P<S>>>> = Arc::new(o.clone()); same_answers(c, "Arc of a trait object", &o, &w, &q, m); }
            _ => {
                let p = sym_pt::<S, D>(lo, hi);
                #[allow(deprecated)]
                let mut w = PointWithData::new(data, p);
                let m = S::input(0, (hi - lo).saturating_mul(hi - lo).min(1 << 50));
                same_answers(c, "point with data", &p, &w, &q, m);
                c.check("point with data: data", w.data.beq(data));
                w.data = m;
                c.check("point with data: position", eq_all(w.position(), &p));
                c.check("point with data: new data", w.data.beq(m));
            }
        }
    }
}
fn same_odd<P: Pt>(c: &mut Cx, what: &str, a: &Odd<P>, b: &Odd<P>) where P::Scalar: Sc { c.check(what, box_eq(&a.bx, &b.bx) & a.a.beq(b.a) & a.k.beq(b.k) & a.t.beq(b.t)); }
#[inline]
pub fn p03() -> Vec<Harness> {
    let mut v = vec![];
    let text = "every wrapper around an object with arbitrary envelope, distance, containment and threshold answers";
    macro_rules! add { ($m:ty, $d:ty, $w:expr) => { push::<$m, $d, _>(&mut v, "Wrap".into(), text, -$w, $w, Wrap::<$d> { lo: -$w, hi: $w, _p: PhantomData }).covers = vec!["some".into(), "none".into()]; } }
    add!(i64, D2, 1_000_000); add!(i64, T2, 1_000_000); add!(i64, D3, 1_000_000); add!(i64, T3, 1_000_000); add!(Q, D2, 1_000_000); add!(Q, D4, 1_000_000);
    v
}

// ---------------------------------------------------------------- P04
pub trait AnyPt: Send + Sync + 'static { type P<S: Sc>: Point<Scalar = S>; const N: usize; const NAME: &'static str; fn read<S: Sc>(p: &Self::P<S>) -> Vec<S>; }
macro_rules! arr { ($t:ident $n:expr) => { pub struct $t; impl AnyPt for $t { type P<S: Sc> = [S; $n]; const N: usize = $n; const NAME: &'static str = stringify!($t); fn read<S: Sc>(p: &[S; $n]) -> Vec<S> { p.to_vec() } } } }
macro_rules! one { ($s:ident $i:tt) => { $s } }
macro_rules! tup { ($t:ident $n:expr, $($i:tt)+) => { pub struct $t; impl AnyPt for $t { type P<S: Sc> = ($(one!(S $i),)+); const N: usize = $n; const NAME: &'static str = stringify!($t); fn read<S: Sc>(p: &Self::P<S>) -> Vec<S> { vec![$(p.$i),+] } } } }
arr!(A1 1); arr!(A2 2); arr!(A3 3); arr!(A4 4); arr!(A5 5); arr!(A6 6); arr!(A7 7); arr!(A8 8); arr!(A9 9); arr!(A10 10); arr!(A11 11); arr!(A16 16);
tup!(U1 1, 0); tup!(U2 2, 0 1); tup!(U3 3, 0 1 2); tup!(U4 4, 0 1 2 3); tup!(U5 5, 0 1 2 3 4); tup!(U6 6, 0 1 2 3 4 5); tup!(U7 7, 0 1 2 3 4 5 6); tup!(U8 8, 0 1 2 3 4 5 6 7); tup!(U9 9, 0 1 2 3 4 5 6 7 8); tup!(U10 10, 0 1 2 3 4 5 6 7 8 9);
pub struct Mint2; pub struct Mint3;
impl AnyPt for Mint2 { type P<S: Sc> = mint::Point2<S>; const N: usize = 2; const NAME: &'static str = "mint2"; fn read<S: Sc>(p: &mint::Point2<S>) -> Vec<S> { vec![p.x, p.y] } }
impl AnyPt for Mint3 { type P<S: Sc> = mint::Point3<S>; const N: usize = 3; const NAME: &'static str = "mint3"; fn read<S: Sc>(p: &mint::Point3<S>) -> Vec<S> { vec![p.x, p.y, p.z] } }
pub struct Coords<A> { pub lo: i64, pub hi: i64, pub _p: PhantomData<fn() -> A> }
impl<A: AnyPt> Harn for Coords<A> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let vals: Vec<S> = (0..A::N).map(|_| S::input(self.lo, self.hi)).collect();
        let w = S::input(self.lo, self.hi);
        let mut order = vec![];
        let p = A::P::<S>::generate(|i| { order.push(i); vals[i] });
        c.check("dimension count", (<A::P<S> as Point>::DIMENSIONS == A::N).into());
        c.check("generated in ascending order, each once", (order == (0..A::N).collect::<Vec<_>>()).into());
        let all = |a: &A::P<S>, v: &[S]| B::all((0..A::N).map(|i| a.nth(i).beq(v[i])));
        c.check("reading back", all(&p, &vals));
        c.check("fields in order", B::all(A::read(&p).iter().zip(&vals).map(|(a, b)| a.beq(*b))));
        for i in 0..A::N {
            let mut x = p.clone();
            let mut e = vals.clone();
            e[i] = w;
            c.check("mutable read", x.nth_mut(i).beq(vals[i]));
            *x.nth_mut(i) = w;
            c.check("writing changes exactly one coordinate", all(&x, &e));
            c.check("the copy is unaffected", all(&p, &vals));
        }
    }
}
#[inline]
pub fn p04() -> Vec<Harness> {
    let mut v = vec![];
    fn add<M: Native, A: AnyPt>(v: &mut Vec<Harness>, lo: i64, hi: i64) {
        let mut h = Harness::new::<M, _>(format!("{}-{}-{}", v.len(), A::NAME, M::MODE.name().split(' ').next().unwrap()), Coords::<A> { lo, hi, _p: PhantomData }).bounds(format!("{}: {} coordinates, every value of {}", A::NAME, A::N, M::MODE.name()));
        h.tactic = match M::MODE { Mode::Fp(..) => Some("qffp"), Mode::Bv(_) => Some("qfbv"), _ => None };
        v.push(h);
    }
    macro_rules! each { ($($a:ident)*) => { $( add::<i64, $a>(&mut v, i64::MIN, i64::MAX); add::<i8, $a>(&mut v, -128, 127); add::<f64, $a>(&mut v, i64::MIN, 0); add::<f32, $a>(&mut v, i64::MIN, 0); )* } }
    each!(A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 A11 A16 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 Mint2 Mint3);
    v
}
