//! Box kernels (A01-A06).
use crate::*;
use rstar::{Envelope, Point, RTreeObject, AABB};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum E { Contain, Empty, Build, Merge, Many(usize), Center, MinPoint, Monotone, MinMax, MinMaxAt(i64), Bound, BoundAt(i64), Objects(usize), Area, Inter, Perimeter, Mid, EmptyMeasures, NonNeg, NonNegAt(i64), Sort(usize, usize, usize), Part(usize, usize, usize) }

pub struct Env<D> { pub e: E, pub lo: i64, pub hi: i64, pub _p: PhantomData<fn() -> D> }

fn corner<P: Point>(b: &AABB<P>, m: usize) -> P { P::generate(|i| if m >> i & 1 == 1 { b.upper().nth(i) } else { b.lower().nth(i) }) }
/// `e` is the smallest box enclosing the points
fn hull<P: Point>(e: &AABB<P>, pts: &[P]) -> B where P::Scalar: Sc { is_tight(e, &pts.iter().map(|p| AABB::from_point(p.clone())).collect::<Vec<_>>()) }

impl<D: Dim> Harn for Env<D> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let n = <D::P<S> as Point>::DIMENSIONS;
        let (lo, hi) = (self.lo, self.hi);
        let zero = S::from_i(0);
        let bx = |c: &mut Cx| sym_box::<S, D>(c, lo, hi);
        let pt = || sym_pt::<S, D>(lo, hi);
        // a concrete point
        let at = |k: i64| D::P::<S>::generate(|d| S::from_i(k * (d as i64 - 1)));
        match self.e {
            E::Contain => {
                let (a, b, p) = (bx(c), bx(c), pt());
                c.check("contains_point", B::C(a.contains_point(&p)).iff(box_contains_point(&a, &p)));
                let ce = a.contains_envelope(&b);
                c.check("contains_envelope", B::C(ce).iff(box_contains_box(&a, &b)));
                // the same in terms of points
                let both = box_contains_point(&a, &p) & box_contains_point(&b, &p);
                if ce { c.cover("contained"); c.check("a contained box has no point outside", (box_contains_point(&b, &p)).implies(box_contains_point(&a, &p))); }
                else { c.check("a box not contained has a corner outside", !(box_contains_point(&a, &b.lower()) & box_contains_point(&a, &b.upper()))); }
                let it = a.intersects(&b);
                c.check("intersects", B::C(it).iff(boxes_touch(&a, &b)));
                if it { c.cover("intersecting"); let w = D::P::<S>::generate(|i| smax(a.lower().nth(i), b.lower().nth(i))); c.check("intersecting boxes share a point", box_contains_point(&a, &w) & box_contains_point(&b, &w)); }
                else { c.check("boxes that do not intersect share no point", !both); }
                c.check("intersects is symmetric", (b.intersects(&a) == it).into());
                c.check("a box of points is not empty", (!a.is_empty()).into());
            }
            E::Empty => {
                let (a, p) = (bx(c), pt());
                let e = AABB::<D::P<S>>::new_empty();
                c.check("the empty box is empty", e.is_empty().into());
                c.check("the empty box contains no point", (!e.contains_point(&p)).into());
                c.check("the empty box is contained in every box", a.contains_envelope(&e).into());
                c.check("the empty box contains no box", (!e.contains_envelope(&a)).into());
                let full = B::all((0..n).map(|i| a.lower().nth(i).beq(S::min_value()) & a.upper().nth(i).beq(S::max_value())));
                c.check("the empty box intersects nothing", B::C(!e.intersects(&a) && !a.intersects(&e)) | full);
                c.check("merging the empty box changes nothing", box_eq(&a.merged(&e), &a) & box_eq(&e.merged(&a), &a));
                let (mut x, mut y) = (a, e);
                x.merge(&e);
                y.merge(&a);
                c.check("merging the empty box in place changes nothing", box_eq(&x, &a) & box_eq(&y, &a));
                c.check("two empty boxes stay empty", (e.merged(&e).is_empty()).into());
                c.check("a box of no points is empty", AABB::from_points(std::iter::empty::<&D::P<S>>()).is_empty().into());
            }
            E::Build => {
                let (p, q, a) = (pt(), pt(), bx(c));
                c.check("from_corners", hull(&AABB::from_corners(p, q), &[p, q]));
                c.check("from_corners in the other order", box_eq(&AABB::from_corners(q, p), &AABB::from_corners(p, q)));
                c.check("from_point", hull(&AABB::from_point(p), &[p]));
                c.check("a point's envelope", hull(&p.envelope(), &[p]));
                c.check("from_bounds", box_eq(&AABB::from_bounds(a.lower(), a.upper()), &a));
                c.check("from_points of two", hull(&AABB::from_points(&[p, q]), &[p, q]));
            }
            E::Merge => {
                let (a, b) = (bx(c), bx(c));
                let m = a.merged(&b);
                c.check("merged is the smallest enclosing box", is_tight(&m, &[a, b]));
                c.check("merged either way round", box_eq(&b.merged(&a), &m));
                let mut x = a;
                x.merge(&b);
                c.check("merge in place", box_eq(&x, &m));
                c.check("merged with itself", box_eq(&a.merged(&a), &a));
            }
            E::Many(k) => {
                let p: Vec<D::P<S>> = (0..k).map(|_| pt()).collect();
                c.check("from_points", hull(&AABB::from_points(&p), &p));
            }
            E::Center => {
                let (m, p) = (pt(), pt());
                let d = S::input(0, hi);
                let b = AABB::from_center(m, d);
                c.check("box around a centre", box_contains_point(&b, &p).iff(B::all((0..n).map(|i| p.nth(i).ssub(m.nth(i)).ble(d) & m.nth(i).ssub(p.nth(i)).ble(d)))));
                c.check("box around a centre is ordered", le_all(&b.lower(), &b.upper()));
            }
            E::MinPoint => {
                let (a, q, r) = (bx(c), pt(), pt());
                let m = a.min_point(&q);
                c.check("closest point lies in the box", box_contains_point(&a, &m));
                c.check("closest point of a contained point", box_contains_point(&a, &q).implies(eq_all(&m, &q)));
                // per axis: between the query and every point of the box, on the query's side (no arithmetic, hence exact in every number type)
                for i in 0..n {
                    let (x, y, z) = (m.nth(i), q.nth(i), r.nth(i));
                    let near = (y.ble(x) & x.ble(z)) | (z.ble(x) & x.ble(y));
                    c.check("no point of the box is closer", box_contains_point(&a, &r).implies(near));
                }
                if matches!(self.lo, i64::MIN) { return; }
                let d = a.distance_2(&q);
                c.check("distance is that to the closest point", d.beq(point_d2(&m, &q)));
                c.check("distance by definition", d.beq(point_box_d2(&a, &q)));
                if a.contains_point(&q) { c.cover("inside"); c.check("contained point has distance zero", d.beq(zero)); } else { c.cover("outside"); c.check("point outside has positive distance", zero.blt(d)); }
                c.check("distance through the envelope interface", Envelope::distance_2(&a, &q).beq(d));
            }
            E::Monotone => {
                let (a, b, q) = (bx(c), bx(c), pt());
                c.assume(box_contains_box(&a, &b));
                let (x, y) = (Envelope::distance_2(&a, &q), Envelope::distance_2(&b, &q));
                c.check("never farther than a contained box", x.ble(y));
            }
            E::MinMax | E::MinMaxAt(_) => {
                let a = bx(c);
                let q = if let E::MinMaxAt(k) = self.e { at(k) } else { pt() };
                // squares of the offsets of the nearer and the farther face on each axis
                let (mut near, mut far) = (vec![], vec![]);
                for i in 0..n {
                    let (l, u) = (a.lower().nth(i).ssub(q.nth(i)), a.upper().nth(i).ssub(q.nth(i)));
                    let low_nearer = c.split(zero.ble(l.sadd(u)));
                    let (x, y) = if low_nearer { (l, u) } else { (u, l) };
                    near.push(x.smul(x));
                    far.push(y.smul(y));
                }
                let m = a.min_max_dist_2(&q);
                let cand: Vec<S> = (0..n).map(|k| (0..n).fold(zero, |s, i| s.sadd(if i == k { near[i] } else { far[i] }))).collect();
                c.check("not above any candidate", B::all(cand.iter().map(|x| m.ble(*x))));
                c.check("one of the candidates", B::any(cand.iter().map(|x| m.beq(*x))));
            }
            E::Bound | E::BoundAt(_) => {
                // with a concrete query point, also the last side of the box is concrete
                let a = if let E::BoundAt(k) = self.e { part_box::<S, D>(c, n - 1, (k - 1, 2), lo, hi) } else { bx(c) };
                let q = if let E::BoundAt(k) = self.e { at(k) } else { pt() };
                let m = a.min_max_dist_2(&q);
                let d: Vec<S> = (0..1usize << n).map(|k| rstar::PointDistance::distance_2(&corner(&a, k), &q)).collect();
                // an object touches every face; on some face even the farthest point is near enough
                let face = |axis: usize, up: usize| B::all((0..1usize << n).filter(|k| k >> axis & 1 == up).map(|k| d[k].ble(m)));
                c.check("some face lies within the bound", B::any((0..n).flat_map(|x| [face(x, 0), face(x, 1)])));
                c.check("the nearest point of the box lies within the bound", Envelope::distance_2(&a, &q).ble(m));
            }
            E::Objects(k) => {
                let o: Vec<AABB<D::P<S>>> = (0..k).map(|_| bx(c)).collect();
                let q = pt();
                let e = tight(c, &o, lo, hi);
                let m = e.min_max_dist_2(&q);
                c.check("some object lies within the bound", B::any(o.iter().map(|b| point_box_d2(b, &q).ble(m))));
            }
            E::Area => {
                let a = bx(c);
                let f = (0..n).fold(S::from_i(1), |s, i| s.smul(a.upper().nth(i).ssub(a.lower().nth(i))));
                c.check("area", a.area().beq(f));
                c.check("area is not negative", zero.ble(a.area()));
            }
            E::Inter => {
                let (a, b) = (bx(c), bx(c));
                let r = a.intersection_area(&b);
                let f = (0..n).fold(S::from_i(1), |s, i| {
                    let (al, au, bl, bu) = (a.lower().nth(i), a.upper().nth(i), b.lower().nth(i), b.upper().nth(i));
                    let l = if c.split(al.ble(bl)) { bl } else { al };
                    let u = if c.split(au.ble(bu)) { au } else { bu };
                    if c.split(u.ble(l)) { zero } else { s.smul(u.ssub(l)) }
                });
                c.check("intersection area", r.beq(f));
                c.check("no common part, no area", boxes_touch(&a, &b) | r.beq(zero));
                c.check("intersection area is symmetric", b.intersection_area(&a).beq(r));
                c.check("intersection area is not negative", zero.ble(r));
            }
            E::Perimeter => {
                let a = bx(c);
                let unit: AABB<D::P<S>> = mk_box(D::P::<S>::generate(|_| zero), D::P::<S>::generate(|_| S::from_i(1)));
                let f = (0..n).fold(zero, |s, i| s.sadd(a.upper().nth(i).ssub(a.lower().nth(i))));
                // f * perimeter(unit) == n * perimeter(a)
                let pu = unit.perimeter_value();
                c.check("perimeter is proportional to the sides", a.perimeter_value().smul(S::from_i(n as i64)).beq(f.smul(pu)));
                c.check("perimeter of a unit box is positive", zero.blt(pu));
                c.check("perimeter is not negative", zero.ble(a.perimeter_value()));
            }
            E::Mid => {
                let a = bx(c);
                let m = a.center();
                let (one, two) = (S::from_i(1), S::from_i(2));
                // integers round, other numbers do not
                let exact = one / two != zero;
                for i in 0..n {
                    let d = m.nth(i).smul(two).ssub(a.lower().nth(i).sadd(a.upper().nth(i)));
                    c.check("centre", if exact { d.beq(zero) } else { d.ble(one) & zero.ssub(one).ble(d) });
                    c.check("centre lies in the box", a.lower().nth(i).ble(m.nth(i)) & m.nth(i).ble(a.upper().nth(i)));
                }
            }
            E::EmptyMeasures => {
                let e = AABB::<D::P<S>>::new_empty();
                let a = bx(c);
                c.check("area of nothing", e.area().beq(zero));
                c.check("perimeter of nothing", e.perimeter_value().beq(zero));
                c.check("centre of nothing", B::all((0..n).map(|i| e.center().nth(i).beq(zero))));
                c.check("intersection area with nothing", e.intersection_area(&a).beq(zero) & a.intersection_area(&e).beq(zero) & e.intersection_area(&e).beq(zero));
            }
            E::NonNeg | E::NonNegAt(_) => {
                let a = bx(c);
                let b = if let E::NonNegAt(k) = self.e { part_box::<S, D>(c, 0, (-k, k), lo, hi) } else { bx(c) };
                c.check("area is not negative", zero.ble(a.area()));
                c.check("perimeter is not negative", zero.ble(a.perimeter_value()));
                c.check("intersection area is not negative", zero.ble(a.intersection_area(&b)));
                c.check("no common part, no area", boxes_touch(&a, &b) | a.intersection_area(&b).beq(zero));
                c.check("intersection area is symmetric", b.intersection_area(&a).beq(a.intersection_area(&b)));
            }
            E::Sort(axis, k, m) | E::Part(axis, k, m) => {
                // k objects with a symbolic lower bound on the axis, the others laid out
                let sort = matches!(self.e, E::Sort(..));
                let mut v: Vec<Ob<D::P<S>>> = (0..m).map(|i| {
                    let (mut l, mut h) = corners::<S, D>(6, i);
                    if i * k % m.max(1) < k { *l.nth_mut(axis) = S::input(lo, hi); *h.nth_mut(axis) = l.nth(axis).sadd(S::from_i(1 + (i % 3) as i64)); }
                    Ob { id: i as u32, bx: mk_box(l, h) }
                }).collect();
                let orig = v.clone();
                let low = |o: &Ob<D::P<S>>| o.bx.lower().nth(axis);
                if sort {
                    AABB::<D::P<S>>::sort_envelopes(axis, &mut v);
                    c.check("sorted by the lower bound", B::all(v.windows(2).map(|w| low(&w[0]).ble(low(&w[1])))));
                } else {
                    let at = if m <= 8 { c.choose(m) } else { [0, 1, m / 3, m / 2, m - 2, m - 1][c.choose(6)] };
                    AABB::<D::P<S>>::partition_envelopes(axis, &mut v, at);
                    c.check("objects before the position are not greater", B::all(v[..at].iter().map(|o| low(o).ble(low(&v[at])))));
                    c.check("objects after the position are not smaller", B::all(v[at..].iter().map(|o| low(&v[at]).ble(low(o)))));
                }
                c.check("the same objects", (sorted(v.iter().map(|o| o.id).collect()) == (0..m as u32).collect::<Vec<_>>()).into());
                c.check("objects unchanged", B::all(v.iter().map(|o| box_eq(&o.bx, &orig[o.id as usize].bx))));
            }
        }
    }
}

fn add<M: Native, D: Dim>(v: &mut Vec<Harness>, e: E, lo: i64, hi: i64) -> &mut Harness {
    let dims = <D::P<M> as Point>::DIMENSIONS;
    let tname = std::any::type_name::<D>().rsplit(':').next().unwrap();
    let range = if lo == i64::MIN { "every finite value".to_string() } else { format!("coordinates in {lo}..={hi}") };
    let mut h = Harness::new::<M, _>(format!("{e:?}-{tname}-{}", M::MODE.name().split(' ').next().unwrap()), Env::<D> { e, lo, hi, _p: PhantomData }).bounds(format!("{e:?}: all operands symbolic, {dims} dimensions, {range}"));
    h.timeout = 30_000;
    h.tactic = match M::MODE { Mode::Fp(..) => Some("qffp"), Mode::Bv(_) => Some("qfbv"), _ => None };
    h.name = format!("{}-{}", v.len(), h.name);
    v.push(h);
    v.last_mut().unwrap()
}
const F: i64 = i64::MIN;
const W: i64 = 1_000_000_000;
const V: i64 = 100_000_000;
type F6 = vsym::Fl<3, 3>;
type F8 = vsym::Fl<3, 4>;
type F9 = vsym::Fl<4, 5>;

#[inline]
pub fn a01() -> Vec<Harness> {
    let mut v = vec![];
    let v_ = &mut v;
    for e in [E::Contain, E::Empty] {
        add::<i64, D2>(v_, e, -W, W); add::<i64, D3>(v_, e, -W, W); add::<i64, D4>(v_, e, -W, W); add::<i64, T2>(v_, e, -W, W); add::<i64, T3>(v_, e, -W, W);
        add::<i8, D2>(v_, e, -128, 127); add::<i8, D3>(v_, e, -128, 127); add::<i32, D2>(v_, e, i32::MIN as i64, i32::MAX as i64);
        add::<f32, D2>(v_, e, F, 0); add::<f32, D3>(v_, e, F, 0); add::<f64, D2>(v_, e, F, 0); add::<Q, D3>(v_, e, -W, W);
    }
    for h in v.iter_mut() { if h.name.contains("Contain") { h.covers = vec!["contained".into(), "intersecting".into()]; } }
    v
}
#[inline]
pub fn a02() -> Vec<Harness> {
    let mut v = vec![];
    let v_ = &mut v;
    for e in [E::Build, E::Merge, E::Many(1), E::Many(3), E::Empty] {
        add::<i64, D2>(v_, e, -W, W); add::<i64, D3>(v_, e, -W, W); add::<i64, T3>(v_, e, -W, W);
        add::<i8, D2>(v_, e, -128, 127); add::<i32, T2>(v_, e, i32::MIN as i64, i32::MAX as i64);
        if e != E::Many(3) { add::<f32, D2>(v_, e, F, 0); add::<f64, D2>(v_, e, F, 0); add::<f32, D3>(v_, e, F, 0).thorough = e == E::Build || e == E::Merge; }
    }
    add::<i64, D4>(v_, E::Merge, -W, W);
    add::<f32, D2>(v_, E::Many(2), F, 0);
    add::<i64, D2>(v_, E::Many(5), -W, W);
    add::<i64, D3>(v_, E::Many(4), -W, W).thorough = true;
    add::<i64, D2>(v_, E::Center, -W, W); add::<i64, D3>(v_, E::Center, -W, W); add::<i64, T3>(v_, E::Center, -W, W); add::<Q, D2>(v_, E::Center, -W, W); add::<Q, D4>(v_, E::Center, -W, W);
    add::<i16, D2>(v_, E::Center, -16000, 16000);
    v
}
#[inline]
pub fn a03() -> Vec<Harness> {
    let mut v = vec![];
    let v_ = &mut v;
    let e = E::MinPoint;
    add::<i64, D2>(v_, e, -V, V); add::<i64, D3>(v_, e, -V, V); add::<Q, D2>(v_, e, -V, V); add::<Q, D3>(v_, e, -V, V); add::<i64, T2>(v_, e, -V, V); add::<i64, T3>(v_, e, -V, V);
    add::<Q, D4>(v_, e, -V, V).thorough = true;
    add::<f32, D2>(v_, e, F, 0); add::<f64, D2>(v_, e, F, 0); add::<f32, D3>(v_, e, F, 0);
    let e = E::Monotone;
    add::<i64, D2>(v_, e, -V, V); add::<F6, D2>(v_, e, F, 0); add::<Q, D2>(v_, e, -V, V).thorough = true; add::<Q, D3>(v_, e, -V, V).thorough = true; add::<F8, D2>(v_, e, F, 0).thorough = true; add::<F6, D3>(v_, e, F, 0).thorough = true;
    v
}
#[inline]
pub fn a04() -> Vec<Harness> {
    let mut v = vec![];
    let v_ = &mut v;
    let e = E::MinMax;
    add::<Q, D2>(v_, e, -V, V); add::<i64, D2>(v_, e, -V, V); add::<i64, T2>(v_, e, -V, V);
    add::<Q, D3>(v_, E::MinMaxAt(0), -V, V); add::<Q, T3>(v_, E::MinMaxAt(5), -V, V); add::<i64, D3>(v_, E::MinMaxAt(2), -V, V); add::<Q, D4>(v_, E::MinMaxAt(0), -V, V).thorough = true;
    add::<i64, D3>(v_, e, -V, V).thorough = true; add::<Q, D3>(v_, e, -V, V); add::<Q, D4>(v_, e, -V, V).thorough = true;
    let e = E::Bound;
    add::<Q, D2>(v_, e, -V, V); add::<F6, D2>(v_, e, F, 0); add::<i64, D3>(v_, E::BoundAt(1), -V, V); add::<F6, D3>(v_, E::BoundAt(0), F, 0); add::<F6, D3>(v_, E::BoundAt(1), F, 0);
    add::<i64, D2>(v_, e, -V, V).thorough = true; add::<F8, D2>(v_, e, F, 0).thorough = true; add::<F6, D3>(v_, e, F, 0).thorough = true;
    add::<Q, D2>(v_, E::Objects(1), -V, V).thorough = true;
    v
}
#[inline]
pub fn a05() -> Vec<Harness> {
    let mut v = vec![];
    let v_ = &mut v;
    for e in [E::Area, E::Inter, E::Perimeter, E::Mid] {
        let t = e == E::Inter;
        add::<Q, D2>(v_, e, -W, W); add::<Q, D3>(v_, e, -W, W).thorough = t;
        let w = 100_000;
        add::<i64, D2>(v_, e, -w, w); add::<i64, D3>(v_, e, -w, w); add::<i64, T3>(v_, e, -w, w);
        if !t { add::<Q, D4>(v_, e, -W, W); }
    }
    add::<f32, D2>(v_, E::EmptyMeasures, F, 0); add::<f64, D2>(v_, E::EmptyMeasures, F, 0); add::<f32, D3>(v_, E::EmptyMeasures, F, 0); add::<f64, T3>(v_, E::EmptyMeasures, F, 0);
    add::<F6, D2>(v_, E::NonNegAt(1), -6, 6); add::<F6, D2>(v_, E::NonNeg, -6, 6).thorough = true; add::<F6, D3>(v_, E::NonNeg, -1, 1).thorough = true; add::<F8, D2>(v_, E::NonNeg, -7, 7).thorough = true; add::<F9, D2>(v_, E::NonNeg, -100, 100).thorough = true;
    v
}
#[inline]
pub fn a06() -> Vec<Harness> {
    let mut v = vec![];
    let v_ = &mut v;
    for (k, m) in [(1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (2, 22), (3, 12), (1, 60), (2, 45)] { for x in [0, 1] {
        add::<i64, D2>(v_, E::Sort(x, k, m), -40, 40);
        if m > 1 { add::<i64, D2>(v_, E::Part(x, k, m), -40, 40); }
    } }
    for x in 0..3 { add::<i64, D3>(v_, E::Sort(x, 3, 3), -40, 40); add::<i64, D3>(v_, E::Part(x, 3, 4), -40, 40); add::<i64, T3>(v_, E::Sort(x, 2, 24), -40, 40); add::<i64, T3>(v_, E::Part(x, 2, 24), -40, 40); }
    add::<f32, D2>(v_, E::Sort(0, 3, 3), F, 0); add::<f32, D2>(v_, E::Part(1, 3, 3), F, 0); add::<i8, D2>(v_, E::Sort(1, 4, 4), -128, 120); add::<i8, D2>(v_, E::Part(0, 4, 4), -128, 120);
    for x in [0, 1] { add::<i64, D2>(v_, E::Sort(x, 6, 6), -40, 40).thorough = true; add::<i64, D2>(v_, E::Part(x, 6, 6), -40, 40).thorough = true; add::<i64, D2>(v_, E::Part(x, 3, 100), -40, 40).thorough = true; add::<i64, D2>(v_, E::Sort(x, 3, 60), -40, 40).thorough = true; }
    v
}
