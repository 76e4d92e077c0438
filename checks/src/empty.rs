//! Empty trees (X03): every query and removal with operands over the whole range of the number type.
use crate::*;
use rstar::{DefaultParams, Envelope, Point, RTree, RTreeObject, RTreeParams, SelectionFunction, AABB};
use std::ops::ControlFlow;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How { New, Default, BulkNothing, Removed(usize), RemovedAt(usize), Drained(usize), DrainedIn(usize), DrainedNear(usize), Popped(usize), Leaked(usize) }
pub struct Empty<D, K, Pa> { pub how: How, pub lo: i64, pub hi: i64, pub bulk: bool, pub _p: PhantomData<fn() -> (D, K, Pa)> }

/// selects everything
struct Any;
impl<T: RTreeObject> SelectionFunction<T> for Any { fn should_unpack_parent(&self, _: &T::Envelope) -> bool { true } }

/// objects with small coordinates, lying close together
fn small<S: Sc, D: Dim, K: Kind>(n: usize) -> Vec<K::T<S, D>> {
    (0..n).map(|i| {
        let lo = <D::P<S> as Point>::generate(|d| S::from_i([(i % 3) as i64, (i / 3) as i64][d % 2]));
        let hi = if K::POINT { lo } else { <D::P<S> as Point>::generate(|d| S::from_i([(i % 3) as i64, (i / 3) as i64][d % 2] + 1)) };
        K::make::<S, D>(i as u32, lo, hi)
    }).collect()
}
fn fill<S: Sc, D: Dim, K: Kind, Pa: RTreeParams + Clone>(n: usize, bulk: bool) -> RTree<K::T<S, D>, Pa> {
    if bulk { return RTree::bulk_load_with_params(small::<S, D, K>(n)); }
    let mut t = RTree::new_with_params();
    for o in small::<S, D, K>(n) { t.insert(o); }
    t
}
impl<D: Dim, K: Kind, Pa: RTreeParams + Clone + 'static> Empty<D, K, Pa> {
    fn make<S: Sc, Qa: RTreeParams + Clone>(&self) -> RTree<K::T<S, D>, Qa> {
        let all = || AABB::from_corners(<D::P<S> as Point>::generate(|_| S::from_i(-1)), <D::P<S> as Point>::generate(|_| S::from_i(5)));
        match self.how {
            How::New => RTree::new_with_params(),
            How::Default => Default::default(),
            How::BulkNothing => RTree::bulk_load_with_params(vec![]),
            How::Removed(n) => { let mut t = fill::<S, D, K, Qa>(n, self.bulk); for o in small::<S, D, K>(n) { t.remove(&o); } t }
            How::RemovedAt(n) => { let mut t = fill::<S, D, K, Qa>(n, self.bulk); for o in small::<S, D, K>(n).iter().rev() { let p = K::bx::<S, D>(o).lower(); while t.remove_at_point(p).is_some() {} } t }
            How::Drained(n) => { let mut t = fill::<S, D, K, Qa>(n, self.bulk); t.drain().count(); t }
            How::DrainedIn(n) => { let mut t = fill::<S, D, K, Qa>(n, self.bulk); if n % 2 == 0 { t.drain_in_envelope(all()).count(); } else { t.drain_in_envelope_intersecting(all()).count(); } t }
            How::DrainedNear(n) => { let mut t = fill::<S, D, K, Qa>(n, self.bulk); t.drain_within_distance(<D::P<S> as Point>::generate(|_| S::from_i(1)), S::from_i(50)).count(); t }
            How::Popped(n) => { let mut t = fill::<S, D, K, Qa>(n, self.bulk); while t.size() > 0 { if t.pop_nearest_neighbor(<D::P<S> as Point>::generate(|_| S::from_i(1))).is_none() { break; } } t }
            How::Leaked(n) => { let mut t = fill::<S, D, K, Qa>(n, self.bulk); let mut d = t.drain(); d.next(); std::mem::forget(d); t }
        }
    }
}

fn still_empty<S: Sc, D: Dim, K: Kind, Pa: RTreeParams + Clone>(c: &mut Cx, tag: &str, t: &RTree<K::T<S, D>, Pa>) {
    c.check(&format!("{tag}: the tree stays empty"), (t.size() == 0 && t.root().children().is_empty() && t.iter().next().is_none()).into());
    c.check(&format!("{tag}: the root's envelope is the empty one"), is_empty_box(&t.root().envelope()));
}

impl<D: Dim, K: Kind, Pa: RTreeParams + Clone + 'static> Harn for Empty<D, K, Pa> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let mut t = self.make::<S, Pa>();
        still_empty::<S, D, K, Pa>(c, "emptied", &t);
        let p = sym_pt::<S, D>(self.lo, self.hi);
        let (a, b) = (sym_pt::<S, D>(self.lo, self.hi), sym_pt::<S, D>(self.lo, self.hi));
        c.assume(le_all(&a, &b));
        let bx: AABB<D::P<S>> = mk_box(a, b);
        let m = S::input(self.lo, self.hi);
        let obj = if K::POINT { K::make::<S, D>(9, a, a) } else { K::make::<S, D>(9, a, b) };
        // queries
        macro_rules! none { ($($e:expr),* $(,)?) => { $( { let r = { let mut i = ($e).into_iter(); i.next().is_none() }; c.check(concat!(stringify!($e), " yields nothing"), r.into()); } )* } }
        none!(t.iter(), t.iter_mut(), &t, &mut t, t.clone());
        for e in [bx, AABB::new_empty()] {
            none!(t.locate_in_envelope(e), t.locate_in_envelope_mut(e), t.locate_in_envelope_intersecting(e), t.locate_in_envelope_intersecting_mut(e));
            none!(t.drain_in_envelope(e), t.drain_in_envelope_intersecting(e));
            let mut n = 0;
            let r: [ControlFlow<()>; 4] = [
                t.locate_in_envelope_int(e, |_| { n += 1; ControlFlow::Continue(()) }), t.locate_in_envelope_int_mut(e, |_| { n += 1; ControlFlow::Continue(()) }),
                t.locate_in_envelope_intersecting_int(e, |_| { n += 1; ControlFlow::Continue(()) }), t.locate_in_envelope_intersecting_int_mut(e, |_| { n += 1; ControlFlow::Continue(()) })];
            c.check("envelope callbacks: not called, complete", (n == 0 && r.iter().all(|x| matches!(x, ControlFlow::Continue(())))).into());
        }
        none!(t.locate_at_point(p), t.locate_at_point_mut(p), t.locate_at_point_int(p), t.locate_at_point_int_mut(p), t.locate_all_at_point(p), t.locate_all_at_point_mut(p));
        let mut n = 0;
        let r: [ControlFlow<()>; 2] = [t.locate_all_at_point_int(p, |_| { n += 1; ControlFlow::Continue(()) }), t.locate_all_at_point_int_mut(p, |_| { n += 1; ControlFlow::Continue(()) })];
        c.check("point callbacks: not called, complete", (n == 0 && r.iter().all(|x| matches!(x, ControlFlow::Continue(())))).into());
        none!(t.locate_within_distance(p, m), t.locate_with_selection_function(Any), t.locate_with_selection_function_mut(Any));
        none!(t.nearest_neighbor_with_distance_2(p), t.nearest_neighbors_with_distance_2(&p), t.nearest_neighbor(p), t.nearest_neighbors(&p), t.nearest_neighbor_iter(p), t.nearest_neighbor_iter_with_distance_2(p));
        let e = t.contains(&obj);
        c.check("contains: no", (!e).into());
        // pairs
        let other = self.make::<S, DefaultParams>();
        none!(t.intersection_candidates_with_other_tree(&other), other.intersection_candidates_with_other_tree(&other));
        let full = fill::<S, D, K, DefaultParams>(9, true);
        let fulp = fill::<S, D, K, Pa>(9, true);
        let single: RTree<K::T<S, D>> = RTree::bulk_load(vec![obj.clone()]);
        none!(t.intersection_candidates_with_other_tree(&full), fulp.intersection_candidates_with_other_tree(&other), t.intersection_candidates_with_other_tree(&single), single.intersection_candidates_with_other_tree(&other));
        still_empty::<S, D, K, Pa>(c, "after the queries", &t);
        // removals
        none!(t.remove(&obj));
        none!(t.remove_at_point(p));
        none!(t.remove_with_selection_function(Any));
        none!(t.pop_nearest_neighbor(p));
        none!(t.drain_within_distance(p, m), t.drain_with_selection_function(Any), t.drain());
        still_empty::<S, D, K, Pa>(c, "after the removals", &t);
        c.cover("end");
    }
}

fn add<M: Native, D: Dim, K: Kind, Pa: RTreeParams + Clone + 'static>(v: &mut Vec<Harness>, tag: &str, how: How, lo: i64, hi: i64, bulk: bool) {
    let range = if lo == i64::MIN { "every finite value".into() } else { format!("{lo}..={hi}") };
    let mut h = Harness::new::<M, _>(format!("{}-{how:?}-{tag}-{}-{}{}", v.len(), std::any::type_name::<D>().rsplit(':').next().unwrap(), M::MODE.name().split(' ').next().unwrap(), if bulk { "-bulk" } else { "" }), Empty::<D, K, Pa> { how, lo, hi, bulk, _p: PhantomData })
        .bounds(format!("empty tree of {tag} made by {how:?}; query point, box, object and distance symbolic over {range}; objects removed before have concrete coordinates 0..4")).covers(&["end"]);
    h.timeout = 30_000;
    v.push(h);
}
#[inline]
pub fn x03() -> Vec<Harness> {
    let mut v = vec![];
    let hs = &mut v;
    const F: i64 = i64::MIN;
    let hows = [How::New, How::Default, How::BulkNothing, How::Removed(1), How::Removed(3), How::RemovedAt(3), How::Drained(3), How::DrainedIn(2), How::DrainedIn(3), How::DrainedNear(3), How::Popped(3), How::Leaked(3),
        How::Removed(9), How::RemovedAt(9), How::Drained(9), How::DrainedIn(8), How::DrainedIn(9), How::DrainedNear(9), How::Popped(9), How::Leaked(9)];
    for how in hows {
        add::<i8, D2, KP, P4210>(hs, "points", how, -128, 127, false);
        add::<i32, D2, KO, P4210>(hs, "boxes", how, i32::MIN as i64, i32::MAX as i64, true);
        add::<i64, D2, KR, P4210>(hs, "rectangles", how, i64::MIN + 1, i64::MAX, false);
        add::<f32, D2, KP, P4210>(hs, "points", how, F, 0, true);
        add::<f64, D2, KW, DefaultParams>(hs, "cached rectangles with data", how, F, 0, false);
        add::<i16, D3, KP, P4110>(hs, "points", how, -32768, 32767, true);
        add::<i32, T3, KR, DefaultParams>(hs, "rectangles", how, i32::MIN as i64, i32::MAX as i64, true);
        add::<Q, D2, KL, P4210>(hs, "lines", how, -1_000_000, 1_000_000, true);
        add::<f32, D3, KO, P5221>(hs, "boxes", how, F, 0, false);
        add::<i64, D4, KP, P4210>(hs, "points", how, i64::MIN + 1, i64::MAX, true);
    }
    v
}
