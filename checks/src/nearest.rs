//! Nearest-neighbour queries (N01-N04), on concrete and symbolic geometry and on abstract distances.
use crate::*;
use crate::remove::*;
use rstar::{DefaultParams, Envelope, Point, PointDistance, RTree, RTreeObject, RTreeParams};
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum N { One, Iter, Ties, Pop }

/// The distances of the abstract objects (by index) and the bounds reported for each set of them.
struct Table<S> { d: Vec<S>, env: BTreeMap<u64, (S, S)>, hi: i64 }
thread_local! { static TABLE: RefCell<Option<Box<dyn Any>>> = const { RefCell::new(None) }; }
fn table<S: Sc, R>(f: impl FnOnce(&mut Table<S>) -> R) -> R {
    TABLE.with(|t| f(t.borrow_mut().as_mut().expect("table").downcast_mut::<Table<S>>().expect("number type")))
}
fn bounds<S: Sc>(m: u64) -> (S, S) {
    if let Some(b) = table::<S, _>(|t| t.env.get(&m).copied()) { return b; }
    let (d, hi) = table::<S, _>(|t| (t.d.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect::<Vec<S>>(), t.hi));
    let (l, u) = (S::input(0, hi), S::input(0, hi));
    with_cx(|c| {
        c.assume(B::all(d.iter().map(|x| l.ble(*x))));
        c.assume(B::any(d.iter().map(|x| x.ble(u))));
    });
    table::<S, _>(|t| t.env.insert(m, (l, u)));
    (l, u)
}
/// An envelope that only knows which objects it encloses; its distance bounds are anything the contract permits.
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct SetEnv<S> { m: u64, #[serde(skip)] p: PhantomData<S> }
impl<S> PartialEq for SetEnv<S> { fn eq(&self, o: &Self) -> bool { self.m == o.m } }
fn se<S>(m: u64) -> SetEnv<S> { SetEnv { m, p: PhantomData } }
impl<S: Sc> Envelope for SetEnv<S> {
    type Point = [S; 2];
    fn new_empty() -> Self { se(0) }
    fn contains_point(&self, _: &[S; 2]) -> bool { self.m != 0 }
    fn contains_envelope(&self, o: &Self) -> bool { self.m & o.m == o.m }
    fn merge(&mut self, o: &Self) { self.m |= o.m }
    fn merged(&self, o: &Self) -> Self { se(self.m | o.m) }
    fn intersects(&self, o: &Self) -> bool { self.m & o.m != 0 }
    fn intersection_area(&self, o: &Self) -> S { S::from_i((self.m & o.m).count_ones() as i64) }
    fn area(&self) -> S { S::from_i(self.m.count_ones() as i64) }
    fn distance_2(&self, _: &[S; 2]) -> S { bounds::<S>(self.m).0 }
    fn min_max_dist_2(&self, _: &[S; 2]) -> S { bounds::<S>(self.m).1 }
    fn center(&self) -> [S; 2] { [S::from_i(self.m.trailing_zeros() as i64), S::from_i(0)] }
    fn perimeter_value(&self) -> S { S::from_i(self.m.count_ones() as i64) }
    fn sort_envelopes<T: RTreeObject<Envelope = Self>>(_: usize, e: &mut [T]) { e.sort_by_key(|x| x.envelope().m.trailing_zeros()) }
    fn partition_envelopes<T: RTreeObject<Envelope = Self>>(_: usize, e: &mut [T], _: usize) { e.sort_by_key(|x| x.envelope().m.trailing_zeros()) }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct Ab<S> { i: u32, #[serde(skip)] p: PhantomData<S> }
impl<S: Sc> RTreeObject for Ab<S> { type Envelope = SetEnv<S>; fn envelope(&self) -> SetEnv<S> { se(1 << self.i) } }
impl<S: Sc> PointDistance for Ab<S> { fn distance_2(&self, _: &[S; 2]) -> S { table::<S, _>(|t| t.d[self.i as usize]) } }
/// the same with a hand-written threshold query
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct Ac<S> { i: u32, #[serde(skip)] p: PhantomData<S> }
impl<S: Sc> RTreeObject for Ac<S> { type Envelope = SetEnv<S>; fn envelope(&self) -> SetEnv<S> { se(1 << self.i) } }
impl<S: Sc> PointDistance for Ac<S> {
    fn distance_2(&self, _: &[S; 2]) -> S { table::<S, _>(|t| t.d[self.i as usize]) }
    fn distance_2_if_less_or_equal(&self, p: &[S; 2], m: S) -> Option<S> { let d = self.distance_2(p); if d > m { None } else { Some(d) } }
}
pub trait AbObj<S: Sc>: PointDistance + RTreeObject<Envelope = SetEnv<S>> + Clone + Serialize + serde::de::DeserializeOwned { fn new(i: u32) -> Self; fn i(&self) -> u32; }
impl<S: Sc> AbObj<S> for Ab<S> { fn new(i: u32) -> Self { Ab { i, p: PhantomData } } fn i(&self) -> u32 { self.i } }
impl<S: Sc> AbObj<S> for Ac<S> { fn new(i: u32) -> Self { Ac { i, p: PhantomData } } fn i(&self) -> u32 { self.i } }

/// Runs a query and compares with the distances `d` of all objects.
fn query<S: Sc, T: PointDistance, Pa: RTreeParams>(c: &mut Cx, op: N, t: &RTree<T, Pa>, p: <T::Envelope as Envelope>::Point, d: &dyn Fn(&T) -> S, steps: Option<usize>)
where T::Envelope: Envelope, <T::Envelope as Envelope>::Point: Point<Scalar = S> {
    let all: Vec<&T> = leaves(t);
    let ds: Vec<S> = all.iter().map(|x| d(x)).collect();
    let pos = |x: &T| all.iter().position(|y| std::ptr::eq(*y, x));
    let least = |x: S| B::all(ds.iter().map(|y| x.ble(*y)));
    match op {
        N::One => {
            match t.nearest_neighbor_with_distance_2(p.clone()) {
                None => c.check("nearest: nothing only on an empty tree", all.is_empty().into()),
                Some((x, dist)) => {
                    match pos(x) {
                        None => c.check("nearest: a stored object", false.into()),
                        Some(i) => { c.check("nearest: minimal distance", least(ds[i])); c.check("nearest: reported distance", dist.beq(ds[i])); c.cover(if i == 0 { "first is nearest" } else { "another is nearest" }); }
                    }
                }
            }
            match t.nearest_neighbor(p) {
                None => c.check("nearest: nothing only on an empty tree", all.is_empty().into()),
                Some(x) => c.check("nearest: minimal distance", pos(x).map_or(B::C(false), |i| least(ds[i]))),
            }
        }
        N::Iter => {
            let take = steps.unwrap_or(all.len() + 2);
            let got: Vec<(&T, S)> = t.nearest_neighbor_iter_with_distance_2(p.clone()).take(take).collect();
            let idx: Vec<Option<usize>> = got.iter().map(|(x, _)| pos(x)).collect();
            c.check("nearest iteration: stored objects only", idx.iter().all(|i| i.is_some()).into());
            let mut u: Vec<_> = idx.iter().flatten().copied().collect();
            u.sort();
            u.dedup();
            c.check("nearest iteration: none twice", (u.len() == got.len()).into());
            c.check("nearest iteration: complete", (got.len() == all.len().min(take)).into());
            if idx.iter().any(|i| i.is_none()) { return; }
            c.check("nearest iteration: distances", B::all(got.iter().zip(&idx).map(|((_, x), i)| x.beq(ds[i.unwrap()]))));
            c.check("nearest iteration: order", B::all(idx.windows(2).map(|w| ds[w[0].unwrap()].ble(ds[w[1].unwrap()]))));
            if let Some(Some(l)) = idx.last() { let l = ds[*l]; c.check("nearest iteration: nothing nearer left out", B::all((0..all.len()).filter(|i| !u.contains(i)).map(|i| l.ble(ds[i])))); }
            if steps.is_none() {
                let plain: Vec<Option<usize>> = t.nearest_neighbor_iter(p.clone()).map(|x| pos(x)).collect();
                #[allow(deprecated)]
                let (old, od): (Vec<Option<usize>>, Vec<S>) = t.nearest_neighbor_iter_with_distance(p).map(|(x, d)| (pos(x), d)).unzip();
                // the same sequence, or another one that is complete and ordered too
                let mut alike = |c: &mut Cx, tag: &str, v: &[Option<usize>]| {
                    if v == &idx[..] { return; }
                    let w: Vec<usize> = v.iter().flatten().copied().collect();
                    let mut s = w.clone();
                    s.sort();
                    s.dedup();
                    c.check(&format!("nearest iteration: complete ({tag})"), (w.len() == v.len() && s.len() == all.len() && w.len() == s.len()).into());
                    c.check(&format!("nearest iteration: order ({tag})"), B::all(w.windows(2).map(|w| ds[w[0]].ble(ds[w[1]]))));
                };
                alike(c, "without distances", &plain);
                alike(c, "deprecated variant", &old);
                c.check("nearest iteration: distances (deprecated variant)", B::all(od.iter().zip(&old).filter_map(|(d, i)| i.map(|i| d.beq(ds[i])))));
            }
        }
        N::Ties => {
            let r = t.nearest_neighbors_with_distance_2(&p);
            let want: Vec<B> = ds.iter().map(|x| least(*x)).collect();
            let ptrs: Vec<*const T> = all.iter().map(|x| *x as *const T).collect();
            match r {
                None => c.check("all nearest: nothing only on an empty tree", all.is_empty().into()),
                Some((v, dist)) => {
                    let got: Vec<*const T> = v.iter().map(|x| *x as *const T).collect();
                    exact(c, "all nearest", &ptrs, &got, &want);
                    if got.len() > 1 { c.cover("several nearest") }
                    c.check("all nearest: at least one", (!got.is_empty()).into());
                    c.check("all nearest: distance", B::all(ds.iter().map(|y| dist.ble(*y))) & B::any(ds.iter().map(|y| dist.beq(*y))));
                }
            }
            let got: Vec<*const T> = t.nearest_neighbors(&p).iter().map(|x| *x as *const T).collect();
            exact(c, "all nearest, objects only", &ptrs, &got, &want);
        }
        N::Pop => unreachable!(),
    }
}

pub struct Abs { pub op: N, pub sh: Sh, pub own: bool, pub steps: Option<usize>, pub pops: usize }
impl Abs {
    fn go<S: Sc, T: AbObj<S>>(&self, c: &mut Cx) {
        let n = self.sh.leaves();
        let d: Vec<S> = (0..n).map(|_| S::input(0, 50)).collect();
        TABLE.with(|t| *t.borrow_mut() = Some(Box::new(Table { d: d.clone(), env: BTreeMap::new(), hi: 50 })));
        let objs: Vec<T> = (0..n).map(|i| T::new(i as u32)).collect();
        let mut t: RTree<T, P4210> = build(&self.sh, &objs, &mut |parts| se(parts.iter().fold(0, |a, b| a | b.m)));
        let q = [S::from_i(0), S::from_i(0)];
        if self.op != N::Pop { return query::<S, T, P4210>(c, self.op, &t, q, &|x| d[x.i() as usize], self.steps); }
        let mut have: Vec<usize> = (0..n).collect();
        let mut last: Option<S> = None;
        for _ in 0..self.pops {
            match t.pop_nearest_neighbor(q) {
                None => c.check("pop: nothing only on an empty tree", have.is_empty().into()),
                Some(x) => {
                    let i = x.i() as usize;
                    c.check("pop: a stored object", have.contains(&i).into());
                    have.retain(|j| *j != i);
                    c.check("pop: minimal distance", B::all(have.iter().map(|j| d[i].ble(d[*j]))));
                    if let Some(l) = last { c.check("pop: non-decreasing", l.ble(d[i])); }
                    last = Some(d[i]);
                }
            }
            c.check("pop: exactly the other objects remain", (sorted(leaves(&t).iter().map(|x| x.i() as usize).collect()) == have && t.size() == have.len()).into());
        }
    }
}
impl Harn for Abs {
    fn run<S: Sc>(&self, c: &mut Cx) { if self.own { self.go::<S, Ac<S>>(c) } else { self.go::<S, Ab<S>>(c) } }
}

/// Geometry: trees of any source, query point with `k` symbolic coordinates.
pub struct Geo<D, K, Pa> { pub op: N, pub src: Src, pub k: usize, pub other: i64, pub steps: Option<usize>, pub _p: PhantomData<fn() -> (D, K, Pa)> }
impl<D: Dim, K: Kind, Pa: RTreeParams + 'static> Harn for Geo<D, K, Pa> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let t: RTree<K::T<S, D>, Pa> = self.src.tree::<S, D, K, Pa>(c);
        let (lo, hi) = self.src.span();
        let p = part_pt::<S, D>(self.k, self.other, lo, hi);
        query::<S, K::T<S, D>, Pa>(c, self.op, &t, p, &|x| K::d2::<S, D>(x, &p), self.steps);
    }
}
pub struct Pop<D, K, Pa> { pub src: Src, pub k: usize, pub other: i64, pub pops: usize, pub same: bool, pub _p: PhantomData<fn() -> (D, K, Pa)> }
impl<D: Dim, K: Id, Pa: RTreeParams + 'static> Harn for Pop<D, K, Pa> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let mut t: RTree<K::T<S, D>, Pa> = self.src.tree::<S, D, K, Pa>(c);
        let (lo, hi) = self.src.span();
        let mut have: BTreeMap<u32, _> = leaves(&t).iter().map(|o| (K::id::<S, D>(o), o.envelope())).collect();
        let mut objs: BTreeMap<u32, K::T<S, D>> = leaves(&t).iter().map(|o| (K::id::<S, D>(o), (*o).clone())).collect();
        let mut p = part_pt::<S, D>(self.k, self.other, lo, hi);
        let mut last: Option<S> = None;
        for i in 0..self.pops {
            if i > 0 && !self.same { p = part_pt::<S, D>(self.k, self.other, lo, hi); }
            match t.pop_nearest_neighbor(p) {
                None => c.check("pop: nothing only on an empty tree", have.is_empty().into()),
                Some(o) => {
                    c.cover("popped");
                    let id = K::id::<S, D>(&o);
                    c.check("pop: a stored object", have.contains_key(&id).into());
                    let Some(b) = have.remove(&id) else { return };
                    c.check("pop: object unchanged", box_eq(&b, &o.envelope()));
                    objs.remove(&id);
                    let d = K::d2::<S, D>(&o, &p);
                    c.check("pop: minimal distance", B::all(objs.values().map(|x| d.ble(K::d2::<S, D>(x, &p)))));
                    if self.same { if let Some(l) = last { c.check("pop: non-decreasing", l.ble(d)); } last = Some(d); }
                }
            }
            state::<S, D, K, Pa>(c, "pop", &t, &have);
        }
        if have.is_empty() { c.check("pop: the tree is empty at the end", t.pop_nearest_neighbor(p).is_none().into()); c.cover("emptied"); }
    }
}

#[inline]
pub fn harnesses(op: N) -> Vec<Harness> {
    let mut v = vec![];
    let hs = &mut v;
    let sh = Sh::parse;
    let u = Sh::uniform;
    // abstract distances
    let ab = |hs: &mut Vec<Harness>, s: Sh, own: bool, steps: Option<usize>, thorough: bool| {
        let n = s.leaves();
        let b = format!("tree of shape {}; every assignment of squared distances 0..=50 to the objects and every lower and min-max bound the contract permits for the nodes{}{}", show(&s), if own { "; user-written threshold query" } else { "" }, steps.map_or(String::new(), |k| format!("; the first {k} answers")));
        let mut h = Harness::new::<i64, _>(format!("abstract-{}-{}{}", hs.len(), show(&s), if own { "-own" } else { "" }), Abs { op, sh: s, own, steps, pops: steps.unwrap_or(n + 1) }).bounds(b);
        h.thorough = thorough;
        hs.push(h);
    };
    for s in ["()", "(0)", "(01)", "(012)", "((0))", "((0)(1))", "((01)(2))", "(((0))((1)))", "(((0)(1))((2)))"] { ab(hs, sh(s), false, None, false); ab(hs, sh(s), true, None, false); }
    match op {
        N::Iter => {
            for s in ["(0123)", "((01)(23))", "((012)(3))", "(((01))((2)(3)))"] { ab(hs, sh(s), false, None, false); }
            for s in ["(01234)", "((01)(23)(4))", "((012)(34))"] { ab(hs, sh(s), false, Some(2), false); }
            for s in ["(01234)", "((01)(23)(4))", "((012)(34))", "(((01)(2))((3)(4)))"] { ab(hs, sh(s), false, None, true); }
        }
        N::Pop => {
            for s in ["(0123)", "((01)(23))", "((012)(3))"] { ab(hs, sh(s), false, Some(1), false); }
            for s in ["((01)(23))", "((012)(3))", "(((01))((2)(3)))"] { ab(hs, sh(s), false, Some(2), true); }
            for s in ["(01234)", "((01)(23)(4))"] { ab(hs, sh(s), false, Some(1), true); }
        }
        _ => {
            for s in ["(0123)", "((01)(23))", "((012)(3))"] { ab(hs, sh(s), false, None, false); }
            for s in ["(((01))((2)(3)))", "((01)(23)(4))", "(01234)"] { ab(hs, sh(s), false, None, true); }
        }
    }
    macro_rules! th { ($e:expr) => { { let i = $e; hs[i].thorough = true; } } }
    if op == N::Pop {
        fn pp<D: Dim, K: Id, Pa: RTreeParams + 'static>(hs: &mut Vec<Harness>, d: &str, src: Src, k: usize, other: i64, pops: usize, same: bool) -> usize {
            let b = format!("{} ({d}); {pops} pops at {}, {k} coordinate(s) symbolic in {:?}, the others {other}", src.text(), if same { "one point" } else { "independent points" }, src.span());
            hs.push(Harness::new::<i64, _>(format!("pop-{}-{d}-{}-k{k}-x{pops}", hs.len(), src_name(&src)), Pop::<D, K, Pa> { src, k, other, pops, same, _p: PhantomData }).bounds(b));
            hs.len() - 1
        }
        for s in ["(0)", "((0))"] { pp::<D2, KE, P4210>(hs, "points", Src::Sym(sh(s), 0, 9), 1, 3, 1, true); }
        for l in [0, 1, 2, 5, 6, 7] {
            let o = lay(l, 1, 1).0;
            let i = pp::<D2, KE, P4210>(hs, "equal boxes", Src::Lay(u(&[2, 2]), l), 1, o, 5, true); hs[i].covers = vec!["popped".into(), "emptied".into()];
            pp::<D2, KO, P4210>(hs, "objects", Src::Lay(u(&[3, 2]), l), 1, o, 2, false);
            pp::<D2, KW, P4110>(hs, "wrapped", Src::Lay(sh("((0)(1)(2))"), l), 1, o, 3, true);
            pp::<D2, KE, DefaultParams>(hs, "equal boxes", Src::Bulk(l, 20), 1, o, 2, true);
            pp::<D2, KE, DefaultParams>(hs, "equal boxes", Src::Ins(l, 16), 1, o, 1, true);
            pp::<D3, KE, P4210>(hs, "3d", Src::Mixed(l, 20), 1, o, 1, true);
            th!(pp::<D2, KE, DefaultParams>(hs, "equal boxes", Src::Mixed(l, 60), 1, o, 3, true));
            th!(pp::<D2, KE, P4210>(hs, "equal boxes", Src::Lay(u(&[2, 2]), l), 2, o, 2, true));
        }
        // large trees
        let o = lay(12, 1, 1).0;
        pp::<D2, KE, DefaultParams>(hs, "equal boxes", Src::Bulk(12, 80), 1, o, 1, true);
        pp::<D2, KE, P4210>(hs, "equal boxes", Src::Ins(12, 50), 1, o, 1, true);
        th!(pp::<D2, KE, DefaultParams>(hs, "equal boxes", Src::Mixed(12, 600), 1, o, 1, true));
        for l in [2, 6, 11] {
            let o = lay(l, 1, 1).0;
            pp::<D2, KC, P4210>(hs, "corner pairs", Src::Lay(u(&[2, 2]), l), 1, o, 2, true);
            pp::<D2, KC, P4210>(hs, "corner pairs", Src::Lay(u(&[4]), l), 1, o, 1, true);
            pp::<D2, KC, DefaultParams>(hs, "corner pairs", Src::Bulk(l, 12), 1, o, 2, true);
            pp::<D3, KC, P4210>(hs, "corner pairs 3d", Src::Lay(u(&[2, 2]), l), 1, o, 1, true);
        }
        for n in [33, 36] { pp::<D2, KE, P40>(hs, "wide nested", Src::Lay(u(&[n, 2]), 9), 1, 1, 1, true); }
        pp::<D2, KE, P40>(hs, "wide", Src::Lay(u(&[40]), 8), 1, 0, 1, true);
        pp::<D2, KE, P40>(hs, "wide", Src::Lay(u(&[11, 3]), 8), 1, 0, 2, true);
        return v;
    }
    fn ge<M: Native, D: Dim, K: Kind, Pa: RTreeParams + 'static>(hs: &mut Vec<Harness>, op: N, d: &str, src: Src, k: usize, other: i64, steps: Option<usize>) -> usize {
        let b = format!("{} ({d}); query point with {k} symbolic coordinate(s) in {:?}, the others {other}{}", src.text(), src.span(), steps.map_or(String::new(), |n| format!("; the first {n} answers")));
        hs.push(Harness::new::<M, _>(format!("geometry-{}-{d}-{}-k{k}", hs.len(), src_name(&src)), Geo::<D, K, Pa> { op, src, k, other, steps, _p: PhantomData }).bounds(b));
        hs.len() - 1
    }
    let some = if op == N::Iter { Some(4) } else { None };
    for s in ["()", "(0)", "(01)", "((0)(1))"] {
        ge::<i64, D2, KP, P4210>(hs, op, "symbolic points", Src::Sym(sh(s), 0, 9), 1, 4, None);
    }
    for l in [0, 1, 2, 3, 5, 6, 7] {
        let boxy = [2, 6, 7].contains(&l);
        let o = lay(l, 1, 1).0;
        ge::<i64, D2, KO, P4210>(hs, op, "objects", Src::Lay(u(&[2, 2]), l), 1, o + 1, None);
        let i = ge::<i64, D2, KR, P4210>(hs, op, "rectangles", Src::Lay(u(&[3, 2]), l), 1, o, None);
        if op == N::One && [0, 5, 6].contains(&l) { hs[i].covers = vec!["first is nearest".into(), "another is nearest".into()]; }
        ge::<i64, D2, KW, P4210>(hs, op, "wrapped rectangles", Src::Lay(u(&[2, 2, 2]), l), 1, o, some);
        if boxy { ge::<i64, D2, KO, DefaultParams>(hs, op, "objects", Src::Bulk(l, 30), 1, o, some); }
        else { ge::<i64, D2, KP, DefaultParams>(hs, op, "points", Src::Bulk(l, 50), 1, o, some); ge::<i64, D2, KP, P4210>(hs, op, "points", Src::Lay(u(&[2, 2]), l), 2, 0, some); }
        ge::<i64, D2, KO, P4210>(hs, op, "objects", Src::Ins(l, 14), 1, o, some);
        ge::<i64, D3, KR, P4210>(hs, op, "3d rectangles", Src::Mixed(l, 20), 1, o, some);
        th!(ge::<i64, D2, KO, DefaultParams>(hs, op, "objects", Src::Mixed(l, 120), 1, o, some));
        th!(ge::<i64, D2, KO, P4210>(hs, op, "objects", Src::Lay(u(&[3, 2]), l), 2, o, some));
    }
    // large trees
    let (o, few) = (lay(12, 1, 1).0, if op == N::Iter { Some(12) } else { None });
    ge::<i64, D2, KP, DefaultParams>(hs, op, "points", Src::Bulk(12, 400), 1, o, few);
    ge::<i64, D2, KP, P4210>(hs, op, "points", Src::Ins(12, 200), 1, o, few);
    th!(ge::<i64, D2, KO, P5311>(hs, op, "objects", Src::Mixed(13, 100), 1, o, few));
    th!(ge::<i64, D2, KP, DefaultParams>(hs, op, "points", Src::Bulk(12, 1500), 1, o, few));
    th!(ge::<i64, D3, KP, P4210>(hs, op, "points 3d", Src::Ins(12, 500), 1, o, few));
    for l in [2, 6, 11] {
        let o = lay(l, 1, 1).0;
        ge::<i64, D2, KC, P4210>(hs, op, "corner pairs", Src::Lay(u(&[3]), l), 1, o, None);
        ge::<i64, D2, KC, P4210>(hs, op, "corner pairs", Src::Lay(u(&[2, 2]), l), 1, o, None);
        ge::<i64, D2, KC, P4210>(hs, op, "corner pairs", Src::Lay(u(&[2, 3]), l), 1, o + 2, some);
        ge::<i64, D2, KC, DefaultParams>(hs, op, "corner pairs", Src::Bulk(l, 20), 1, o, some);
        ge::<i64, D3, KC, P4210>(hs, op, "corner pairs 3d", Src::Lay(u(&[2, 2]), l), 1, o, some);
    }
    // nested nodes around the query: all of them stay pending, and the nearest object may be behind any of them
    for (n, l) in [(33, 9), (36, 9), (36, 10), (40, 10)] { ge::<i64, D2, KP, P40>(hs, op, "wide nested", Src::Lay(u(&[n, 2]), l), 1, 1, if op == N::Iter { Some(5) } else { None }); }
    // more pending candidates than the fixed-size buffer holds
    for n in [31, 32, 33, 40] { ge::<i64, D2, KP, P40>(hs, op, "wide", Src::Lay(u(&[n]), 8), 1, 0, if op == N::Iter && n != 33 { Some(3) } else { None }); }
    ge::<i64, D2, KP, P40>(hs, op, "wide", Src::Lay(u(&[11, 3]), 8), 1, 0, if op == N::Iter { Some(12) } else { None });
    ge::<i64, D2, KP, P40>(hs, op, "wide", Src::Lay(u(&[3, if op == N::Ties { 12 } else { 30 }]), 8), 1, 0, if op == N::Iter { Some(40) } else { None });
    ge::<i64, D2, KP, P40>(hs, op, "wide diagonal", Src::Lay(u(&[20, 2]), 3), 1, 30, if op == N::Iter { Some(6) } else { None });
    ge::<i64, T3, KR, P4210>(hs, op, "tuple rectangles", Src::Lay(u(&[2, 2]), 6), 1, 2, None);
    ge::<i64, D4, KP, DefaultParams>(hs, op, "4d points", Src::Bulk(5, 17), 1, 2, some);
    for s in [&[2][..], &[3], &[2, 2]] { let i = ge::<Q, D2, KL, P4210>(hs, op, "lines", Src::Lay(u(s), 6), 1, 1, None); hs[i].timeout = 20_000; }
    v
}
