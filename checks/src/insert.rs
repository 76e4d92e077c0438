//! One insertion into an arbitrary tree of a family, and short insertion histories (T01, T02).
use crate::*;
use rstar::{DefaultParams, Point, RTree, RTreeObject, RTreeParams, AABB};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq)]
pub enum What { Content, Structure }

/// Node sizes before the operation: (all within the maximum, number of non-root nodes below the minimum).
pub fn sizes<T: RTreeObject, Pa: RTreeParams>(t: &RTree<T, Pa>) -> (bool, usize) {
    let (mut ok, mut under) = (true, 0);
    visit(t.root(), 0, &mut |n, d| {
        let k = n.children().len();
        if k > Pa::MAX_SIZE { ok = false }
        if d > 0 && k < Pa::MIN_SIZE { under += 1 }
    }, &mut |_, _| {});
    (ok, under)
}
pub fn height<T: RTreeObject, Pa: RTreeParams>(t: &RTree<T, Pa>) -> usize {
    let mut h = 0;
    visit(t.root(), 0, &mut |_, d| h = h.max(d), &mut |_, _| {});
    h
}
pub fn after<P: Pt, Pa: RTreeParams>(c: &mut Cx, w: What, t: &RTree<Ob<P>, Pa>, expect: &[u32], orig: &BTreeMap<u32, AABB<P>>, before: (bool, usize)) where P::Scalar: Sc {
    match w {
        What::Content => {
            check_content(c, "insert", t, expect);
            let all: Vec<&Ob<P>> = t.iter().collect();
            check_boxes(c, "insert", &all, orig);
        }
        What::Structure => {
            check_wf(c, "insert", t, &NO_LIMITS);
            let (ok, under) = sizes(t);
            c.check("insert: no node above the maximum size", (ok || !before.0).into());
            c.check("insert: no new node below the minimum size", (under <= before.1).into());
        }
    }
}

/// Inserts `count` objects of the given extent at symbolic positions (first `k` coordinates symbolic).
pub struct Ins<D, Pa> { pub w: What, pub src: Src, pub k: usize, pub other: i64, pub size: i64, pub count: usize, pub _p: PhantomData<fn() -> (D, Pa)> }
impl<D: Dim, Pa: RTreeParams + 'static> Harn for Ins<D, Pa> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let mut t: RTree<Ob<D::P<S>>, Pa> = self.src.tree::<S, D, KO, Pa>(c);
        let mut orig: BTreeMap<u32, AABB<D::P<S>>> = leaves(&t).iter().map(|o| (o.id, o.bx)).collect();
        let (lo, hi) = self.src.span();
        for i in 0..self.count {
            let p = part_pt::<S, D>(self.k, self.other, lo, hi);
            let q = <D::P<S> as Point>::generate(|d| p.nth(d).sadd(S::from_i(if d % 2 == 0 { self.size } else { self.size / 2 })));
            let new = Ob { id: 1000 + i as u32, bx: mk_box(p, q) };
            orig.insert(new.id, new.bx);
            let (h0, before) = (height(&t), sizes(&t));
            t.insert(new);
            if height(&t) > h0 { c.cover("root split"); }
            after(c, self.w, &t, &orig.keys().copied().collect::<Vec<_>>(), &orig, before);
        }
    }
}
/// Insertions into an empty tree: point i has its first coordinate symbolic, the rest as given (cyclic).
pub struct Hist<D, Pa> { pub w: What, pub n: usize, pub hi: i64, pub rest: Vec<i64>, pub fixed: Vec<i64>, pub _p: PhantomData<fn() -> (D, Pa)> }
impl<D: Dim, Pa: RTreeParams + 'static> Harn for Hist<D, Pa> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let mut t: RTree<Ob<D::P<S>>, Pa> = RTree::new_with_params();
        let mut orig = BTreeMap::new();
        for i in 0..self.fixed.len() + self.n {
            let x: S = if i < self.fixed.len() { S::from_i(self.fixed[i]) } else { c.num(0, self.hi) };
            let r = S::from_i(self.rest[i % self.rest.len()]);
            let p = <D::P<S> as Point>::generate(|d| if d == 0 { x } else { r });
            let o = Ob { id: i as u32, bx: mk_box(p, p) };
            orig.insert(o.id, o.bx);
            let before = sizes(&t);
            t.insert(o);
            if i >= self.fixed.len() { after(c, self.w, &t, &orig.keys().copied().collect::<Vec<_>>(), &orig, before); }
        }
        if height(&t) > 0 { c.cover("root split"); }
    }
}

fn one<D: Dim, Pa: RTreeParams + 'static>(hs: &mut Vec<Harness>, w: What, pn: &str, dn: &str, src: Src, k: usize, other: i64, size: i64, count: usize) -> usize {
    let b = format!("{} [{pn}, {dn}]; {count} object(s) of extent {size} inserted, {k} of its coordinates symbolic over the whole range {:?}", src.text(), src.span());
    let name = format!("ins-{}-{pn}-{dn}-{}-k{k}-s{size}-c{count}", hs.len(), match &src { Src::Sym(s, ..) => format!("sym{}", show(s)), Src::Lay(s, l) => format!("lay{l}{}", show(s)), Src::Bulk(l, n) => format!("bulk{l}_{n}"), Src::Ins(l, n) => format!("grown{l}_{n}"), Src::Mixed(l, n) => format!("mixed{l}_{n}") });
    hs.push(Harness::new::<i64, _>(name, Ins::<D, Pa> { w, src, k, other, size, count, _p: PhantomData }).bounds(b));
    hs.len() - 1
}
fn hist<Pa: RTreeParams + 'static>(hs: &mut Vec<Harness>, w: What, pn: &str, n: usize, rest: Vec<i64>, fixed: Vec<i64>) -> usize {
    let b = format!("{} concrete then {n} symbolic insertions into an empty tree [{pn}], x in 0..=100, y cyclic {:?}", fixed.len(), rest);
    hs.push(Harness::new::<i64, _>(format!("hist-{pn}-{}+{n}-{}", fixed.len(), hs.len()), Hist::<D2, Pa> { w, n, hi: 100, rest, fixed, _p: PhantomData }).bounds(b));
    hs.len() - 1
}

#[inline]
pub fn harnesses(w: What) -> Vec<Harness> {
    let mut v = vec![];
    let hs = &mut v;
    let sh = Sh::parse;
    let u = Sh::uniform;
    macro_rules! th { ($e:expr) => { { let i = $e; hs[i].thorough = true; } } }
    macro_rules! cov { ($e:expr) => { { let i = $e; hs[i].covers.push("root split".into()); } } }
    // one level, every fill, every layout
    for l in [0, 1, 2, 3, 6] {
        for n in 0..=4 {
            let i = one::<D2, P4210>(hs, w, "4/2/1", "2d", Src::Lay(u(&[n]), l), 2, 0, 0, 1);
            if n == 4 { hs[i].covers.push("root split".into()); }
        }
        cov!(one::<D2, P4110>(hs, w, "4/1/0", "2d", Src::Lay(u(&[4]), l), 2, 0, 3, 1));
        cov!(one::<D2, P4112>(hs, w, "4/1/2", "2d", Src::Lay(u(&[4]), l), 2, 0, 0, 1));
        for n in 2..=4 {
            one::<D2, P5311>(hs, w, "5/3/1", "2d", Src::Lay(u(&[n]), l), 2, 0, 0, 1);
            one::<D2, P5300>(hs, w, "5/3/0", "2d", Src::Lay(u(&[n]), l), 2, 0, 2, 1);
        }
        cov!(one::<D2, P5311>(hs, w, "5/3/1", "2d", Src::Lay(u(&[5]), l), 2, 0, 2, 1));
        cov!(one::<D2, P5300>(hs, w, "5/3/0", "2d", Src::Lay(u(&[5]), l), 2, 0, 0, 1));
        cov!(one::<D2, DefaultParams>(hs, w, "default", "2d", Src::Lay(u(&[6]), l), 2, 0, 0, 1));
    }
    // two levels: full (cascading), partly filled, thinned out
    for l in [0, 2, 3, 5, 6] {
        cov!(one::<D2, P4210>(hs, w, "4/2/1", "2d", Src::Lay(u(&[4, 4]), l), 2, 0, 0, 1));
        cov!(one::<D2, P4111>(hs, w, "4/1/1", "2d", Src::Lay(u(&[4, 4]), l), 2, 0, 2, 1));
        cov!(one::<D2, P4200>(hs, w, "4/2/0", "2d", Src::Lay(u(&[4, 4]), l), 2, 0, 0, 1));
        one::<D2, P4210>(hs, w, "4/2/1", "2d", Src::Lay(Sh::two(&[4, 2, 3]), l), 2, 0, 4, 1);
        one::<D2, P4210>(hs, w, "4/2/1", "2d", Src::Lay(Sh::two(&[1, 4, 1, 4]), l), 2, 0, 0, 1);
        one::<D2, P5221>(hs, w, "5/2/1", "2d", Src::Lay(Sh::two(&[5, 5, 5, 5, 5]), l), 1, 3, 0, 1);
        one::<D2, DefaultParams>(hs, w, "default", "2d", Src::Lay(u(&[6, 6]), l), 1, 2, 0, 1);
    }
    // several objects reinserted into overlapping, full nodes: a split of the root while objects are still pending
    for l in [2, 5, 6, 7] {
        one::<D2, P4112>(hs, w, "4/1/2", "2d", Src::Lay(u(&[4, 4]), l), 2, 0, 0, 1);
        one::<D2, P5212>(hs, w, "5/2/2", "2d", Src::Lay(u(&[5, 5]), l), 1, 1, 2, 1);
        one::<D2, P5113>(hs, w, "5/1/3", "2d", Src::Lay(u(&[5, 5]), l), 2, 0, 2, 1);
        one::<D2, P5113>(hs, w, "5/1/3", "2d", Src::Lay(u(&[5, 5, 5]), l), 1, 0, 0, 1);
        one::<D2, P5113>(hs, w, "5/1/3", "2d", Src::Ins(l, 30), 2, 0, 0, 1);
        for n in [14, 21, 26] { one::<D2, P5113>(hs, w, "5/1/3", "2d", Src::Ins(l, n), 1, 1, 0, 2); }
        for n in [12, 19, 30] { one::<D2, P5212>(hs, w, "5/2/2", "2d", Src::Ins(l, n), 1, 1, 0, 2); }
    }
    for l in [5, 6] { for s in [&[4, 4, 1, 4][..], &[4, 4, 4, 4], &[5, 5, 5, 5, 5]] {
        one::<D2, P5113>(hs, w, "5/1/3", "2d", Src::Lay(Sh::two(s), l), 2, 0, 0, 1);
        one::<D2, P4112>(hs, w, "4/1/2", "2d", Src::Lay(Sh::two(s), l), 2, 0, 0, 1);
    } }
    // thinned-out trees (single-child chains)
    for s in ["((0))", "((0)(1))", "(((0)))", "(((0))((1)(2)))", "(((0123)))", "(((0123)(4567)(8901)(2345)))", "((0123))", "(((0)(1234)(5)(6789))((0123)))"] {
        one::<D2, P4210>(hs, w, "4/2/1", "2d", Src::Lay(sh(s), 2), 2, 0, 0, 1);
        one::<D2, P4112>(hs, w, "4/1/2", "2d", Src::Lay(sh(s), 6), 2, 0, 2, 1);
        one::<D2, P4210>(hs, w, "4/2/1", "2d", Src::Lay(sh(s), 1), 2, 0, 0, 1);
    }
    // three levels, full: reinsertion and splits at every level
    for l in [0, 5, 6] {
        cov!(one::<D2, P4210>(hs, w, "4/2/1", "2d", Src::Lay(u(&[4, 4, 4]), l), 1, 1, 0, 1));
        cov!(one::<D2, P4112>(hs, w, "4/1/2", "2d", Src::Lay(u(&[4, 4, 4]), l), 1, 1, 1, 1));
        one::<D2, P4200>(hs, w, "4/2/0", "2d", Src::Lay(u(&[4, 4, 4]), l), 1, 1, 0, 1);
        one::<D2, P4210>(hs, w, "4/2/1", "2d", Src::Lay(u(&[2, 2, 2]), l), 2, 1, 0, 1);
    }
    th!(one::<D2, P4210>(hs, w, "4/2/1", "2d", Src::Lay(u(&[4, 4, 4, 4]), 5), 1, 1, 0, 1));
    th!(one::<D2, P4112>(hs, w, "4/1/2", "2d", Src::Lay(u(&[4, 4, 4, 4]), 6), 1, 1, 0, 1));
    th!(one::<D2, DefaultParams>(hs, w, "default", "2d", Src::Lay(u(&[6, 6, 6]), 5), 1, 1, 0, 1));
    th!(one::<D2, DefaultParams>(hs, w, "default", "2d", Src::Lay(u(&[6, 6]), 6), 2, 1, 0, 1));
    // grown, bulk loaded and thinned-out trees
    for l in [0, 1, 5, 6] {
        for n in [7, 13, 25, 26] { one::<D2, DefaultParams>(hs, w, "default", "2d", Src::Bulk(l, n), 1, 3, 0, 2); }
        for n in [7, 12, 20] { one::<D2, DefaultParams>(hs, w, "default", "2d", Src::Ins(l, n), 1, 3, 1, 2); }
        one::<D2, P4210>(hs, w, "4/2/1", "2d", Src::Mixed(l, 18), 1, 3, 0, 2);
        one::<D2, DefaultParams>(hs, w, "default", "2d", Src::Mixed(l, 24), 1, 3, 0, 2);
        th!(one::<D2, DefaultParams>(hs, w, "default", "2d", Src::Mixed(l, 150), 1, 3, 0, 2));
        th!(one::<D2, DefaultParams>(hs, w, "default", "2d", Src::Bulk(l, 97), 1, 3, 0, 2));
        th!(one::<D2, DefaultParams>(hs, w, "default", "2d", Src::Ins(l, 60), 1, 3, 1, 2));
    }
    // large trees
    one::<D2, DefaultParams>(hs, w, "default", "2d", Src::Bulk(12, 217), 1, 3, 0, 1);
    one::<D2, DefaultParams>(hs, w, "default", "2d", Src::Mixed(13, 150), 1, 3, 0, 1);
    one::<D2, P4210>(hs, w, "4/2/1", "2d", Src::Ins(12, 150), 1, 3, 0, 1);
    one::<D2, P5212>(hs, w, "5/2/2", "2d", Src::Ins(13, 120), 1, 3, 0, 1);
    for n in (9..=60).step_by(3) {
        one::<D2, P4210>(hs, w, "4/2/1", "2d", Src::Ins(12, n), 1, 3, 0, 1);
        one::<D2, DefaultParams>(hs, w, "default", "2d", Src::Ins(13, n), 1, 3, 0, 1);
        one::<D2, P4112>(hs, w, "4/1/2", "2d", Src::Ins(12, n + 1), 1, 3, 0, 1);
        one::<D2, P5113>(hs, w, "5/1/3", "2d", Src::Ins(13, n + 1), 1, 3, 0, 1);
        one::<D2, P4210>(hs, w, "4/2/1", "2d", Src::Mixed(if n % 2 == 0 { 12 } else { 13 }, n + 2), 1, 3, 0, 1);
        one::<D3, DefaultParams>(hs, w, "default", "3d", Src::Mixed(13, n + 1), 1, 3, 0, 1);
    }
    th!(one::<D2, DefaultParams>(hs, w, "default", "2d", Src::Bulk(12, 1297), 1, 3, 0, 1));
    th!(one::<D2, P4112>(hs, w, "4/1/2", "2d", Src::Ins(12, 500), 1, 3, 0, 1));
    th!(one::<D3, DefaultParams>(hs, w, "default", "3d", Src::Mixed(13, 600), 1, 3, 0, 1));
    // other dimensions and point types, wide nodes
    one::<D3, P4210>(hs, w, "4/2/1", "3d", Src::Lay(u(&[4, 4]), 6), 2, 1, 0, 1);
    one::<D3, DefaultParams>(hs, w, "default", "3d", Src::Lay(u(&[6]), 5), 2, 1, 0, 1);
    one::<D3, DefaultParams>(hs, w, "default", "3d", Src::Bulk(5, 30), 1, 1, 0, 2);
    one::<D4, P4111>(hs, w, "4/1/1", "4d", Src::Lay(u(&[4, 4]), 6), 1, 1, 0, 1);
    one::<T2, P4210>(hs, w, "4/2/1", "tuple", Src::Lay(u(&[4, 4]), 6), 2, 1, 0, 1);
    one::<D2, P40>(hs, w, "40/10/5", "2d", Src::Lay(u(&[40]), 5), 1, 1, 0, 1);
    one::<D2, P9>(hs, w, "9/3/2", "2d", Src::Lay(u(&[9, 9]), 6), 1, 1, 0, 1);
    one::<D2, P16>(hs, w, "16/4/3", "2d", Src::Lay(u(&[16]), 5), 1, 1, 2, 1);
    // trees over symbolic coordinates
    for s in ["(0)", "(01)"] { one::<D2, P4210>(hs, w, "4/2/1", "2d", Src::Sym(sh(s), 0, 9), 1, 3, 0, 1); }
    // histories
    cov!(hist::<P4110>(hs, w, "4/1/0", 5, vec![0], vec![]));
    cov!(hist::<P4110>(hs, w, "4/1/0", 5, vec![0, 4, 1], vec![]));
    cov!(hist::<P4210>(hs, w, "4/2/1", 5, vec![0], vec![]));
    cov!(hist::<P4210>(hs, w, "4/2/1", 2, vec![0, 7, 3], vec![10, 50, 20, 40, 35, 36, 90, 91]));
    cov!(hist::<P4112>(hs, w, "4/1/2", 2, vec![0, 7, 3], vec![10, 50, 20, 40, 35, 36, 90, 91, 5, 6]));
    cov!(hist::<P4210>(hs, w, "4/2/1", 3, vec![0, 7, 3, 9, 2], vec![10, 50, 20]));
    cov!(hist::<DefaultParams>(hs, w, "default", 2, vec![0, 7, 3], vec![10, 50, 20, 40, 35, 36, 90, 91]));
    th!(hist::<P4110>(hs, w, "4/1/0", 6, vec![0], vec![]));
    th!(hist::<P4112>(hs, w, "4/1/2", 5, vec![0], vec![]));
    v
}
