//! Bulk loading (T03) and operation histories against a multiset (T07).
use crate::*;
use crate::remove::*;
use rstar::{DefaultParams, Point, RTree, RTreeNode, RTreeObject, RTreeParams, AABB};
use std::collections::BTreeMap;

/// Bulk load of n objects of a layout, of which the objects at `pos` get `k` symbolic coordinates.
pub struct Bulk<D, K, Pa> { pub lay: usize, pub n: usize, pub pos: Vec<usize>, pub k: usize, pub then: bool, pub _p: PhantomData<fn() -> (D, K, Pa)> }
impl<D: Dim, K: Id, Pa: RTreeParams + 'static> Harn for Bulk<D, K, Pa> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let (lo, hi) = span(self.lay, self.n);
        let mut objs = laid::<S, D, K>(self.lay, self.n);
        for &i in &self.pos {
            let (l, u) = corners::<S, D>(self.lay, i);
            let p = <D::P<S> as Point>::generate(|d| if d < self.k { S::input(lo, hi) } else { l.nth(d) });
            let q = <D::P<S> as Point>::generate(|d| p.nth(d).sadd(u.nth(d).ssub(l.nth(d))));
            objs[i] = K::make::<S, D>(i as u32, p, q);
        }
        let mut have: BTreeMap<u32, AABB<D::P<S>>> = objs.iter().map(|o| (K::id::<S, D>(o), o.envelope())).collect();
        let mut t: RTree<K::T<S, D>, Pa> = RTree::bulk_load_with_params(objs);
        state::<S, D, K, Pa>(c, "bulk load", &t, &have);
        // nodes that hold objects stay within the maximum
        let mut ok = true;
        visit(t.root(), 0, &mut |n, _| if n.children().iter().any(|x| matches!(x, RTreeNode::Leaf(_))) && n.children().len() > Pa::MAX_SIZE { ok = false }, &mut |_, _| {});
        c.check("bulk load: at most the maximum of objects in a node", ok.into());
        if height(&t) > 0 { c.cover("several levels") }
        if self.then {
            // still usable: insert, then remove what is at a given object's corner
            let x = <D::P<S> as Point>::generate(|d| S::from_i(if d == 0 { 3 } else { 2 }));
            for j in 0..2u32 {
                let o = K::make::<S, D>(5000 + j, x, x);
                have.insert(5000 + j, o.envelope());
                t.insert(o);
                state::<S, D, K, Pa>(c, "insertion after bulk load", &t, &have);
            }
            for j in [0, self.n / 2] {
                if j >= self.n { continue; }
                let p = corners::<S, D>(self.lay, j).0;
                let any = B::any(have.values().map(|b| box_contains_point(b, &p)));
                match t.remove_at_point(p) {
                    None => c.check("removal after bulk load: nothing only if nothing is there", !any),
                    Some(o) => { let b = have.remove(&K::id::<S, D>(&o)); c.check("removal after bulk load: a stored object at the point", b.map_or(B::C(false), |b| box_contains_point(&b, &p))); }
                }
                state::<S, D, K, Pa>(c, "removal after bulk load", &t, &have);
            }
        }
    }
}

#[inline]
pub fn bulk_harnesses() -> Vec<Harness> {
    let mut v = vec![];
    let hs = &mut v;
    fn add<D: Dim, K: Id, Pa: RTreeParams + 'static>(hs: &mut Vec<Harness>, pn: &str, dn: &str, lay: usize, n: usize, pos: Vec<usize>, k: usize, then: bool) -> usize {
        let b = format!("bulk load [{pn}, {dn}] of {n} objects of layout {lay}; objects {pos:?} with {k} symbolic coordinate(s) in {:?}{}", span(lay, n), if then { ", then two insertions and two removals" } else { "" });
        hs.push(Harness::new::<i64, _>(format!("bulk-{}-{pn}-{dn}-lay{lay}-n{n}-k{k}-s{}", hs.len(), pos.len()), Bulk::<D, K, Pa> { lay, n, pos, k, then, _p: PhantomData }).bounds(b));
        hs.len() - 1
    }
    macro_rules! th { ($e:expr) => { { let i = $e; hs[i].thorough = true; } } }
    macro_rules! cov { ($e:expr) => { { let i = $e; hs[i].covers.push("several levels".into()); } } }
    // every object symbolic
    for n in 0..=4 { add::<D2, KO, DefaultParams>(hs, "default", "2d", 8, n, (0..n).collect(), 1, true); }
    for n in 0..=4 { add::<D2, KO, P4210>(hs, "4/2/1", "2d", 8, n, (0..n).collect(), 1, false); }
    cov!(add::<D2, KO, P4210>(hs, "4/2/1", "2d", 8, 5, (0..5).collect(), 1, false));
    for l in [0, 5] { add::<D2, KO, P4210>(hs, "4/2/1", "2d", l, 3, (0..3).collect(), 2, false); }
    // every count, one or two symbolic objects
    for n in 1..=60 {
        let pos = vec![n / 3];
        let r = if n <= 24 { 2 } else { 1 };
        add::<D2, KO, DefaultParams>(hs, "default", "2d", if n % 2 == 0 { 5 } else { 6 }, n, pos.clone(), if n <= 14 { 2 } else { 1 }, n <= 40);
        if n % r == 0 || n <= 12 { add::<D2, KO, P4210>(hs, "4/2/1", "2d", if n % 2 == 0 { 6 } else { 0 }, n, pos.clone(), 1, n <= 40); }
        if n % 3 == 0 { add::<D3, KO, DefaultParams>(hs, "default", "3d", 5, n, pos.clone(), 1, n <= 40); }
        if n % 3 == 1 { add::<D3, KO, P4210>(hs, "4/2/1", "3d", 6, n, pos.clone(), 1, n <= 40); }
        if n % 5 == 2 { add::<D4, KO, P5300>(hs, "5/3/0", "4d", 5, n, pos.clone(), 1, n <= 40); }
        if n % 4 == 3 { add::<D2, KO, P9>(hs, "9/3/2", "2d", 5, n, pos.clone(), 1, false); }
        if n % 6 == 1 { add::<T3, KW, DefaultParams>(hs, "default", "tuple wrapped", 6, n, pos, 1, false); }
    }
    for n in [64, 65, 72, 73, 96, 97, 108, 109, 125, 128, 129, 144, 150, 216, 217] {
        add::<D2, KO, DefaultParams>(hs, "default", "2d", 5, n, vec![n / 3], 1, false);
        add::<D2, KO, P4210>(hs, "4/2/1", "2d", 6, n, vec![n / 2], 1, false);
        th!(add::<D3, KO, DefaultParams>(hs, "default", "3d", 5, n, vec![n / 2], 1, false));
        th!(add::<D2, KO, DefaultParams>(hs, "default", "2d", 6, n, vec![n / 3], 2, true));
    }
    for l in [1, 2, 3, 4, 7, 8] {
        for n in [2, 5, 6, 7, 12, 13, 25, 37] {
            add::<D2, KO, DefaultParams>(hs, "default", "2d", l, n, vec![0, n / 2], 1, n < 20);
            add::<D3, KO, P4210>(hs, "4/2/1", "3d", l, n, vec![n - 1], 1, n < 30);
        }
    }
    for n in [39, 40, 41, 80, 81, 120] { add::<D2, KO, P40>(hs, "40/10/5", "2d", 5, n, vec![1], 1, n < 42); }
    for n in 61..=216 { if n % 5 == 0 { th!(add::<D2, KO, DefaultParams>(hs, "default", "2d", 5, n, vec![n / 3], 1, true)); } }
    for n in [300, 432, 433, 500, 648, 649] { th!(add::<D2, KO, DefaultParams>(hs, "default", "2d", 5, n, vec![n / 3], 1, false)); }
    v
}

/// Operation histories. Coordinates of new objects and of arguments are unknown on the first axis.
pub struct History<K, Pa> { pub start: (usize, usize, bool), pub ops: Vec<Vec<char>>, pub hi: i64, pub other: Vec<i64>, pub member: bool, pub _p: PhantomData<fn() -> (K, Pa)> }
impl<K: Id, Pa: RTreeParams + 'static> Harn for History<K, Pa> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let (lay_, n, grown) = self.start;
        let objs = laid::<S, D2, K>(lay_, n);
        let mut have: BTreeMap<u32, AABB<[S; 2]>> = objs.iter().map(|o| (K::id::<S, D2>(o), o.envelope())).collect();
        let mut t: RTree<K::T<S, D2>, Pa> = if grown { let mut t = RTree::new_with_params(); for o in objs { t.insert(o); } t } else { RTree::bulk_load_with_params(objs) };
        let mk = |id: u32, x: S, y: S| K::make::<S, D2>(id, [x, y], [x, y]);
        for (step, set) in self.ops.iter().enumerate() {
            let op = set[c.choose(set.len())];
            let y = S::from_i(self.other[step % self.other.len()]);
            match op {
                // insert
                'i' => { let x = c.num(0, self.hi); let id = 10_000 + step as u32; let o = mk(id, x, y); have.insert(id, o.envelope()); t.insert(o); c.cover("insert"); }
                // insert a copy of a stored object
                'd' => if let Some((_, b)) = have.iter().next().map(|(i, b)| (*i, *b)) { let id = 10_000 + step as u32; have.insert(id, b); t.insert(K::make::<S, D2>(id, b.lower(), b.upper())); },
                // remove by point
                'r' => {
                    let p = [c.num(0, self.hi), y];
                    let any = B::any(have.values().map(|b| box_contains_point(b, &p)));
                    match t.remove_at_point(p) {
                        None => c.check("history: removal finds what is there", !any),
                        Some(o) => { c.cover("remove"); let b = have.remove(&K::id::<S, D2>(&o)); c.check("history: removal returns a matching object", b.map_or(B::C(false), |b| box_contains_point(&b, &p))); }
                    }
                }
                // pop nearest
                'p' => {
                    let p = [c.num(0, self.hi), y];
                    match t.pop_nearest_neighbor(p) {
                        None => c.check("history: pop returns an object unless empty", have.is_empty().into()),
                        Some(o) => {
                            c.cover("pop");
                            let b = have.remove(&K::id::<S, D2>(&o));
                            c.check("history: pop returns a stored object", b.is_some().into());
                            if let Some(b) = b { let d = point_box_d2(&b, &p); c.check("history: the popped object is nearest", B::all(have.values().map(|x| d.ble(point_box_d2(x, &p))))); }
                        }
                    }
                }
                // drain an interval, possibly interrupted
                'e' => {
                    let (a, b): (S, S) = (c.num(0, self.hi), c.num(0, self.hi));
                    c.assume(a.ble(b));
                    let (l, h) = (S::from_i(-100), S::from_i(100));
                    let bx = mk_box([a, l], [b, h]);
                    let steps = c.choose(3);
                    let mut it = t.drain_in_envelope_intersecting(bx);
                    let mut got = vec![];
                    let mut done = false;
                    loop {
                        if steps < 2 && got.len() == steps { break; }
                        match it.next() { Some(o) => got.push(o), None => { done = true; break } }
                        if got.len() > 100 { break; }
                    }
                    drop(it);
                    c.cover("drain");
                    for o in got {
                        let b = have.remove(&K::id::<S, D2>(&o));
                        c.check("history: drain yields matching stored objects", b.map_or(B::C(false), |b| boxes_touch(&bx, &b)));
                    }
                    if done { c.check("history: drain yields all matching objects", B::all(have.values().map(|b| !boxes_touch(&bx, b)))); }
                }
                // rebuild by bulk loading the contents
                'b' => { let v: Vec<_> = t.into_iter().collect(); t = RTree::bulk_load_with_params(v); c.cover("bulk"); }
                // thin the tree out: one by one, all but every 11th (x), 17th (y) or the last three (z) of the stored objects are removed
                'x' | 'y' | 'z' => {
                    let ids: Vec<u32> = have.keys().copied().collect();
                    for (j, id) in ids.iter().enumerate() {
                        let keep = match op { 'x' => j % 11 == 3, 'y' => j % 17 == 16, _ => j + 3 >= ids.len() };
                        if keep { continue; }
                        let Some(b) = have.get(id).copied() else { continue };
                        let got = t.remove(&K::make::<S, D2>(*id, b.lower(), b.upper()));
                        c.check("history: thinning removes a stored object", got.is_some().into());
                        if let Some(o) = got { let x = have.remove(&K::id::<S, D2>(&o)); c.check("history: thinning removes an equal object", x.map_or(B::C(false), |x| box_eq(&x, &b))); }
                    }
                    c.cover("thinned");
                }
                // drain everything
                'a' => { let g: Vec<u32> = t.drain().map(|o| K::id::<S, D2>(&o)).collect(); c.check("history: drain yields everything", (sorted(g) == have.keys().copied().collect::<Vec<_>>()).into()); have.clear(); c.cover("drain all"); }
                _ => unreachable!(),
            }
            state::<S, D2, K, Pa>(c, "history", &t, &have);
        }
        // membership
        if !self.member { return; }
        let q = [c.num(0, self.hi), S::from_i(self.other[0])];
        let o = K::make::<S, D2>(99_999, q, q);
        let b = mk_box(q, q);
        if std::any::TypeId::of::<K>() == std::any::TypeId::of::<KE>() {
            let want = B::any(have.values().map(|x| box_eq(x, &b)));
            let r = t.contains(&o);
            c.check("history: membership", want.iff(r.into()));
        }
    }
}
#[inline]
pub fn history_harnesses() -> Vec<Harness> {
    let mut v = vec![];
    let hs = &mut v;
    fn add<K: Id, Pa: RTreeParams + 'static>(hs: &mut Vec<Harness>, pn: &str, start: (usize, usize, bool), ops: &[&str], hi: i64, other: Vec<i64>) -> usize {
        let b = format!("start: {} {} objects of layout {} [{pn}]; then one of {:?} per step (i insert, d insert a duplicate, r remove at a point, p pop nearest, e drain an interval for 0, 1 or all steps, b rebuild by bulk load, a drain all, x y z remove all but a few objects of known position), every coordinate on the first axis symbolic in 0..={hi}, second axis {:?}", if start.2 { "insert" } else { "bulk load" }, start.1, start.0, ops, other);
        hs.push(Harness::new::<i64, _>(format!("history-{}-{pn}-{}{}-{}", hs.len(), if start.2 { "grown" } else { "bulk" }, start.1, ops.join("-")), History::<K, Pa> { start, ops: ops.iter().map(|s| s.chars().collect()).collect(), hi, other, member: start.1 < 4 || start.0 == 1, _p: PhantomData }).bounds(b));
        hs.len() - 1
    }
    macro_rules! th { ($e:expr) => { { let i = $e; hs[i].thorough = true; } } }
    // from the empty tree
    let i = add::<KE, P4210>(hs, "4/2/1", (8, 0, true), &["idrpeba", "irpe", "irpe"], 20, vec![0]);
    hs[i].covers = ["insert", "remove", "pop", "drain", "bulk"].iter().map(|s| s.to_string()).collect();
    add::<KE, P4110>(hs, "4/1/0", (8, 2, true), &["irpe", "irp", "irpe"], 20, vec![0]);
    // from full nodes
    add::<KE, P4210>(hs, "4/2/1", (8, 4, true), &["i", "rpeba", "ir"], 20, vec![0]);
    add::<KE, P4210>(hs, "4/2/1", (8, 4, true), &["i", "e", "i"], 20, vec![0]);
    add::<KE, P4210>(hs, "4/2/1", (8, 6, false), &["irpea", "irpe"], 20, vec![0]);
    add::<KE, P4210>(hs, "4/2/1", (0, 8, false), &["irpeb", "irp"], 30, vec![0, 4]);
    add::<KE, P4112>(hs, "4/1/2", (0, 7, true), &["irpe", "ip"], 30, vec![3, 4]);
    add::<KE, DefaultParams>(hs, "default", (8, 6, true), &["i", "rp", "i"], 20, vec![0]);
    th!(add::<KE, DefaultParams>(hs, "default", (8, 6, true), &["i", "irp", "e"], 20, vec![0]));
    th!(add::<KE, DefaultParams>(hs, "default", (0, 14, false), &["irpe", "ip"], 30, vec![0, 4]));
    add::<KE, DefaultParams>(hs, "default", (0, 13, false), &["rpe", "i"], 30, vec![0, 4]);
    add::<KE, DefaultParams>(hs, "default", (5, 20, false), &["irp", "irp"], 20, vec![2, 1]);
    add::<KE, P5311>(hs, "5/3/1", (8, 5, true), &["i", "pe", "rb"], 20, vec![0]);
    add::<KE, P4210>(hs, "4/2/1", (1, 6, false), &["e", "idp", "rpe", "ip"], 12, vec![5]);
    // thin the tree out, then grow it again
    add::<KE, P4210>(hs, "4/2/1", (8, 8, false), &["e", "e", "i"], 20, vec![0]);
    add::<KE, P4210>(hs, "4/2/1", (8, 12, false), &["e", "r", "i"], 32, vec![0]);
    for (l, n, g) in [(0, 70, false), (8, 66, false), (5, 130, false), (5, 90, true)] {
        for x in ["x", "y", "z"] {
            let i = add::<KE, P4210>(hs, "4/2/1", (l, n, g), &[x, "i", "irp"], 60, vec![3, 2]);
            hs[i].covers.push("thinned".into());
            if n > 80 { hs[i].thorough = x != "y"; }
            add::<KE, P5311>(hs, "5/3/1", (l, n, g), &[x, "i", if n < 80 { "irp" } else { "i" }], 60, vec![3, 2]);
        }
        add::<KE, DefaultParams>(hs, "default", (l, 2 * n + 90, g), &["y", "i", "irp"], 60, vec![3, 2]);
        th!(add::<KE, DefaultParams>(hs, "default", (l, 2 * n + 90, g), &["z", "i", "irp"], 60, vec![3, 2]));
        th!(add::<KE, DefaultParams>(hs, "default", (l, 4 * n + 90, g), &["y", "i", "irp", "i"], 60, vec![3, 2]));
    }
    th!(add::<KE, P4210>(hs, "4/2/1", (8, 9, false), &["irpea", "irpe"], 20, vec![0]));
    th!(add::<KE, P4210>(hs, "4/2/1", (0, 12, false), &["irpeb", "irpe"], 30, vec![0, 4]));
    th!(add::<KE, P4112>(hs, "4/1/2", (0, 11, true), &["irpe", "ipe"], 30, vec![3, 4]));
    th!(add::<KE, P4210>(hs, "4/2/1", (8, 4, true), &["id", "irpeba", "irpe"], 20, vec![0]));
    th!(add::<KE, P4210>(hs, "4/2/1", (8, 4, true), &["idrpe", "irpe", "irpe", "irpe"], 12, vec![0]));
    th!(add::<KE, DefaultParams>(hs, "default", (8, 8, true), &["irpe", "irpe", "irpe"], 20, vec![0]));
    th!(add::<KE, P4210>(hs, "4/2/1", (8, 16, false), &["e", "i", "i", "e"], 32, vec![0]));
    v
}
