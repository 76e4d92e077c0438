//! Clones and serialised copies (X01); what a tree shows of itself (X04).
use crate::*;
use crate::remove::KE;
use rstar::primitives::{GeomWithData, Line, PointWithData, Rectangle};
use rstar::{DefaultParams, ParentNode, Point, RTree, RTreeNode, RTreeObject, RTreeParams, AABB};
use serde::{de::DeserializeOwned, Serialize};

/// Everything observable about a node, copied out.
enum Dump<O> { Leaf(O), Node(Vec<Dump<O>>) }
struct Tree<O, E> { size: usize, root: Dump<O>, envs: Vec<E> }
fn dump<T: RTreeObject + Clone, Pa: RTreeParams>(t: &RTree<T, Pa>) -> Tree<T, T::Envelope> {
    fn go<T: RTreeObject + Clone>(n: &ParentNode<T>, e: &mut Vec<T::Envelope>) -> Dump<T> {
        e.push(n.envelope());
        Dump::Node(n.children().iter().map(|c| match c { RTreeNode::Leaf(t) => Dump::Leaf(t.clone()), RTreeNode::Parent(p) => go(p, e) }).collect())
    }
    let mut envs = vec![];
    let root = go(t.root(), &mut envs);
    Tree { size: t.size(), root, envs }
}
/// equality of the objects in the same places; `Err` when the structure differs
fn same_shape<O>(a: &Dump<O>, b: &Dump<O>, eq: &mut dyn FnMut(&O, &O) -> B) -> Result<B, ()> {
    match (a, b) {
        (Dump::Leaf(x), Dump::Leaf(y)) => Ok(eq(x, y)),
        (Dump::Node(x), Dump::Node(y)) if x.len() == y.len() => {
            let mut r = B::C(true);
            for (i, j) in x.iter().zip(y) { r = r & same_shape(i, j, eq)?; }
            Ok(r)
        }
        _ => Err(()),
    }
}
fn compare<P: Point, T: RTreeObject<Envelope = AABB<P>>>(c: &mut Cx, tag: &str, a: &Tree<T, AABB<P>>, b: &Tree<T, AABB<P>>, eq: &mut dyn FnMut(&T, &T) -> B) where P::Scalar: Sc {
    c.check(&format!("{tag}: same size"), (a.size == b.size).into());
    let s = same_shape(&a.root, &b.root, eq);
    c.check(&format!("{tag}: same structure"), s.is_ok().into());
    if let Ok(s) = s {
        c.check(&format!("{tag}: same objects"), s);
        c.check(&format!("{tag}: same envelopes"), B::all(a.envs.iter().zip(&b.envs).map(|(x, y)| box_eq(x, y))));
    }
}
fn roundtrip<T: Serialize + DeserializeOwned>(c: &mut Cx, tag: &str, t: &T) -> Option<T> {
    let r = serde_json::to_string(t).ok().and_then(|s| serde_json::from_str::<T>(&s).ok());
    c.check(&format!("{tag}: serialises and deserialises"), r.is_some().into());
    r
}

/// fully observable equality of objects
pub trait Full: Kind { fn full<S: Sc, D: Dim>(a: &Self::T<S, D>, b: &Self::T<S, D>) -> B; }
impl Full for KP { fn full<S: Sc, D: Dim>(a: &Self::T<S, D>, b: &Self::T<S, D>) -> B { eq_all(a, b) } }
impl Full for KO { fn full<S: Sc, D: Dim>(a: &Self::T<S, D>, b: &Self::T<S, D>) -> B { B::C(a.id == b.id) & box_eq(&a.bx, &b.bx) } }
impl Full for KE { fn full<S: Sc, D: Dim>(a: &Self::T<S, D>, b: &Self::T<S, D>) -> B { B::C(a.id == b.id) & box_eq(&a.bx, &b.bx) } }
impl Full for KR { fn full<S: Sc, D: Dim>(a: &Self::T<S, D>, b: &Self::T<S, D>) -> B { eq_all(&a.lower(), &b.lower()) & eq_all(&a.upper(), &b.upper()) & box_eq(&a.envelope(), &b.envelope()) } }
impl Full for KW { fn full<S: Sc, D: Dim>(a: &Self::T<S, D>, b: &Self::T<S, D>) -> B { B::C(a.data == b.data) & eq_all(&a.geom().lower(), &b.geom().lower()) & eq_all(&a.geom().upper(), &b.geom().upper()) & box_eq(&a.envelope(), &b.envelope()) } }
impl Full for KL { fn full<S: Sc, D: Dim>(a: &Self::T<S, D>, b: &Self::T<S, D>) -> B { eq_all(&a.from, &b.from) & eq_all(&a.to, &b.to) } }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cop { Same, Change, Query, Parts }
pub struct Copies<D, K, Pa> { pub op: Cop, pub src: Src, pub _p: PhantomData<fn() -> (D, K, Pa)> }
impl<D: Dim, K: Full, Pa: RTreeParams + Clone + 'static> Harn for Copies<D, K, Pa> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let (lo, hi) = self.src.span();
        let mut eq = |a: &K::T<S, D>, b: &K::T<S, D>| K::full::<S, D>(a, b);
        match self.op {
            Cop::Same => {
                let t: RTree<K::T<S, D>, Pa> = self.src.tree::<S, D, K, Pa>(c);
                let d = dump(&t);
                let t2 = t.clone();
                compare(c, "clone", &d, &dump(&t2), &mut eq);
                compare(c, "clone of a clone", &d, &dump(&t2.clone()), &mut eq);
                let mut t4: RTree<K::T<S, D>, Pa> = RTree::bulk_load_with_params(laid::<S, D, K>(0, 3));
                t4.clone_from(&t);
                compare(c, "clone_from", &d, &dump(&t4), &mut eq);
                if let Some(t3) = roundtrip(c, "tree", &t) { compare(c, "deserialised", &d, &dump(&t3), &mut eq); }
                if let Some(t3) = roundtrip(c, "cloned tree", &t2) { compare(c, "deserialised clone", &d, &dump(&t3), &mut eq); }
                if t.size() > 0 { c.cover("compared") }
            }
            Cop::Change => {
                let mut t: RTree<K::T<S, D>, Pa> = self.src.tree::<S, D, K, Pa>(c);
                let d = dump(&t);
                let mut copy = if c.flip() { t.clone() } else { match roundtrip(c, "tree", &t) { Some(x) => x, None => return } };
                let which = c.flip();
                let (x, y) = if which { (&mut t, &mut copy) } else { (&mut copy, &mut t) };
                let (pl, ph) = corners::<S, D>(5, 40);
                match c.choose(6) {
                    0 => { x.insert(K::make::<S, D>(77, pl, if K::POINT { pl } else { ph })); }
                    1 => { let o = leaves(x).first().map(|o| (*o).clone()); if let Some(o) = o { x.remove(&o); } }
                    2 => { x.pop_nearest_neighbor(pl); }
                    3 => { x.drain().count(); }
                    4 => { let b = part_box::<S, D>(c, 1, (lo / 2, hi / 2), lo, hi); x.drain_in_envelope_intersecting(b).count(); }
                    _ => { for o in leaves(x).iter().map(|o| (*o).clone()).collect::<Vec<_>>() { x.insert(o); } }
                }
                compare(c, "the other tree", &d, &dump(y), &mut eq);
                c.cover("changed");
            }
            Cop::Query => {
                let t: RTree<K::T<S, D>, Pa> = self.src.tree::<S, D, K, Pa>(c);
                let ts = [t.clone(), match roundtrip(c, "tree", &t) { Some(x) => x, None => return }];
                let (ls, q) = (leaves(&t), part_box::<S, D>(c, 1, (0, 3), lo, hi));
                let at = |o: &K::T<S, D>, v: &[&K::T<S, D>]| v.iter().position(|x| std::ptr::eq(*x, o));
                let a: Vec<_> = t.locate_in_envelope_intersecting(q).map(|o| at(o, &ls)).collect();
                let n: Vec<_> = t.nearest_neighbor_iter(q.lower()).map(|o| at(o, &ls)).collect();
                for u in &ts {
                    let l2 = leaves(u);
                    let b: Vec<_> = u.locate_in_envelope_intersecting(q).map(|o| at(o, &l2)).collect();
                    c.check("same answer to an envelope query", (a == b).into());
                    let m: Vec<_> = u.nearest_neighbor_iter(q.lower()).map(|o| at(o, &l2)).collect();
                    c.check("same nearest neighbour order", (n == m).into());
                }
                if !a.is_empty() { c.cover("found") }
            }
            Cop::Parts => {
                // boxes and primitives on their own
                let (a, b) = sym_corners::<S, D>(c, lo, hi);
                let bx: AABB<D::P<S>> = AABB::from_corners(a, b);
                let eqb = |x: &AABB<D::P<S>>| box_eq(x, &bx);
                c.check("box clone", eqb(&bx.clone()));
                if let Some(x) = roundtrip(c, "box", &bx) { c.check("box copy", eqb(&x)); }
                let o = if K::POINT { K::make::<S, D>(5, a, a) } else { K::make::<S, D>(5, a, b) };
                c.check("object clone", K::full::<S, D>(&o, &o.clone()));
                if let Some(x) = roundtrip(c, "object", &o) { c.check("object copy", K::full::<S, D>(&o, &x)); }
                let r = Rectangle::from_corners(a, b);
                if let Some(x) = roundtrip(c, "rectangle", &r) { c.check("rectangle copy", eqb(&x.envelope()) & eq_all(&x.lower(), &a) & eq_all(&x.upper(), &b)); }
                let l = Line::new(b, a);
                if let Some(x) = roundtrip(c, "line", &l) { c.check("line copy", eq_all(&x.from, &b) & eq_all(&x.to, &a)); }
                let g = GeomWithData::new(l, 17u8);
                if let Some(x) = roundtrip(c, "object with data", &g) { c.check("object with data copy", eq_all(&x.geom().from, &b) & eq_all(&x.geom().to, &a) & B::C(x.data == 17)); }
                #[allow(deprecated)]
                let p = PointWithData::new("data".to_string(), b);
                if let Some(x) = roundtrip(c, "point with data", &p) { c.check("point with data copy", eq_all(x.position(), &b) & B::C(x.data == "data")); }
            }
        }
    }
}
fn add<M: Native, D: Dim, K: Full, Pa: RTreeParams + Clone + 'static>(v: &mut Vec<Harness>, tag: &str, op: Cop, src: Src) {
    let mut h = Harness::new::<M, _>(format!("{}-{op:?}-{tag}-{}-{}", v.len(), std::any::type_name::<D>().rsplit(':').next().unwrap(), short(&src)), Copies::<D, K, Pa> { op, src: src.clone(), _p: PhantomData })
        .bounds(format!("{op:?}: {}", src.text()));
    match op { Cop::Same if src.n() > 0 => h = h.covers(&["compared"]), Cop::Change => h = h.covers(&["changed"]), _ => {} }
    if tag == "lines" && (op == Cop::Query && src.n() > 6 || op == Cop::Same && src.n() == 7 && matches!(src, Src::Sym(..))) { h.thorough = true; }
    v.push(h);
}
fn short(s: &Src) -> String {
    match s { Src::Sym(s, ..) => format!("sym{}", show(s)), Src::Lay(s, k) => format!("lay{k}{}", show(s)), Src::Bulk(k, n) => format!("bulk{k}_{n}"), Src::Ins(k, n) => format!("ins{k}_{n}"), Src::Mixed(k, n) => format!("mixed{k}_{n}") }
}
#[inline]
pub fn x01() -> Vec<Harness> {
    let mut v = vec![];
    let hs = &mut v;
    let sym = |s: &str| Src::Sym(Sh::parse(s), -1000, 1000);
    macro_rules! all { ($m:ty, $d:ty, $k:ty, $p:ty, $t:expr) => {
        for s in ["()", "(o)", "(oooo)", "((oo)(o))", "((oo)(ooo)(oo))", "(((o)(oo))((oo)))", "((((o)))(((o))))"] { add::<$m, $d, $k, $p>(hs, $t, Cop::Same, sym(s)); }
        for s in [Src::Bulk(5, 30), Src::Ins(6, 20), Src::Mixed(2, 24)] { add::<$m, $d, $k, $p>(hs, $t, Cop::Same, s.clone()); add::<$m, $d, $k, $p>(hs, $t, Cop::Change, s.clone()); add::<$m, $d, $k, $p>(hs, $t, Cop::Query, s); }
        for s in ["(oo)", "((oo)(o))"] { add::<$m, $d, $k, $p>(hs, $t, Cop::Parts, sym(s)); }
        add::<$m, $d, $k, $p>(hs, $t, Cop::Query, Src::Lay(Sh::parse("((oo)(o)(oo))"), 6));
    } }
    all!(i64, D2, KP, P4210, "points"); all!(i64, D3, KP, DefaultParams, "points"); all!(i64, D2, KO, P4210, "boxes"); all!(i64, T2, KR, P5221, "rectangles");
    all!(i64, D2, KW, P4210, "cached rectangles with data"); all!(Q, D2, KL, P4210, "lines"); all!(i64, T3, KW, P4110, "cached rectangles with data"); all!(i64, D2, KE, P4200, "boxes equal by shape");
    for s in ["(oo)", "((oo)(o))"] {
        add::<f64, D2, KW, P4210>(hs, "cached rectangles with data", Cop::Same, sym(s)); add::<f32, D3, KR, P4210>(hs, "rectangles", Cop::Same, sym(s)); add::<i32, D2, KP, P4210>(hs, "points", Cop::Same, sym(s));
    }
    for s in ["(oo)", "((o)(oo))"] { add::<i64, D2, KP, P4210>(hs, "points", Cop::Change, Src::Lay(Sh::parse(s), 5)); add::<i64, D2, KO, P4210>(hs, "boxes", Cop::Change, Src::Lay(Sh::parse(s), 6)); add::<i64, D2, KW, P4210>(hs, "cached rectangles", Cop::Change, Src::Lay(Sh::parse(s), 2)); }
    v
}

/// X04: root, children, leaf flags, envelopes and debug output against the objects handed out by the iterators.
fn shown<D: Dim, K: Kind, Pa: RTreeParams, S: Sc>(c: &mut Cx, tag: &str, t: &RTree<K::T<S, D>, Pa>, n: usize) {
    let (mut leaf_ok, mut env_ok, mut met) = (true, B::C(true), vec![]);
    fn go<'a, T: RTreeObject<Envelope = AABB<P>>, P: Point>(n: &'a ParentNode<T>, ok: &mut bool, env: &mut B, met: &mut Vec<&'a T>) where P::Scalar: Sc {
        for x in n.children() {
            match x {
                RTreeNode::Leaf(o) => { *ok &= x.is_leaf(); *env = env.clone() & box_eq(&x.envelope(), &o.envelope()); met.push(o); }
                RTreeNode::Parent(p) => { *ok &= !x.is_leaf(); *env = env.clone() & box_eq(&x.envelope(), &p.envelope()); go(p, ok, env, met); }
            }
        }
    }
    go(t.root(), &mut leaf_ok, &mut env_ok, &mut met);
    c.check(&format!("{tag}: leaves and internal nodes told apart"), leaf_ok.into());
    c.check(&format!("{tag}: envelopes of nodes"), env_ok);
    let mut a: Vec<*const K::T<S, D>> = met.iter().map(|x| *x as *const _).collect();
    let mut b: Vec<*const K::T<S, D>> = t.iter().map(|x| x as *const _).collect();
    a.sort();
    b.sort();
    c.check(&format!("{tag}: objects met by walking are those iterated"), (a == b).into());
    a.dedup();
    c.check(&format!("{tag}: every object met once, as many as the size says"), (a.len() == n && met.len() == n && t.size() == n).into());
    // debug output: the size and each object once
    let one: Vec<String> = met.iter().map(|x| format!("{x:?}")).collect();
    let out = format!("{t:?}");
    let mut rest = out.clone();
    let mut counts = true;
    let mut u = one.clone();
    u.sort();
    u.dedup();
    for x in &u {
        counts &= out.matches(x.as_str()).count() == one.iter().filter(|y| *y == x).count();
        rest = rest.replace(x.as_str(), " ");
    }
    c.check(&format!("{tag}: debug output lists every object once"), counts.into());
    c.check(&format!("{tag}: debug output names the size"), rest.split(|ch: char| !ch.is_ascii_alphanumeric()).any(|w| w == n.to_string()).into());
}
pub struct Shown<D, K, Pa> { pub src: Src, pub _p: PhantomData<fn() -> (D, K, Pa)> }
impl<D: Dim, K: Full, Pa: RTreeParams + Clone + 'static> Harn for Shown<D, K, Pa> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let mut t: RTree<K::T<S, D>, Pa> = self.src.tree::<S, D, K, Pa>(c);
        let n = leaves(&t).len();
        shown::<D, K, Pa, S>(c, "at first", &t, n);
        if n > 0 { c.cover("walked") }
        if matches!(self.src, Src::Sym(..)) { return; }
        match c.choose(3) {
            0 => {
                let p = part_pt::<S, D>(1, 3, -30, 90);
                t.insert(K::make::<S, D>(77, p, p));
                shown::<D, K, Pa, S>(c, "after an insertion", &t, n + 1);
            }
            1 => {
                let o = leaves(&t).get(c.choose(n.clamp(1, 4))).map(|o| (*o).clone());
                if let Some(o) = o { t.remove(&o); shown::<D, K, Pa, S>(c, "after a removal", &t, n - 1); }
            }
            _ => {
                let (lo, hi) = self.src.span();
                let b = part_box::<S, D>(c, 1, (lo / 2, hi / 2), lo - 3, hi + 3);
                let k = t.drain_in_envelope_intersecting(b).count();
                shown::<D, K, Pa, S>(c, "after a drain", &t, n - k);
            }
        }
    }
}
#[inline]
pub fn x04() -> Vec<Harness> {
    let mut v: Vec<Harness> = vec![];
    fn add<M: Native, D: Dim, K: Full, Pa: RTreeParams + Clone + 'static>(v: &mut Vec<Harness>, tag: &str, src: Src) {
        let mut h = Harness::new::<M, _>(format!("{}-shown-{tag}-{}-{}", v.len(), std::any::type_name::<D>().rsplit(':').next().unwrap(), short(&src)), Shown::<D, K, Pa> { src: src.clone(), _p: PhantomData }).bounds(src.text());
        if src.n() > 0 { h = h.covers(&["walked"]); }
        v.push(h);
    }
    let sym = |s: &str| Src::Sym(Sh::parse(s), -1000, 1000);
    macro_rules! all { ($m:ty, $d:ty, $k:ty, $p:ty, $t:expr) => {
        for s in ["()", "(o)", "(oooo)", "((oo)(o))", "((oo)(ooo)(oo))", "(((o)(oo))((oo)))", "((((o)))(((o))))"] { add::<$m, $d, $k, $p>(&mut v, $t, sym(s)); }
        for s in [Src::Bulk(5, 0), Src::Bulk(0, 1), Src::Bulk(5, 30), Src::Ins(6, 20), Src::Ins(2, 1), Src::Mixed(2, 24), Src::Lay(Sh::parse("((oo)(o)(oo))"), 6), Src::Ins(1, 12)] { add::<$m, $d, $k, $p>(&mut v, $t, s); }
    } }
    all!(i64, D2, KP, P4210, "points"); all!(i64, D3, KP, DefaultParams, "points"); all!(i64, D2, KO, P4210, "boxes"); all!(i64, T2, KR, P5221, "rectangles"); all!(i64, T3, KW, P4110, "cached rectangles with data");
    add::<f64, D2, KW, P4210>(&mut v, "cached rectangles with data", sym("((oo)(o))")); add::<f32, D3, KR, P4210>(&mut v, "rectangles", sym("((oo)(o))")); add::<Q, D2, KL, P4210>(&mut v, "lines", sym("((oo)(o))"));
    v
}
