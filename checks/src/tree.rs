//! Arbitrary valid trees (built through the public serde interface), user object types, well-formedness.
use crate::geo::*;
use rstar::{Envelope, ParentNode, Point, PointDistance, RTree, RTreeNode, RTreeObject, RTreeParams, RStarInsertionStrategy, AABB};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use vsym::*;

pub trait Pt: Point + Serialize + DeserializeOwned + Copy + 'static where Self::Scalar: Sc {}
impl<P: Point + Serialize + DeserializeOwned + Copy + 'static> Pt for P where P::Scalar: Sc {}

/// A user-defined object: an identity and a box. Equality is identity (so equality implies equal envelopes).
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound(serialize = "P: Serialize", deserialize = "P: DeserializeOwned"))]
pub struct Ob<P: Point> { pub id: u32, pub bx: AABB<P> }
impl<P: Point> PartialEq for Ob<P> { fn eq(&self, o: &Self) -> bool { self.id == o.id } }
impl<P: Point> RTreeObject for Ob<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> { self.bx.clone() }
}
impl<P: Point> PointDistance for Ob<P> where P::Scalar: Sc {
    fn distance_2(&self, p: &P) -> P::Scalar { self.bx.distance_2(p) }
    fn contains_point(&self, p: &P) -> bool { self.bx.contains_point(p) }
}

macro_rules! params { ($($n:ident $max:expr, $min:expr, $re:expr;)*) => { $(
    #[derive(Clone, Copy, PartialEq, Eq, Default, Debug)]
    pub struct $n;
    impl RTreeParams for $n {
        const MAX_SIZE: usize = $max;
        const MIN_SIZE: usize = $min;
        const REINSERTION_COUNT: usize = $re;
        type DefaultInsertionStrategy = RStarInsertionStrategy;
    }
)* } }
params! { P4210 4, 2, 1; P4200 4, 2, 0; P4110 4, 1, 0; P4111 4, 1, 1; P4112 4, 1, 2; P5113 5, 1, 3; P5212 5, 2, 2; P5300 5, 3, 0; P5311 5, 3, 1; P5221 5, 2, 1; P40 40, 10, 5; P9 9, 3, 2; P16 16, 4, 3; }

/// Field names of the serialised form, learnt from a serialised sample tree.
pub struct Names { size: String, root: String, rest: Vec<(String, Value)>, children: String, envelope: String, leaf: String, parent: String, lower: String, upper: String }
fn names() -> &'static Names {
    static N: std::sync::OnceLock<Names> = std::sync::OnceLock::new();
    N.get_or_init(|| {
        let pts: Vec<[i64; 2]> = (0..7).map(|i| [i * 3 + 100, i * 5 + 200]).collect();
        let t: RTree<[i64; 2]> = RTree::bulk_load(pts);
        let v = serde_json::to_value(&t).expect("serialise");
        let o = v.as_object().expect("tree object");
        let mut n = Names { size: String::new(), root: String::new(), rest: vec![], children: String::new(), envelope: String::new(), leaf: "Leaf".into(), parent: "Parent".into(), lower: String::new(), upper: String::new() };
        for (k, x) in o {
            if x == &json!(7) { n.size = k.clone() } else if x.is_object() && n.root.is_empty() { n.root = k.clone() } else { n.rest.push((k.clone(), x.clone())) }
        }
        let r = o[&n.root].as_object().expect("root object");
        for (k, x) in r { if x.is_array() { n.children = k.clone() } else if x.is_object() { n.envelope = k.clone() } }
        let e = r[&n.envelope].as_object().expect("envelope");
        for (k, x) in e { if x == &json!([100, 200]) { n.lower = k.clone() } else { n.upper = k.clone() } }
        let p = r[&n.children].as_array().unwrap()[0].as_object().expect("enum");
        n.parent = p.keys().next().unwrap().clone();
        let g = p[&n.parent].as_object().unwrap()[&n.children].as_array().unwrap()[0].as_object().unwrap();
        n.leaf = g.keys().next().unwrap().clone();
        n
    })
}
pub fn mk_box<P: Pt>(lo: P, hi: P) -> AABB<P> where P::Scalar: Sc {
    let n = names();
    let mut m = Map::new();
    m.insert(n.lower.clone(), serde_json::to_value(lo).unwrap());
    m.insert(n.upper.clone(), serde_json::to_value(hi).unwrap());
    serde_json::from_value(Value::Object(m)).expect("box")
}

/// Tree shapes: leaf object index or node.
#[derive(Clone, Debug)]
pub enum Sh { L(usize), N(Vec<Sh>) }
impl Sh {
    /// Parses e.g. "((01)(23))": digits/letters are consecutive objects, numbered in reading order.
    pub fn parse(s: &str) -> Sh {
        fn go(b: &[u8], i: &mut usize, k: &mut usize) -> Sh {
            if b[*i] == b'(' {
                *i += 1;
                let mut v = vec![];
                while b[*i] != b')' { v.push(go(b, i, k)); }
                *i += 1;
                Sh::N(v)
            } else { *i += 1; *k += 1; Sh::L(*k - 1) }
        }
        go(s.as_bytes(), &mut 0, &mut 0)
    }
    /// root with the given node sizes at each level, e.g. [2,3] = root of 2 nodes of 3 objects
    pub fn uniform(f: &[usize]) -> Sh {
        fn go(f: &[usize], k: &mut usize) -> Sh {
            match f { [] => { *k += 1; Sh::L(*k - 1) } [n, r @ ..] => Sh::N((0..*n).map(|_| go(r, k)).collect()) }
        }
        go(f, &mut 0)
    }
    /// root over leaf-level nodes of the given sizes
    pub fn two(sizes: &[usize]) -> Sh {
        let mut k = 0;
        Sh::N(sizes.iter().map(|&n| Sh::N((0..n).map(|_| { k += 1; Sh::L(k - 1) }).collect())).collect())
    }
    pub fn leaves(&self) -> usize { match self { Sh::L(_) => 1, Sh::N(v) => v.iter().map(|s| s.leaves()).sum() } }
}

/// Builds a tree of the given shape; `env` yields the (tight) envelope of a node from its children's.
pub fn build<T, Pa>(shape: &Sh, objs: &[T], env: &mut dyn FnMut(&[T::Envelope]) -> T::Envelope) -> RTree<T, Pa>
where T: RTreeObject + Serialize + DeserializeOwned, T::Envelope: Serialize + DeserializeOwned, Pa: RTreeParams {
    let n = names();
    fn node<T: RTreeObject + Serialize>(n: &Names, s: &Sh, objs: &[T], env: &mut dyn FnMut(&[T::Envelope]) -> T::Envelope) -> (Value, T::Envelope)
    where T::Envelope: Serialize {
        match s {
            Sh::L(i) => {
                let mut m = Map::new();
                m.insert(n.leaf.clone(), serde_json::to_value(&objs[*i]).unwrap());
                (Value::Object(m), objs[*i].envelope())
            }
            Sh::N(v) => {
                let ch: Vec<(Value, T::Envelope)> = v.iter().map(|s| {
                    let (x, e) = node(n, s, objs, env);
                    if let Sh::N(_) = s { let mut m = Map::new(); m.insert(n.parent.clone(), x); (Value::Object(m), e) } else { (x, e) }
                }).collect();
                let e = env(&ch.iter().map(|c| c.1.clone()).collect::<Vec<_>>());
                let mut m = Map::new();
                m.insert(n.children.clone(), Value::Array(ch.into_iter().map(|c| c.0).collect()));
                m.insert(n.envelope.clone(), serde_json::to_value(&e).unwrap());
                (Value::Object(m), e)
            }
        }
    }
    let (root, _) = node(n, shape, objs, env);
    let mut m = Map::new();
    for (k, v) in &n.rest { m.insert(k.clone(), v.clone()); }
    m.insert(n.size.clone(), json!(shape.leaves()));
    m.insert(n.root.clone(), root);
    serde_json::from_value(Value::Object(m)).expect("tree")
}

/// A tight bounding box: constants where all parts are constant or equal, otherwise a fresh unknown that is
/// at most every part and equal to one of them.
pub fn tight<P: Pt>(c: &mut Cx, parts: &[AABB<P>], lo: i64, hi: i64) -> AABB<P> where P::Scalar: Sc {
    let bound = |c: &mut Cx, v: Vec<P::Scalar>, low: bool| -> P::Scalar {
        let mut cand: Vec<P::Scalar> = vec![];
        'o: for x in v {
            for y in cand.iter_mut() {
                let (le, ge) = (x.ble(*y), y.ble(x));
                if low && ge == B::C(true) || !low && le == B::C(true) { continue 'o; }
                if low && le == B::C(true) || !low && ge == B::C(true) { *y = x; continue 'o; }
            }
            cand.push(x);
        }
        if cand.len() == 1 { return cand[0]; }
        if c.native() { return cand[1..].iter().fold(cand[0], |m, x| if low && *x < m || !low && *x > m { *x } else { m }); }
        let m: P::Scalar = c.derived(lo, hi);
        for x in &cand { let b = if low { m.ble(*x) } else { x.ble(m) }; c.assume(b); }
        let any = B::any(cand.iter().map(|x| m.beq(*x)));
        c.assume(any);
        m
    };
    if parts.is_empty() { return AABB::new_empty(); }
    let l = P::generate(|i| bound(c, parts.iter().map(|p| p.lower().nth(i)).collect(), true));
    let u = P::generate(|i| bound(c, parts.iter().map(|p| p.upper().nth(i)).collect(), false));
    mk_box(l, u)
}
pub fn build_boxes<P: Pt, Pa: RTreeParams>(c: &mut Cx, shape: &Sh, objs: &[Ob<P>], lo: i64, hi: i64) -> RTree<Ob<P>, Pa> where P::Scalar: Sc {
    build(shape, objs, &mut |parts| tight(c, parts, lo, hi))
}

/// Structure of a tree as seen through the public API.
pub fn visit<'a, T: RTreeObject>(n: &'a ParentNode<T>, depth: usize, f: &mut dyn FnMut(&'a ParentNode<T>, usize), leaf: &mut dyn FnMut(&'a T, usize)) {
    f(n, depth);
    for ch in n.children() {
        match ch {
            RTreeNode::Leaf(t) => leaf(t, depth + 1),
            RTreeNode::Parent(p) => visit(p, depth + 1, f, leaf),
        }
    }
}
pub struct Limits { pub max_leaf_level: Option<usize>, pub max_any: Option<usize>, pub min: Option<usize> }
pub const NO_LIMITS: Limits = Limits { max_leaf_level: None, max_any: None, min: None };

/// Checks tight envelopes, non-empty internal nodes and a single object depth (plus node sizes on request).
pub fn check_wf<P: Pt, T: RTreeObject<Envelope = AABB<P>>, Pa: RTreeParams>(c: &mut Cx, tag: &str, t: &RTree<T, Pa>, lim: &Limits) where P::Scalar: Sc {
    let mut ok_env = B::C(true);
    let mut nonempty = true;
    let mut max_ok = true;
    let mut min_ok = true;
    let mut depths = std::collections::BTreeSet::new();
    let empty = t.root().children().is_empty();
    visit(t.root(), 0, &mut |n, d| {
        if n.children().is_empty() { if d > 0 { nonempty = false } return; }
        let parts: Vec<AABB<P>> = n.children().iter().map(|x| match x { RTreeNode::Leaf(t) => t.envelope(), RTreeNode::Parent(p) => p.envelope() }).collect();
        ok_env = ok_env & is_tight(&n.envelope(), &parts);
        let k = n.children().len();
        if let Some(m) = lim.max_any { if k > m { max_ok = false } }
        if n.children().iter().any(|x| matches!(x, RTreeNode::Leaf(_))) { if let Some(m) = lim.max_leaf_level { if k > m { max_ok = false } } }
        if d > 0 { if let Some(m) = lim.min { if k < m { min_ok = false } } }
    }, &mut |_, d| { depths.insert(d); });
    if empty { ok_env = is_empty_box(&t.root().envelope()); }
    c.check(&format!("{tag}: every node envelope is the smallest one"), ok_env);
    c.check(&format!("{tag}: no empty internal node"), nonempty.into());
    c.check(&format!("{tag}: all objects at one depth"), (depths.len() <= 1).into());
    c.check(&format!("{tag}: node size maximum"), max_ok.into());
    c.check(&format!("{tag}: node size minimum"), min_ok.into());
}
pub fn ids<P: Pt, Pa: RTreeParams>(t: &RTree<Ob<P>, Pa>) -> Vec<u32> where P::Scalar: Sc {
    let mut v = vec![];
    visit(t.root(), 0, &mut |_, _| {}, &mut |o, _| v.push(o.id));
    v.sort();
    v
}
/// Contents by identity and reported size; also through the iterator.
pub fn check_content<P: Pt, Pa: RTreeParams>(c: &mut Cx, tag: &str, t: &RTree<Ob<P>, Pa>, expect: &[u32]) where P::Scalar: Sc {
    let mut e = expect.to_vec();
    e.sort();
    c.check(&format!("{tag}: contents"), (ids(t) == e).into());
    let mut it: Vec<u32> = t.iter().map(|o| o.id).collect();
    it.sort();
    c.check(&format!("{tag}: iterated contents"), (it == e).into());
    c.check(&format!("{tag}: size"), (t.size() == e.len()).into());
}
/// The object handed out or stored is the one created (its box is unchanged).
pub fn check_boxes<P: Pt>(c: &mut Cx, tag: &str, got: &[&Ob<P>], orig: &BTreeMap<u32, AABB<P>>) where P::Scalar: Sc {
    let ok = B::all(got.iter().map(|o| match orig.get(&o.id) { Some(b) => box_eq(&o.bx, b), None => B::C(false) }));
    c.check(&format!("{tag}: objects unchanged"), ok);
}
pub fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> { v.sort(); v }
