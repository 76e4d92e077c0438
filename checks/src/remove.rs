//! Removals and drains (T04, T05, T06).
use crate::*;
use rstar::{DefaultParams, Envelope, Point, PointDistance, RTree, RTreeObject, RTreeParams, SelectionFunction, AABB};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

/// A user object whose equality looks at the box only, so that equal but distinguishable objects exist.
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound(serialize = "P: Serialize", deserialize = "P: DeserializeOwned"))]
pub struct Oe<P: Point> { pub id: u32, pub bx: AABB<P> }
impl<P: Point> PartialEq for Oe<P> { fn eq(&self, o: &Self) -> bool { self.bx == o.bx } }
impl<P: Point> RTreeObject for Oe<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> { self.bx.clone() }
}
impl<P: Point> PointDistance for Oe<P> where P::Scalar: Sc {
    fn distance_2(&self, p: &P) -> P::Scalar { self.bx.distance_2(p) }
    fn contains_point(&self, p: &P) -> bool { self.bx.contains_point(p) }
}
/// objects equal by box, told apart by identity
pub struct KE;
impl Kind for KE {
    type T<S: Sc, D: Dim> = Oe<D::P<S>>;
    fn make<S: Sc, D: Dim>(id: u32, lo: D::P<S>, hi: D::P<S>) -> Oe<D::P<S>> { Oe { id, bx: mk_box(lo, hi) } }
    fn bx<S: Sc, D: Dim>(t: &Oe<D::P<S>>) -> AABB<D::P<S>> { t.bx }
}
/// kinds with an identity
pub trait Id: Kind { fn id<S: Sc, D: Dim>(t: &Self::T<S, D>) -> u32; }
impl Id for KE { fn id<S: Sc, D: Dim>(t: &Oe<D::P<S>>) -> u32 { t.id } }
impl Id for KO { fn id<S: Sc, D: Dim>(t: &Ob<D::P<S>>) -> u32 { t.id } }
impl Id for KC { fn id<S: Sc, D: Dim>(t: &Self::T<S, D>) -> u32 { t.id } }
impl Id for KW { fn id<S: Sc, D: Dim>(t: &Self::T<S, D>) -> u32 { t.data } }

/// How a custom selection answers for internal nodes.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Par { All, Enclosing, Free }
/// A custom selection: one unknown boolean per object; for internal nodes everything the contract permits.
pub struct BoolSel<S: Sc, D: Dim, K: Id> { pub bits: Rc<Vec<(u32, AABB<D::P<S>>, B)>>, pub par: Par, pub extra: Rc<RefCell<Vec<(AABB<D::P<S>>, B)>>>, pub p: PhantomData<fn() -> K> }
impl<S: Sc, D: Dim, K: Id> Clone for BoolSel<S, D, K> { fn clone(&self) -> Self { BoolSel { bits: self.bits.clone(), par: self.par, extra: self.extra.clone(), p: PhantomData } } }
impl<S: Sc, D: Dim, K: Id> BoolSel<S, D, K> {
    pub fn new(c: &mut Cx, objs: &[(u32, AABB<D::P<S>>)], par: Par) -> Self {
        BoolSel { bits: Rc::new(objs.iter().map(|(i, b)| (*i, *b, c.boolean())).collect()), par, extra: Rc::default(), p: PhantomData }
    }
    pub fn want(&self, id: u32) -> B { self.bits.iter().find(|x| x.0 == id).map_or(B::C(false), |x| x.2) }
}
pub fn decide(b: B) -> bool { with_cx(|c| c.split(b)) }
impl<S: Sc, D: Dim, K: Id> SelectionFunction<K::T<S, D>> for BoolSel<S, D, K> {
    fn should_unpack_parent(&self, e: &AABB<D::P<S>>) -> bool {
        if self.par == Par::All { return true; }
        let need = B::any(self.bits.iter().map(|(_, b, w)| *w & box_contains_box(e, b)));
        if self.par == Par::Enclosing { return decide(need); }
        let known = self.extra.borrow().iter().find(|(x, _)| box_eq(x, e) == B::C(true)).map(|x| x.1);
        let free = known.unwrap_or_else(|| { let b = with_cx(|c| c.boolean()); self.extra.borrow_mut().push((*e, b)); b });
        decide(need | free)
    }
    fn should_unpack_leaf(&self, t: &K::T<S, D>) -> bool { decide(self.want(K::id::<S, D>(t))) }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// remove by equality / at a point / with a custom selection
    Equal, AtPoint, Select(Par),
    /// drains
    All, In, Inter, Within(i64), Custom(Par),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End { Finish, Drop, Leak }

pub struct Rem<D, K, Pa> { pub op: Op, pub end: End, pub src: Src, pub k: usize, pub other: (i64, i64), pub rounds: usize, pub insert: bool, pub _p: PhantomData<fn() -> (D, K, Pa)> }

type Objs<S, D> = BTreeMap<u32, AABB<<D as Dim>::P<S>>>;
pub fn state<S: Sc, D: Dim, K: Id, Pa: RTreeParams>(c: &mut Cx, tag: &str, t: &RTree<K::T<S, D>, Pa>, expect: &Objs<S, D>) {
    let mut a: Vec<u32> = leaves(t).iter().map(|o| K::id::<S, D>(o)).collect();
    a.sort();
    let e: Vec<u32> = expect.keys().copied().collect();
    c.check(&format!("{tag}: contents"), (a == e).into());
    let mut it: Vec<u32> = t.iter().map(|o| K::id::<S, D>(o)).collect();
    it.sort();
    c.check(&format!("{tag}: iterated contents"), (it == e).into());
    c.check(&format!("{tag}: size"), (t.size() == e.len()).into());
    let ok = B::all(leaves(t).iter().map(|o| match expect.get(&K::id::<S, D>(o)) { Some(b) => box_eq(&o.envelope(), b), None => B::C(false) }));
    c.check(&format!("{tag}: objects unchanged"), ok);
    check_wf(c, tag, t, &NO_LIMITS);
}

impl<D: Dim, K: Id, Pa: RTreeParams + 'static> Harn for Rem<D, K, Pa> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let mut t: RTree<K::T<S, D>, Pa> = self.src.tree::<S, D, K, Pa>(c);
        let (lo, hi) = self.src.span();
        let mut have: Objs<S, D> = leaves(&t).iter().map(|o| (K::id::<S, D>(o), o.envelope())).collect();
        for _ in 0..self.rounds {
            let tag = "remove";
            match &self.op {
                Op::Equal | Op::AtPoint | Op::Select(_) => {
                    // a single removal
                    let (want, got): (BTreeMap<u32, B>, Option<K::T<S, D>>) = match &self.op {
                        Op::Equal => {
                            let id = if std::any::TypeId::of::<K>() == std::any::TypeId::of::<KE>() { 9999 } else { c.choose(have.len() + 1) as u32 };
                            let b = part_box::<S, D>(c, self.k, self.other, lo, hi);
                            let o = K::make::<S, D>(id, b.lower(), b.upper());
                            let mut w = BTreeMap::new();
                            for l in leaves(&t) {
                                let e = K::same::<S, D>(l, &o);
                                c.assume(e.implies(box_eq(&l.envelope(), &b)));
                                w.insert(K::id::<S, D>(l), e);
                            }
                            (w, t.remove(&o))
                        }
                        Op::AtPoint => {
                            let p = part_pt::<S, D>(self.k, self.other.0, lo, hi);
                            let w = leaves(&t).iter().map(|l| (K::id::<S, D>(l), K::has::<S, D>(l, &p))).collect();
                            (w, t.remove_at_point(p))
                        }
                        Op::Select(par) => {
                            let objs: Vec<_> = have.iter().map(|(i, b)| (*i, *b)).collect();
                            let f = BoolSel::<S, D, K>::new(c, &objs, *par);
                            let w = f.bits.iter().map(|x| (x.0, x.2)).collect();
                            (w, t.remove_with_selection_function(f))
                        }
                        _ => unreachable!(),
                    };
                    match got {
                        None => { c.cover("none removed"); c.check("remove: nothing only if nothing matches", !B::any(want.values().copied())) }
                        Some(o) => {
                            c.cover("one removed");
                            let id = K::id::<S, D>(&o);
                            c.check("remove: the returned object was stored and matches", want.get(&id).copied().unwrap_or(B::C(false)));
                            if let Some(b) = have.remove(&id) { c.check("remove: returned object unchanged", box_eq(&o.envelope(), &b)); }
                        }
                    }
                }
                _ => {
                    let ls: Vec<(u32, AABB<D::P<S>>)> = leaves(&t).iter().map(|o| (K::id::<S, D>(o), o.envelope())).collect();
                    let sel: Option<BoolSel<S, D, K>> = if let Op::Custom(par) = self.op { Some(BoolSel::new(c, &ls, par)) } else { None };
                    let want: Vec<B>;
                    let mut got: Vec<(u32, AABB<D::P<S>>)> = vec![];
                    let end = self.end;
                    let mut finished = false;
                    macro_rules! run { ($it:expr) => { {
                        let mut it = $it;
                        loop {
                            if end != End::Finish && got.len() < self.src.n() + 2 && with_cx(|c| c.flip()) { break; }
                            match it.next() { Some(o) => got.push((K::id::<S, D>(&o), o.envelope())), None => { finished = true; break } }
                            if got.len() > ls.len() + 2 { break; }
                        }
                        if end == End::Leak { std::mem::forget(it) } else { drop(it) }
                    } } }
                    match &self.op {
                        Op::All => { want = vec![B::C(true); ls.len()]; run!(t.drain()) }
                        Op::In | Op::Inter => {
                            let bx = part_box::<S, D>(c, self.k, self.other, lo, hi);
                            want = ls.iter().map(|(_, b)| if self.op == Op::In { box_contains_box(&bx, b) } else { boxes_touch(&bx, b) }).collect();
                            if self.op == Op::In { run!(t.drain_in_envelope(bx)) } else { run!(t.drain_in_envelope_intersecting(bx)) }
                        }
                        Op::Within(m) => {
                            let p = part_pt::<S, D>(self.k, self.other.0, lo, hi);
                            want = leaves(&t).iter().map(|l| K::d2::<S, D>(l, &p).ble(S::from_i(*m))).collect();
                            run!(t.drain_within_distance(p, S::from_i(*m)))
                        }
                        Op::Custom(_) => {
                            let f = sel.clone().unwrap();
                            want = ls.iter().map(|(i, _)| f.want(*i)).collect();
                            run!(t.drain_with_selection_function(f.clone()))
                        }
                        _ => unreachable!(),
                    }
                    let mut hits: BTreeMap<u32, usize> = BTreeMap::new();
                    for (i, _) in &got { *hits.entry(*i).or_default() += 1; }
                    c.check("drain: nothing twice, nothing foreign", (hits.values().all(|&n| n == 1) && hits.keys().all(|i| have.contains_key(i))).into());
                    c.check("drain: objects unchanged", B::all(got.iter().map(|(i, b)| have.get(i).map_or(B::C(false), |x| box_eq(x, b)))));
                    let sound = B::all(ls.iter().zip(&want).map(|((i, _), w)| if hits.contains_key(i) { *w } else { B::C(true) }));
                    c.check("drain: only selected objects", sound);
                    if finished {
                        c.cover(if got.is_empty() { "nothing drained" } else { "drained" });
                        let compl = B::all(ls.iter().zip(&want).map(|((i, _), w)| if hits.contains_key(i) { B::C(true) } else { !*w }));
                        c.check("drain: every selected object", compl);
                    } else if !got.is_empty() { c.cover("interrupted") }
                    if end == End::Leak && !finished { have.clear() } else { for (i, _) in &got { have.remove(i); } }
                }
            }
            state::<S, D, K, Pa>(c, tag, &t, &have);
        }
        if self.insert {
            // the tree stays usable
            for i in 0..2i64 {
                let p = <D::P<S> as Point>::generate(|d| S::from_i(if d == 0 { 3 + 5 * i } else { 2 - i }));
                let o = K::make::<S, D>(7000 + i as u32, p, p);
                have.insert(7000 + i as u32, o.envelope());
                t.insert(o);
                state::<S, D, K, Pa>(c, "later insertion", &t, &have);
                c.check("later query", t.locate_in_envelope(AABB::from_point(p)).any(|o| K::id::<S, D>(o) == 7000 + i as u32).into());
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Set { T04, T05, T06 }
fn add<N: Native, D: Dim, K: Id, Pa: RTreeParams + 'static>(hs: &mut Vec<Harness>, d: &str, op: Op, end: End, src: Src, k: usize, other: (i64, i64), rounds: usize) -> usize {
    let b = format!("{}; {d}; {op:?} {rounds} time(s), {end:?}{}; {} symbolic coordinates (per corner) in {:?}, the others fixed at {:?}; {}{}", src.text(), if end == End::Finish { "" } else { " after every possible number of steps" }, k, src.span(), other, if matches!(op, Op::Custom(_) | Op::Select(_)) { "one symbolic boolean per object, internal nodes answered by the contract; " } else { "" }, if matches!(src, Src::Sym(..)) || N::MODE != Mode::Int { "" } else { "two insertions afterwards" });
    let insert = !matches!(src, Src::Sym(..)) && N::MODE == Mode::Int;
    let name = format!("{op:?}-{end:?}-{}-{d}-{}-k{k}-r{rounds}", hs.len(), src_name(&src)).replace(' ', "_");
    hs.push(Harness::new::<N, _>(name, Rem::<D, K, Pa> { op, end, src, k, other, rounds, insert, _p: PhantomData }).bounds(b));
    hs.len() - 1
}
pub fn src_name(src: &Src) -> String {
    match src { Src::Sym(s, ..) => format!("sym{}", show(s)), Src::Lay(s, l) => format!("lay{l}{}", show(s)), Src::Bulk(l, n) => format!("bulk{l}_{n}"), Src::Ins(l, n) => format!("grown{l}_{n}"), Src::Mixed(l, n) => format!("mixed{l}_{n}") }
}

#[inline]
pub fn harnesses(set: Set) -> Vec<Harness> {
    let mut v = vec![];
    let hs = &mut v;
    let sh = Sh::parse;
    let u = Sh::uniform;
    macro_rules! th { ($e:expr) => { { let i = $e; hs[i].thorough = true; } } }
    macro_rules! cov { ($e:expr, $($c:expr),*) => { { let i = $e; $(hs[i].covers.push($c.into());)* } } }
    let f = End::Finish;
    let shapes = ["()", "(0)", "(01)", "((0))", "((0)(1))", "((01)(23))", "(((0)))", "(((0)(1))((2)))", "((0)(1)(2))", "(((01)(2))((3)))"];
    if set == Set::T04 {
        for s in shapes {
            for par in [Par::All, Par::Enclosing, Par::Free] {
                for l in [2, 5, 7] { add::<i64, D2, KO, P4210>(hs, "objects", Op::Select(par), f, Src::Lay(sh(s), l), 0, (0, 0), 1); }
                add::<i64, D2, KO, P4110>(hs, "objects", Op::Select(par), f, Src::Lay(sh(s), 1), 0, (0, 0), 2);
            }
        }
        cov!(add::<i64, D2, KO, P4210>(hs, "objects", Op::Select(Par::All), f, Src::Lay(sh("((012)(345))"), 5), 0, (0, 0), 3), "one removed", "none removed");
        add::<i64, D3, KO, P4210>(hs, "objects 3d", Op::Select(Par::Enclosing), f, Src::Lay(sh("((01)(23))"), 6), 0, (0, 0), 1);
        add::<i64, D2, KO, DefaultParams>(hs, "objects", Op::Select(Par::Enclosing), f, Src::Bulk(6, 9), 0, (0, 0), 1);
        add::<i64, D2, KO, DefaultParams>(hs, "objects", Op::Select(Par::All), f, Src::Ins(6, 16), 0, (0, 0), 1);
        add::<i64, D2, KO, P4210>(hs, "objects", Op::Select(Par::All), f, Src::Mixed(6, 20), 0, (0, 0), 1);
        for par in [Par::All, Par::Enclosing, Par::Free] {
            add::<i64, D2, KO, P4210>(hs, "objects", Op::Select(par), f, Src::Lay(u(&[2, 2, 2]), 5), 0, (0, 0), if par == Par::Free { 1 } else { 2 });
            add::<i64, D2, KO, P4110>(hs, "objects", Op::Select(par), f, Src::Lay(sh("(((0)(12))((3)))"), 6), 0, (0, 0), 4);
            th!(add::<i64, D2, KO, P4210>(hs, "objects", Op::Select(par), f, Src::Lay(u(&[3, 2]), 5), 0, (0, 0), 4));
        }
        // by equality and at a point, everything symbolic
        for s in ["(0)", "(01)", "((0))", "((0)(1))", "(((0))((1)))"] {
            add::<i64, D2, KE, P4210>(hs, "equal boxes", Op::Equal, f, Src::Sym(sh(s), 0, 20), 2, (0, 0), 1);
            add::<i64, D2, KO, P4210>(hs, "objects", Op::Equal, f, Src::Sym(sh(s), 0, 20), 2, (0, 0), 1);
            add::<i64, D2, KO, P4210>(hs, "objects", Op::AtPoint, f, Src::Sym(sh(s), 0, 20), 2, (0, 0), 1);
        }
        for l in [0, 1, 2, 5, 6, 7] {
            let o = lay(l, 1, 1);
            for (n, s) in [u(&[4, 2]), u(&[2, 2, 2]), sh("((0)(1)(2))")].into_iter().enumerate() {
                add::<i64, D2, KE, P4210>(hs, "equal boxes", Op::Equal, f, Src::Lay(s.clone(), l), 1, o, 1);
                let i = add::<i64, D2, KO, P4210>(hs, "objects", Op::AtPoint, f, Src::Lay(s.clone(), l), if n == 0 { 2 } else { 1 }, o, 1);
                if n == 0 { hs[i].covers = vec!["one removed".into(), "none removed".into()]; }
                add::<i64, D2, KW, P4110>(hs, "wrapped rectangles", Op::Equal, f, Src::Lay(s, l), 1, o, 1);
            }
            cov!(add::<i64, D2, KE, P4210>(hs, "equal boxes", Op::AtPoint, f, Src::Lay(u(&[2, 2]), l), 1, o, 2), "one removed");
            add::<i64, D2, KE, DefaultParams>(hs, "equal boxes", Op::AtPoint, f, Src::Bulk(l, 40), 1, o, 1);
            add::<i64, D2, KE, DefaultParams>(hs, "equal boxes", Op::Equal, f, Src::Ins(l, 20), 1, o, 1);
            add::<i64, D3, KE, P4210>(hs, "equal boxes 3d", Op::AtPoint, f, Src::Mixed(l, 24), 1, o, 2);
            add::<i64, D2, KE, DefaultParams>(hs, "equal boxes", Op::AtPoint, f, Src::Bulk(l, 120), 1, o, 2);
        }
        // large trees
        for op in [Op::AtPoint, Op::Equal] {
            let o = lay(12, 1, 1);
            add::<i64, D2, KE, DefaultParams>(hs, "equal boxes", op.clone(), f, Src::Bulk(12, 300), 1, o, 1);
            add::<i64, D2, KE, P4210>(hs, "equal boxes", op.clone(), f, Src::Ins(12, 150), 1, o, 1);
            add::<i64, D2, KO, P5311>(hs, "objects", op.clone(), f, Src::Mixed(13, 150), 1, o, 1);
            th!(add::<i64, D2, KE, DefaultParams>(hs, "equal boxes", op.clone(), f, Src::Mixed(12, 900), 1, o, 1));
            th!(add::<i64, D2, KE, P4210>(hs, "equal boxes", op.clone(), f, Src::Ins(12, 400), 1, o, 2));
        }
        for s in [u(&[2, 3]), u(&[2, 2, 2])] {
            add::<i64, D2, KC, P4210>(hs, "corner pairs", Op::AtPoint, f, Src::Lay(s.clone(), 11), 1, (lay(11, 1, 1).0, 0), 2);
            add::<i64, D2, KC, P4210>(hs, "corner pairs", Op::Equal, f, Src::Lay(s, 11), 1, lay(11, 1, 1), 1);
        }
        add::<i64, D2, KC, DefaultParams>(hs, "corner pairs", Op::AtPoint, f, Src::Bulk(11, 20), 1, (lay(11, 1, 1).0, 0), 1);
        add::<i64, T3, KE, P4210>(hs, "tuples", Op::Equal, f, Src::Lay(u(&[3, 2]), 6), 2, (-9, 9), 1);
        // down to the empty tree
        cov!(add::<i64, D2, KE, P4210>(hs, "equal boxes", Op::AtPoint, f, Src::Lay(sh("((0)(1)(2))"), 1), 1, (5, 5), 4), "one removed", "none removed");
        cov!(add::<i64, D2, KE, P4210>(hs, "equal boxes", Op::Equal, f, Src::Lay(sh("(((0)(1))((2)))"), 1), 1, (5, 5), 4), "one removed", "none removed");
        return v;
    }
    let ends: &[End] = if set == Set::T05 { &[End::Finish] } else { &[End::Drop, End::Leak] };
    for &e in ends {
        let leak = e == End::Leak;
        for s in shapes {
            for par in [Par::All, Par::Enclosing, Par::Free] {
                if leak && par != Par::Free { continue; }
                for l in if leak { vec![5] } else { vec![2, 5] } { add::<i64, D2, KO, P4210>(hs, "objects", Op::Custom(par), e, Src::Lay(sh(s), l), 0, (0, 0), 1); }
            }
            add::<i64, D2, KO, P4110>(hs, "objects", Op::All, e, Src::Lay(sh(s), 6), 0, (0, 0), if leak { 1 } else { 2 });
        }
        if set == Set::T05 { cov!(add::<i64, D2, KO, P4210>(hs, "objects", Op::Custom(Par::All), e, Src::Lay(sh("((01)(23))"), 6), 0, (0, 0), 2), "drained", "nothing drained"); }
        else { cov!(add::<i64, D2, KO, P4210>(hs, "objects", Op::Custom(Par::All), e, Src::Lay(sh("((01)(23))"), 6), 0, (0, 0), 1), "interrupted"); }
        add::<i64, D2, KO, P4210>(hs, "objects", Op::Custom(Par::Enclosing), e, Src::Lay(u(&[2, 2, 2]), 0), 0, (0, 0), 1);
        add::<i64, D3, KO, P4210>(hs, "objects 3d", Op::Custom(Par::Enclosing), e, Src::Lay(sh("((012)(34))"), 6), 0, (0, 0), 1);
        add::<i64, D2, KO, DefaultParams>(hs, "objects", Op::Custom(Par::Enclosing), e, Src::Bulk(5, 8), 0, (0, 0), 1);
        add::<i64, D2, KO, DefaultParams>(hs, "objects", Op::All, e, Src::Ins(5, 14), 0, (0, 0), 1);
        add::<i64, D2, KO, P4210>(hs, "objects", Op::Custom(Par::All), e, Src::Lay(u(&[2, 2, 2]), 5), 0, (0, 0), 1);
        add::<i64, D2, KO, P4210>(hs, "objects", Op::Custom(Par::Free), e, Src::Lay(u(&[3, 2]), 5), 0, (0, 0), 1);
        add::<i64, D2, KO, P4210>(hs, "objects", Op::Custom(Par::All), e, Src::Lay(u(&[4]), 5), 0, (0, 0), 3);
        add::<i64, D2, KO, P4210>(hs, "objects", Op::Custom(Par::Enclosing), e, Src::Lay(sh("((01)(234)(5))"), 6), 0, (0, 0), 2);
        add::<i64, D2, KO, DefaultParams>(hs, "objects", Op::Custom(Par::All), e, Src::Bulk(5, 10), 0, (0, 0), 1);
        th!(add::<i64, D2, KO, P4210>(hs, "objects", Op::Custom(Par::All), e, Src::Lay(u(&[2, 3, 2]), 5), 0, (0, 0), 1));
        th!(add::<i64, D2, KO, P4210>(hs, "objects", Op::Custom(Par::Free), e, Src::Lay(u(&[2, 2, 2]), 5), 0, (0, 0), 1));
        th!(add::<i64, D2, KO, P4210>(hs, "objects", Op::Custom(Par::Enclosing), e, Src::Lay(u(&[2, 2, 2]), 5), 0, (0, 0), 2));
        th!(add::<i64, D2, KO, DefaultParams>(hs, "objects", Op::Custom(Par::All), e, Src::Bulk(5, 13), 0, (0, 0), 1));
        // symbolic objects and symbolic envelopes
        for op in [Op::In, Op::Inter] {
            for s in ["()", "(0)", "((0))", "((0)(1))"] { add::<i64, D2, KO, P4210>(hs, "objects", op.clone(), e, Src::Sym(sh(s), 0, 20), 2, (0, 0), 1); }
        }
        for l in [0, 1, 2, 5, 6, 7] {
            let (a, b) = span(l, 8);
            let full = (a, b);
            let o = (lay(l, 1, 1).0, lay(l, 1, 1).1);
            for op in [Op::In, Op::Inter, Op::Within(9), Op::Within(0)] {
                let w = matches!(op, Op::Within(_));
                add::<i64, D2, KE, P4210>(hs, "equal boxes", op.clone(), e, Src::Lay(u(&[2, 2, 2]), l), 1, if w { o } else { full }, 1);
                if leak { continue; }
                add::<i64, D2, KO, P4210>(hs, "objects", op.clone(), e, Src::Lay(u(&[3, 2]), l), if w || set == Set::T06 { 1 } else { 2 }, if w { o } else { full }, 1);
                let i = add::<i64, D2, KW, P4110>(hs, "wrapped rectangles", op.clone(), e, Src::Lay(sh("((0)(1)(2))"), l), 1, if w { o } else { full }, 2);
                if set == Set::T05 && l != 1 && op == Op::Inter { hs[i].covers.push("drained".into()); hs[i].covers.push("nothing drained".into()); }
                add::<i64, D2, KE, DefaultParams>(hs, "equal boxes", op.clone(), e, Src::Bulk(l, 20), 1, if w { o } else { full }, 1);
                add::<i64, D2, KE, DefaultParams>(hs, "equal boxes", op.clone(), e, Src::Mixed(l, 20), 1, if w { o } else { full }, 1);
                th!(add::<i64, D2, KE, DefaultParams>(hs, "equal boxes", op.clone(), e, Src::Bulk(l, 60), 1, if w { o } else { full }, 1));
            }
        }
        // large trees
        for op in [Op::In, Op::Inter] {
            let (a, b) = (-90, 90);
            if leak { continue; }
            add::<i64, D2, KE, DefaultParams>(hs, "equal boxes", op.clone(), e, Src::Bulk(12, 60), 1, (a, b), 1);
            add::<i64, D2, KE, P4210>(hs, "equal boxes", op.clone(), e, Src::Ins(12, 60), 1, (a, b), 1);
            th!(add::<i64, D2, KE, DefaultParams>(hs, "equal boxes", op.clone(), e, Src::Mixed(12, 300), 1, (a, b), 1));
        }
        for l in [6, 11] {
            add::<i64, D2, KC, P4210>(hs, "corner pairs", Op::Within(9), e, Src::Lay(u(&[3, 2]), l), 1, (lay(l, 1, 1).0, 0), 1);
            if !leak { add::<i64, D2, KC, DefaultParams>(hs, "corner pairs", Op::Within(4), e, Src::Bulk(l, 20), 1, (lay(l, 1, 1).0, 0), 1); }
        }
        add::<i64, D3, KE, P4210>(hs, "boxes 3d", Op::Inter, e, Src::Lay(u(&[3, 2]), 6), 1, (-10, 10), 1);
        add::<i64, T2, KE, P4210>(hs, "tuples", Op::In, e, Src::Lay(u(&[3, 3]), 6), 1, (-40, 40), 1);
        add::<i64, D2, KE, P40>(hs, "wide", Op::Inter, e, Src::Lay(u(&[2, 12]), 8), 1, (0, 0), 1);
        add::<i8, D2, KE, P4210>(hs, "i8", Op::Inter, e, Src::Lay(u(&[2, 2]), 6), 1, (-9, 9), 1);
    }
    v
}
