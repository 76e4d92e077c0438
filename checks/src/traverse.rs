//! Whole-tree traversals and custom selections (Q05), tree-to-tree intersection (Q07).
use crate::*;
use crate::remove::*;
use rstar::{DefaultParams, Point, RTree, RTreeObject, RTreeParams, SelectionFunction, AABB};

pub struct Traverse<D, K, Pa> { pub src: Src, pub _p: PhantomData<fn() -> (D, K, Pa)> }
impl<D: Dim, K: Kind, Pa: RTreeParams + 'static> Harn for Traverse<D, K, Pa> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let mut t: RTree<K::T<S, D>, Pa> = self.src.tree::<S, D, K, Pa>(c);
        let all: Vec<*const K::T<S, D>> = leaves(&t).iter().map(|x| *x as *const _).collect();
        let boxes: Vec<AABB<D::P<S>>> = leaves(&t).iter().map(|x| K::bx::<S, D>(x)).collect();
        let yes = vec![B::C(true); all.len()];
        let got: Vec<_> = t.iter().map(|x| x as *const _).collect();
        exact(c, "iter", &all, &got, &yes);
        let got: Vec<_> = (&t).into_iter().map(|x| x as *const _).collect();
        exact(c, "by reference", &all, &got, &yes);
        let got: Vec<_> = t.iter_mut().map(|x| x as *const _).collect();
        exact(c, "iter_mut", &all, &got, &yes);
        let got: Vec<_> = (&mut t).into_iter().map(|x| x as *const _).collect();
        exact(c, "by mutable reference", &all, &got, &yes);
        // in two parts
        let mut it = t.iter();
        let n = all.len() / 2;
        let mut got: Vec<_> = it.by_ref().take(n).map(|x| x as *const _).collect();
        got.extend(it.by_ref().map(|x| x as *const _));
        c.check("iter: stays finished", it.next().is_none().into());
        drop(it);
        exact(c, "iter in two parts", &all, &got, &yes);
        // consuming: objects move, so compare the sequence of boxes as a multiset (objects with ids) or in place
        let size = t.size();
        let owned: Vec<K::T<S, D>> = t.into_iter().collect();
        c.check("into_iter: count", (owned.len() == all.len() && owned.len() == size).into());
        // every original is matched by a different yielded object: equal multiplicities of every box
        let mut ok = B::C(true);
        for b in &boxes {
            let before: Vec<B> = boxes.iter().map(|x| box_eq(x, b)).collect();
            let after: Vec<B> = owned.iter().map(|x| box_eq(&K::bx::<S, D>(x), b)).collect();
            ok = ok & same_count(&before, &after);
        }
        c.check("into_iter: every object", ok);
    }
}
/// two lists of conditions hold equally often
pub fn same_count(a: &[B], b: &[B]) -> B {
    fn unary(v: &[B]) -> Vec<B> {
        // cnt[k]: at least k+1 hold
        let mut cnt: Vec<B> = vec![];
        for &x in v {
            let n = cnt.len();
            cnt.push(B::C(false));
            for k in (0..=n).rev() { cnt[k] = cnt[k] | (x & if k == 0 { B::C(true) } else { cnt[k - 1] }); }
        }
        cnt
    }
    let (a, b) = (unary(a), unary(b));
    B::all((0..a.len().max(b.len())).map(|i| { let f = B::C(false); a.get(i).copied().unwrap_or(f).iff(b.get(i).copied().unwrap_or(f)) }))
}

#[derive(Clone)]
struct Reject<F>(F);
impl<T: RTreeObject, F: SelectionFunction<T>> SelectionFunction<T> for Reject<F> {
    fn should_unpack_parent(&self, _: &T::Envelope) -> bool { false }
    fn should_unpack_leaf(&self, t: &T) -> bool { self.0.should_unpack_leaf(t) }
}
pub struct Custom<D, K, Pa> { pub src: Src, pub par: Option<Par>, pub _p: PhantomData<fn() -> (D, K, Pa)> }
impl<D: Dim, K: Id, Pa: RTreeParams + 'static> Harn for Custom<D, K, Pa> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let mut t: RTree<K::T<S, D>, Pa> = self.src.tree::<S, D, K, Pa>(c);
        let all: Vec<*const K::T<S, D>> = leaves(&t).iter().map(|x| *x as *const _).collect();
        let objs: Vec<(u32, AABB<D::P<S>>)> = leaves(&t).iter().map(|o| (K::id::<S, D>(o), o.envelope())).collect();
        let f = BoolSel::<S, D, K>::new(c, &objs, self.par.unwrap_or(Par::All));
        let want: Vec<B> = objs.iter().map(|(i, _)| if self.par.is_some() { f.want(*i) } else { B::C(false) }).collect();
        let (got, mgot): (Vec<_>, Vec<_>) = if self.par.is_some() {
            (t.locate_with_selection_function(f.clone()).map(|x| x as *const _).collect(), t.locate_with_selection_function_mut(f.clone()).map(|x| x as *const _).collect())
        } else {
            (t.locate_with_selection_function(Reject(f.clone())).map(|x| x as *const _).collect(), t.locate_with_selection_function_mut(Reject(f.clone())).map(|x| x as *const _).collect())
        };
        if !got.is_empty() { c.cover("some selected") }
        exact(c, "custom selection", &all, &got, &want);
        exact(c, "custom selection, mutable", &all, &mgot, &want);
    }
}

/// Objects of a layout, moved by a symbolic offset.
fn moved<S: Sc, D: Dim, K: Kind, Pa: RTreeParams>(c: &mut Cx, src: &Src, off: &D::P<S>, zero: bool) -> RTree<K::T<S, D>, Pa> {
    if zero { return src.tree::<S, D, K, Pa>(c); }
    let mv = |l: usize, n: usize| -> Vec<K::T<S, D>> { (0..n).map(|i| {
        let (a, b) = corners::<S, D>(l, i);
        let f = |p: D::P<S>| <D::P<S> as Point>::generate(|d| p.nth(d).sadd(off.nth(d)));
        K::make::<S, D>(i as u32, f(a), f(b))
    }).collect() };
    match src {
        Src::Lay(s, l) => { let o = mv(*l, s.leaves()); plant::<S, D, K, Pa>(c, s, &o, -1000, 1000) }
        Src::Bulk(l, n) => RTree::bulk_load_with_params(mv(*l, *n)),
        Src::Ins(l, n) => { let mut t = RTree::new_with_params(); for o in mv(*l, *n) { t.insert(o); } t }
        _ => src.tree::<S, D, K, Pa>(c),
    }
}
pub struct Pairs<D, K, L, Pa> { pub a: Src, pub b: Src, pub k: usize, pub other: i64, pub _p: PhantomData<fn() -> (D, K, L, Pa)> }
impl<D: Dim, K: Kind, L: Kind, Pa: RTreeParams + 'static> Harn for Pairs<D, K, L, Pa> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let (x, y) = (self.a.span(), self.b.span());
        let w = (x.1 - x.0).max(y.1 - y.0) + 5;
        let off = part_pt::<S, D>(self.k, self.other, -w, w);
        let ta: RTree<K::T<S, D>, Pa> = self.a.tree::<S, D, K, Pa>(c);
        let tb: RTree<L::T<S, D>, DefaultParams> = moved::<S, D, L, DefaultParams>(c, &self.b, &off, self.k == 0 && self.other == 0);
        let (la, lb) = (leaves(&ta), leaves(&tb));
        pairs::<_, _>(c, "pairs", &la, &lb, &ta.intersection_candidates_with_other_tree(&tb).collect::<Vec<_>>(), |a, b| boxes_touch(&K::bx::<S, D>(a), &L::bx::<S, D>(b)));
    }
}
fn pairs<T, U>(c: &mut Cx, tag: &str, la: &[&T], lb: &[&U], got: &[(&T, &U)], want: impl Fn(&T, &U) -> B) {
    let mut hits = vec![vec![0u32; lb.len()]; la.len()];
    let mut foreign = false;
    for (x, y) in got {
        match (la.iter().position(|p| std::ptr::eq(*p, *x)), lb.iter().position(|p| std::ptr::eq(*p, *y))) {
            (Some(i), Some(j)) => hits[i][j] += 1,
            _ => foreign = true,
        }
    }
    if !got.is_empty() { c.cover("some pairs") }
    if got.len() < la.len() * lb.len() { c.cover("not all pairs") }
    c.check(&format!("{tag}: only stored objects"), (!foreign).into());
    c.check(&format!("{tag}: no pair twice"), hits.iter().flatten().all(|&h| h <= 1).into());
    let ok = B::all((0..la.len()).flat_map(|i| (0..lb.len()).map(move |j| (i, j))).map(|(i, j)| { let w = want(la[i], lb[j]); if hits[i][j] > 0 { w } else { !w } }));
    c.check(&format!("{tag}: exactly the touching pairs"), ok);
}
pub struct SelfPairs<D, K> { pub a: Src, pub _p: PhantomData<fn() -> (D, K)> }
impl<D: Dim, K: Kind> Harn for SelfPairs<D, K> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let t: RTree<K::T<S, D>, DefaultParams> = self.a.tree::<S, D, K, DefaultParams>(c);
        let l = leaves(&t);
        pairs(c, "self pairs", &l, &l, &t.intersection_candidates_with_other_tree(&t).collect::<Vec<_>>(), |a, b| boxes_touch(&K::bx::<S, D>(a), &K::bx::<S, D>(b)));
    }
}

#[inline]
pub fn q05() -> Vec<Harness> {
    let mut v = vec![];
    let hs = &mut v;
    let sh = Sh::parse;
    let u = Sh::uniform;
    fn tr<D: Dim, K: Kind, Pa: RTreeParams + 'static>(hs: &mut Vec<Harness>, d: &str, src: Src) {
        let b = format!("all traversals of: {} ({d})", src.text());
        hs.push(Harness::new::<i64, _>(format!("traverse-{}-{}", hs.len(), src_name(&src)), Traverse::<D, K, Pa> { src, _p: PhantomData }).bounds(b));
    }
    fn cu<D: Dim, Pa: RTreeParams + 'static>(hs: &mut Vec<Harness>, src: Src, par: Option<Par>) -> usize {
        let b = format!("custom selection with one symbolic boolean per object, internal nodes {}: {}", par.map_or("all rejected".into(), |p| format!("{p:?}")), src.text());
        let mut h = Harness::new::<i64, _>(format!("select-{}-{par:?}-{}", hs.len(), src_name(&src)), Custom::<D, KO, Pa> { src, par, _p: PhantomData }).bounds(b);
        if par.is_none() { h.covers.clear(); }
        hs.push(h);
        hs.len() - 1
    }
    for s in ["()", "(0)", "(01)", "((0)(1))", "((01)(2))", "(((0))((1)))"] {
        tr::<D2, KP, P4210>(hs, "symbolic points", Src::Sym(sh(s), 0, 20));
        tr::<D2, KO, P4210>(hs, "symbolic boxes", Src::Sym(sh(s), 0, 20));
    }
    for s in ["((01)(23))", "(0123)"] { tr::<D2, KP, P4210>(hs, "symbolic points", Src::Sym(sh(s), 0, 20)); }
    for n in (0..30).chain([31, 32, 33, 36, 37, 40, 47, 48, 49, 64, 65, 100, 216, 217, 433]) {
        tr::<D2, KO, DefaultParams>(hs, "boxes", Src::Bulk(6, n));
        if n < 50 { tr::<D2, KP, P4210>(hs, "points", Src::Ins(5, n)); tr::<D3, KR, P4210>(hs, "3d rectangles", Src::Mixed(6, n)); }
        tr::<D2, KO, P40>(hs, "one wide node", Src::Lay(u(&[n.min(40)]), 6));
    }
    tr::<D2, KO, P4210>(hs, "deep", Src::Lay(u(&[2, 2, 2, 2, 2, 2]), 6));
    tr::<D2, KO, P4210>(hs, "deep chain", Src::Lay(sh("((((((0))))))"), 6));
    let shapes = ["()", "(0)", "(01)", "((0)(1))", "((01)(23))", "(((0)(1))((2)))", "((01)(2)(345))", "(((01)(2))((3)(45)))", "(01234567)"];
    for s in shapes {
        for par in [None, Some(Par::All), Some(Par::Enclosing), Some(Par::Free)] {
            for l in [1, 5, 6] {
                if s.len() > 16 && (l == 1 || par == Some(Par::Free)) { continue; }
                let i = cu::<D2, P9>(hs, Src::Lay(sh(s), l), par);
                if par.is_some() && s.len() > 3 { hs[i].covers.push("some selected".into()); }
            }
        }
    }
    for par in [Par::All, Par::Enclosing] { cu::<D3, DefaultParams>(hs, Src::Bulk(6, 8), Some(par)); cu::<D2, P4210>(hs, Src::Ins(5, 7), Some(par)); }
    // wide nodes: one unknown selection in many objects
    let i = cu::<D2, DefaultParams>(hs, Src::Bulk(5, 13), Some(Par::Enclosing));
    hs[i].thorough = true;
    v
}
#[inline]
pub fn q07() -> Vec<Harness> {
    let mut v = vec![];
    let hs = &mut v;
    let sh = Sh::parse;
    let u = Sh::uniform;
    fn pr<N: Native, D: Dim, K: Kind, L: Kind, Pa: RTreeParams + 'static>(hs: &mut Vec<Harness>, d: &str, a: Src, b: Src, k: usize, other: i64) -> usize {
        let t = format!("pairs ({d}) of [{}] and [{}]{}", a.text(), b.text(), if k > 0 { format!(", the latter moved by a symbolic offset in {k} coordinate(s), the other offsets {other}") } else { String::new() });
        hs.push(Harness::new::<N, _>(format!("pairs-{}-{d}-{}-{}-k{k}", hs.len(), src_name(&a), src_name(&b)), Pairs::<D, K, L, Pa> { a, b, k, other, _p: PhantomData }).bounds(t));
        hs.len() - 1
    }
    fn sp<D: Dim, K: Kind>(hs: &mut Vec<Harness>, d: &str, a: Src) {
        let t = format!("pairs of a tree with itself ({d}): {}", a.text());
        hs.push(Harness::new::<i64, _>(format!("self-{}-{d}-{}", hs.len(), src_name(&a)), SelfPairs::<D, K> { a, _p: PhantomData }).bounds(t));
    }
    let sy = |s: &str| Src::Sym(sh(s), 0, 12);
    // everything symbolic
    for (a, b) in [("()", "(0)"), ("(0)", "()"), ("()", "()"), ("(0)", "(0)"), ("(01)", "(0)"), ("((0))", "(0)"), ("(0)", "((0))"), ("((0)(1))", "(0)"), ("(0)", "((0)(1))"), ("(((0)))", "((0))"), ("((0))", "(((0)))")] {
        let i = pr::<i64, D2, KO, KO, P4210>(hs, "boxes", sy(a), sy(b), 0, 0);
        if a == "((0)(1))" { hs[i].covers.push("some pairs".into()); hs[i].covers.push("not all pairs".into()); }
    }
    for (a, b) in [("(01)", "(01)"), ("((0)(1))", "(01)"), ("((01)(2))", "(0)"), ("((0)(1))", "((0)(1))")] { pr::<i64, D2, KP, KP, P4210>(hs, "points", sy(a), sy(b), 0, 0); }
    pr::<i64, D2, KP, KR, P4210>(hs, "points and rectangles", sy("((0)(1))"), sy("(0)"), 0, 0);
    for s in ["(0)", "(01)", "((0)(1))", "((01))"] { sp::<D2, KO>(hs, "boxes", sy(s)); }
    // concrete trees, one moved over the other
    let z = |s: Src| s;
    for l in [0, 1, 2, 5, 6, 7] {
        let m = if l == 2 { 6 } else { 2 };
        pr::<i64, D2, KO, KO, P4210>(hs, "boxes", Src::Lay(u(&[2, 2]), l), Src::Lay(u(&[2, 2]), m), 2, 0);
        pr::<i64, D2, KO, KR, P4210>(hs, "boxes and rectangles", z(Src::Lay(u(&[3, 2]), l)), Src::Lay(u(&[3]), m), 1, 1);
        pr::<i64, D2, KW, KO, P4210>(hs, "wrapped rectangles and boxes", Src::Lay(u(&[4]), l), Src::Lay(u(&[2, 2, 2]), m), 1, -2);
        pr::<i64, D2, KO, KO, P4210>(hs, "boxes", Src::Lay(sh("((0)(12)(3))"), l), Src::Lay(sh("(((01))((2)(3)))"), m), 1, 0);
        pr::<i64, D2, KO, KO, DefaultParams>(hs, "boxes", Src::Bulk(l, 14), Src::Bulk(m, 9), 1, 0);
        pr::<i64, D2, KO, KO, P4210>(hs, "boxes", Src::Ins(l, 12), Src::Bulk(m, 3), 1, 1);
        pr::<i64, D2, KO, KO, P4210>(hs, "boxes", Src::Lay(sh("()"), l), Src::Bulk(m, 3), 1, 1);
        sp::<D2, KO>(hs, "boxes", Src::Bulk(l, 30));
        sp::<D2, KO>(hs, "boxes", Src::Ins(l, 17));
        sp::<D3, KR>(hs, "3d rectangles", Src::Mixed(l, 30));
        let i = pr::<i64, D2, KO, KO, P4210>(hs, "boxes", Src::Lay(u(&[3, 3]), l), Src::Lay(u(&[2, 3]), m), 2, 0); hs[i].thorough = true;
        let i = pr::<i64, D2, KO, KO, DefaultParams>(hs, "boxes", Src::Bulk(l, 40), Src::Bulk(m, 30), 1, 0); hs[i].thorough = true;
    }
    // large trees
    sp::<D2, KO>(hs, "boxes", Src::Bulk(13, 150));
    sp::<D2, KP>(hs, "points", Src::Ins(12, 120));
    pr::<i64, D2, KP, KO, DefaultParams>(hs, "large", Src::Bulk(12, 120), Src::Bulk(6, 4), 1, 1);
    pr::<i64, D2, KO, KP, P4210>(hs, "large", Src::Bulk(6, 2), Src::Ins(12, 60), 1, 1);
    pr::<i64, D2, KO, KP, P40>(hs, "wide", Src::Lay(u(&[40]), 8), Src::Lay(u(&[3]), 8), 1, 0);
    pr::<i64, D2, KP, KO, P4210>(hs, "wide", Src::Lay(u(&[2, 2]), 8), Src::Lay(u(&[40]), 6), 1, 0);
    pr::<i64, D3, KO, KO, P4210>(hs, "3d", Src::Lay(u(&[2, 2]), 6), Src::Lay(u(&[3, 2]), 2), 1, 0);
    pr::<i64, D3, KO, KO, P4210>(hs, "3d", Src::Lay(u(&[2]), 6), Src::Lay(u(&[2]), 2), 3, 0);
    pr::<i64, T2, KR, KP, P4210>(hs, "tuples", Src::Lay(u(&[3, 2]), 6), Src::Lay(u(&[2, 2]), 5), 1, 0);
    v
}
