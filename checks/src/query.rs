//! Envelope, point and distance queries on trees of a family (Q01-Q04, Q06, Q08).
use crate::*;
use rstar::{DefaultParams, Envelope, RTree, RTreeObject, RTreeParams, AABB};
use std::ops::ControlFlow;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Qk { In, Inter, At, Within }

pub struct Query<D, K, Pa> { pub q: Qk, pub src: Src, pub k: usize, pub other: (i64, i64), pub limit: Vec<i64>, pub visit: bool, pub _p: PhantomData<fn() -> (D, K, Pa)> }

/// Every stored object exactly when wanted, none twice, nothing else.
pub fn exact<T>(c: &mut Cx, tag: &str, all: &[*const T], got: &[*const T], want: &[B]) {
    let mut hits = vec![0; all.len()];
    let mut foreign = false;
    for g in got { match all.iter().position(|x| x == g) { Some(i) => hits[i] += 1, None => foreign = true } }
    c.check(&format!("{tag}: only stored objects"), (!foreign).into());
    c.check(&format!("{tag}: no object twice"), hits.iter().all(|&h| h <= 1).into());
    let ok = B::all((0..all.len()).map(|i| if hits[i] > 0 { want[i] } else { !want[i] }));
    c.check(&format!("{tag}: exactly the selected objects"), ok);
}
fn single<T>(c: &mut Cx, tag: &str, all: &[*const T], got: Option<*const T>, want: &[B]) {
    let ok = match got {
        None => !B::any(want.iter().copied()),
        Some(p) => match all.iter().position(|x| *x == p) { Some(i) => want[i], None => B::C(false) },
    };
    c.check(tag, ok);
}

impl<D: Dim, K: Kind, Pa: RTreeParams + 'static> Harn for Query<D, K, Pa> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let mut t: RTree<K::T<S, D>, Pa> = self.src.tree::<S, D, K, Pa>(c);
        let (lo, hi) = self.src.span();
        let ls = leaves(&t);
        let all: Vec<*const K::T<S, D>> = ls.iter().map(|x| *x as *const _).collect();
        match self.q {
            Qk::In | Qk::Inter => {
                let bx = part_box::<S, D>(c, self.k, self.other, lo, hi);
                let want: Vec<B> = ls.iter().map(|o| { let b = K::bx::<S, D>(o); if self.q == Qk::In { box_contains_box(&bx, &b) } else { boxes_touch(&bx, &b) } }).collect();
                drop(ls);
                if self.q == Qk::In {
                    if self.visit {
                        visits(c, &all, &want, |v| t.locate_in_envelope_int(bx, |o| v(o as *const _)), "locate_in_envelope_int");
                        visits(c, &all, &want, |v| t.locate_in_envelope_int_mut(bx, |o| v(o as *const _)), "locate_in_envelope_int_mut");
                        return;
                    }
                    let got: Vec<_> = t.locate_in_envelope(bx).map(|o| o as *const _).collect();
                    if !got.is_empty() { c.cover("some found") }
                    if got.len() < all.len() { c.cover("some not found") }
                    exact(c, "locate_in_envelope", &all, &got, &want);
                    let got: Vec<_> = t.locate_in_envelope_mut(bx).map(|o| o as *const _).collect();
                    exact(c, "locate_in_envelope_mut", &all, &got, &want);
                    let e: Vec<_> = t.locate_in_envelope(AABB::new_empty()).map(|o| o as *const _).collect();
                    exact(c, "locate_in_envelope(empty)", &all, &e, &vec![B::C(false); all.len()]);
                } else {
                    if self.visit {
                        visits(c, &all, &want, |v| t.locate_in_envelope_intersecting_int(bx, |o| v(o as *const _)), "locate_in_envelope_intersecting_int");
                        visits(c, &all, &want, |v| t.locate_in_envelope_intersecting_int_mut(bx, |o| v(o as *const _)), "locate_in_envelope_intersecting_int_mut");
                        return;
                    }
                    let got: Vec<_> = t.locate_in_envelope_intersecting(bx).map(|o| o as *const _).collect();
                    if !got.is_empty() { c.cover("some found") }
                    if got.len() < all.len() { c.cover("some not found") }
                    exact(c, "locate_in_envelope_intersecting", &all, &got, &want);
                    let got: Vec<_> = t.locate_in_envelope_intersecting_mut(bx).map(|o| o as *const _).collect();
                    exact(c, "locate_in_envelope_intersecting_mut", &all, &got, &want);
                    let e: Vec<_> = t.locate_in_envelope_intersecting(AABB::new_empty()).map(|o| o as *const _).collect();
                    exact(c, "locate_in_envelope_intersecting(empty)", &all, &e, &vec![B::C(false); all.len()]);
                }
            }
            Qk::At => {
                let p = part_pt::<S, D>(self.k, self.other.0, lo, hi);
                let want: Vec<B> = ls.iter().map(|o| K::has::<S, D>(o, &p)).collect();
                drop(ls);
                if self.visit {
                    visits(c, &all, &want, |v| t.locate_all_at_point_int(p, |o| v(o as *const _)), "locate_all_at_point_int");
                    visits(c, &all, &want, |v| t.locate_all_at_point_int_mut(p, |o| v(o as *const _)), "locate_all_at_point_int_mut");
                    return;
                }
                let got: Vec<_> = t.locate_all_at_point(p).map(|o| o as *const _).collect();
                if !got.is_empty() { c.cover("some found") }
                if got.len() < all.len() { c.cover("some not found") }
                exact(c, "locate_all_at_point", &all, &got, &want);
                let got: Vec<_> = t.locate_all_at_point_mut(p).map(|o| o as *const _).collect();
                exact(c, "locate_all_at_point_mut", &all, &got, &want);
                let mut got = vec![];
                let r: ControlFlow<()> = t.locate_all_at_point_int(p, |o| { got.push(o as *const _); ControlFlow::Continue(()) });
                c.check("locate_all_at_point_int completes", matches!(r, ControlFlow::Continue(())).into());
                exact(c, "locate_all_at_point_int", &all, &got, &want);
                let mut got = vec![];
                let r: ControlFlow<()> = t.locate_all_at_point_int_mut(p, |o| { got.push(o as *const _); ControlFlow::Continue(()) });
                c.check("locate_all_at_point_int_mut completes", matches!(r, ControlFlow::Continue(())).into());
                exact(c, "locate_all_at_point_int_mut", &all, &got, &want);
                let g = t.locate_at_point(p).map(|o| o as *const _);
                single(c, "locate_at_point", &all, g, &want);
                let g = t.locate_at_point_mut(p).map(|o| o as *const _);
                single(c, "locate_at_point_mut", &all, g, &want);
                let g = t.locate_at_point_int(p).map(|o| o as *const _);
                single(c, "locate_at_point_int", &all, g, &want);
                let g = t.locate_at_point_int_mut(p).map(|o| o as *const _);
                single(c, "locate_at_point_int_mut", &all, g, &want);
            }
            Qk::Within => {
                let p = part_pt::<S, D>(self.k, self.other.0, lo, hi);
                let m = if self.limit.is_empty() { S::input(0, (hi - lo) * (hi - lo)) } else { S::from_i(self.limit[c.choose(self.limit.len())]) };
                let want: Vec<B> = ls.iter().map(|o| K::d2::<S, D>(o, &p).ble(m)).collect();
                drop(ls);
                let got: Vec<_> = t.locate_within_distance(p, m).map(|o| o as *const _).collect();
                if !got.is_empty() { c.cover("some found") }
                if got.len() < all.len() { c.cover("some not found") }
                exact(c, "locate_within_distance", &all, &got, &want);
            }
        }
    }
}

/// Callback-driven variants: run to the end, and stopped at every possible object.
fn visits<T>(c: &mut Cx, all: &[*const T], want: &[B], mut run: impl FnMut(&mut dyn FnMut(*const T) -> ControlFlow<(u32, *const T)>) -> ControlFlow<(u32, *const T)>, tag: &str) {
    let mut full = vec![];
    let r = run(&mut |o| { full.push(o); ControlFlow::Continue(()) });
    c.check(&format!("{tag}: reports completion"), matches!(r, ControlFlow::Continue(())).into());
    exact(c, tag, all, &full, want);
    if !full.is_empty() {
        let n = full.len();
        let at: Vec<usize> = if n <= 6 { (0..n).collect() } else { vec![0, 1, n / 2, n - 1] };
        let stop = at[c.choose(at.len())];
        if stop > 0 { c.cover("stopped later") }
        let mut seen = vec![];
        let r = run(&mut |o| {
            seen.push(o);
            if seen.len() == stop + 1 { ControlFlow::Break((77 + stop as u32, o)) } else { ControlFlow::Continue(()) }
        });
        c.check(&format!("{tag}: no object visited after the stop"), (seen.len() == stop + 1).into());
        c.check(&format!("{tag}: the callback's value is returned"), matches!(r, ControlFlow::Break((v, p)) if v == 77 + stop as u32 && Some(&p) == seen.last()).into());
        let uniq: std::collections::BTreeSet<_> = seen.iter().collect();
        c.check(&format!("{tag}: no object twice before the stop"), (uniq.len() == seen.len()).into());
        c.check(&format!("{tag}: only selected objects before the stop"), seen.iter().all(|p| full.contains(p)).into());
    }
}

/// Membership of a symbolic object.
pub struct Contains<D, K, Pa> { pub src: Src, pub k: usize, pub other: (i64, i64), pub _p: PhantomData<fn() -> (D, K, Pa)> }
impl<D: Dim, K: Kind, Pa: RTreeParams + 'static> Harn for Contains<D, K, Pa> {
    fn run<S: Sc>(&self, c: &mut Cx) {
        let t: RTree<K::T<S, D>, Pa> = self.src.tree::<S, D, K, Pa>(c);
        let (lo, hi) = self.src.span();
        let ls = leaves(&t);
        let id = c.choose(ls.len() + 1) as u32;
        let o = if K::POINT { let p = part_pt::<S, D>(self.k, self.other.0, lo, hi); K::make::<S, D>(id, p, p) }
            else { let b = part_box::<S, D>(c, self.k, self.other, lo, hi); K::make::<S, D>(id, b.lower(), b.upper()) };
        // equality implies equal envelopes
        for l in &ls { let e = K::same::<S, D>(l, &o); let b = box_eq(&l.envelope(), &o.envelope()); c.assume(e.implies(b)); }
        let want = B::any(ls.iter().map(|l| K::same::<S, D>(l, &o)));
        let r = t.contains(&o);
        c.cover(if r { "contained" } else { "not contained" });
        c.check("contains", want.iff(r.into()));
    }
}

#[inline]
pub fn harnesses(q: Qk, visit: bool) -> Vec<Harness> {
    let mut v = vec![];
    let hs = &mut v;
    let u = Sh::uniform;
    let sh = Sh::parse;
    fn add<N: Native, D: Dim, K: Kind, Pa: RTreeParams + 'static>(hs: &mut Vec<Harness>, q: Qk, visit: bool, d: &str, src: Src, k: usize, other: (i64, i64)) -> usize {
        let limit = if q == Qk::Within { vec![0, 1, 9, 50] } else { vec![] };
        let bounds = format!("{}; objects {}; {} of the query's coordinates (per corner) symbolic over {:?}, the others fixed at {:?}{}", src.text(), d, k, src.span(), other, if q == Qk::Within { format!(", squared limits {:?}", limit) } else { String::new() });
        let name = format!("{:?}{}-{}-{}-{}-k{}", q, if visit { "-visit" } else { "" }, hs.len(), d, match &src { Src::Sym(s, ..) => format!("sym{}", show(s)), Src::Lay(s, l) => format!("lay{l}{}", show(s)), Src::Bulk(l, n) => format!("bulk{l}_{n}"), Src::Ins(l, n) => format!("grown{l}_{n}"), Src::Mixed(l, n) => format!("mixed{l}_{n}") }, k);
        hs.push(Harness::new::<N, _>(name, Query::<D, K, Pa> { q, src, k, other, limit, visit, _p: PhantomData }).bounds(bounds));
        hs.len() - 1
    }
    macro_rules! th { ($e:expr) => { { let i = $e; hs[i].thorough = true; } } }
    macro_rules! cov { ($e:expr) => { { let i = $e; if !visit { hs[i].covers.push("some found".into()); hs[i].covers.push("some not found".into()); } else { hs[i].covers.push("stopped later".into()); } } } }
    if q != Qk::Within {
        // everything symbolic: objects, node envelopes, query
        for s in ["()", "(0)", "(01)", "((0)(1))", "(((0))((1)))"] {
            add::<i64, D2, KO, P4210>(hs, q, visit, "boxes", Src::Sym(sh(s), 0, 20), 2, (0, 0));
        }
        for s in ["(012)", "((01)(2))", "((01)(23))"] {
            if q == Qk::At { add::<i64, D2, KP, P4210>(hs, q, visit, "points", Src::Sym(sh(s), 0, 20), 2, (0, 0)); }
            else { add::<i64, D2, KP, P4210>(hs, q, visit, "points", Src::Sym(sh(s), 0, 20), 1, (3, 7)); }
        }
        add::<i64, D3, KO, P4210>(hs, q, visit, "boxes 3d", Src::Sym(sh("((0))"), 0, 20), 3, (0, 0));
        th!(add::<i64, D2, KR, P4210>(hs, q, visit, "rectangles", Src::Sym(sh("((0)(1)(2))"), 0, 20), 2, (0, 0)));
        th!(add::<i64, D2, KO, P4210>(hs, q, visit, "boxes", Src::Sym(sh("((01)(2))"), 0, 20), 2, (0, 0)));
    }
    // concrete trees, symbolic query
    let w = q == Qk::Within;
    for l in [0, 1, 2, 5, 6, 7] {
        let boxy = [2, 6, 7].contains(&l);
        add::<i64, D2, KO, P4210>(hs, q, visit, "boxes", Src::Lay(u(&[2, 3]), l), if w || boxy && q != Qk::At { 1 } else { 2 }, (2, 5));
        add::<i64, D2, KR, P4210>(hs, q, visit, "rectangles", Src::Lay(u(&[4, 2]), l), 1, (2, 5));
        add::<i64, D2, KW, P4210>(hs, q, visit, "wrapped rectangles", Src::Lay(u(&[2, 2, 2]), l), 1, (2, 9));
        if !boxy {
            add::<i64, D2, KP, DefaultParams>(hs, q, visit, "points", Src::Bulk(l, 40), 1, (-8, 12));
            add::<i64, D2, KP, P4210>(hs, q, visit, "points", Src::Ins(l, 18), 1, (-8, 12));
            add::<i64, D2, KP, P4210>(hs, q, visit, "points", Src::Mixed(l, 22), 1, (-8, 12));
        } else {
            add::<i64, D2, KO, DefaultParams>(hs, q, visit, "boxes", Src::Bulk(l, 30), 1, (-8, 12));
            add::<i64, D2, KR, P4210>(hs, q, visit, "rectangles", Src::Ins(l, 14), 1, (-8, 12));
        }
    }
    if q == Qk::In || q == Qk::Inter || q == Qk::At {
        cov!(add::<i64, D2, KO, P4210>(hs, q, visit, "boxes", Src::Lay(Sh::two(&[3, 4]), 7), 1, (-2, 2)));
    }
    // wide nodes: traversal buffers spill to the heap
    for n in if w { vec![24, 33] } else if visit { vec![25, 33] } else { vec![23, 24, 25, 31, 32, 33, 40] } { add::<i64, D2, KO, P40>(hs, q, visit, "points in one wide node", Src::Lay(u(&[n]), 8), 1, (0, 0)); }
    add::<i64, D2, KO, P40>(hs, q, visit, "points in wide nodes", Src::Lay(u(&[13, 3]), 8), 1, (0, 0));
    add::<i64, D2, KO, P40>(hs, q, visit, "boxes in wide nodes", Src::Lay(u(&[3, 30]), 6), 1, (-9, 9));
    // other dimensions and point types
    add::<i64, D3, KO, DefaultParams>(hs, q, visit, "boxes 3d", Src::Bulk(6, 20), 1, (-9, 9));
    add::<i64, D3, KR, P4210>(hs, q, visit, "rectangles 3d", Src::Lay(u(&[2, 2]), 6), if w { 1 } else { 2 }, (-9, 9));
    add::<i64, D4, KO, P4210>(hs, q, visit, "boxes 4d", Src::Lay(u(&[3, 3]), 6), 1, (-9, 9));
    add::<i64, T2, KP, DefaultParams>(hs, q, visit, "tuple points", Src::Bulk(5, 14), 1, (-9, 9));
    add::<i64, T3, KR, DefaultParams>(hs, q, visit, "tuple rectangles", Src::Lay(u(&[3, 3]), 6), 1, (-9, 9));
    // machine numbers: every value of the type is a possible query coordinate
    if !w {
        add::<i8, D2, KO, P4210>(hs, q, visit, "boxes i8", Src::Lay(u(&[2, 2]), 6), 1, (-9, 9));
        add::<f32, D2, KO, P4210>(hs, q, visit, "boxes f32", Src::Lay(u(&[2, 2]), 6), 1, (-9, 9));
    }
    th!(add::<i64, D2, KO, P4210>(hs, q, visit, "boxes", Src::Lay(u(&[4, 4]), 6), if w { 1 } else { 2 }, (-9, 9)));
    // large trees
    add::<i64, D2, KP, DefaultParams>(hs, q, visit, "points", Src::Bulk(5, if visit { 70 } else { 150 }), 1, (-9, 9));
    add::<i64, D2, KP, DefaultParams>(hs, q, visit, "points", Src::Bulk(12, if visit { 120 } else { 400 }), 1, if visit { (-9, 9) } else { (-90, 90) });
    add::<i64, D2, KP, P4210>(hs, q, visit, "points", Src::Ins(12, if visit { 80 } else { 200 }), 1, if visit { (-30, 30) } else { (-90, 90) });
    let i = add::<i64, D2, KO, DefaultParams>(hs, q, visit, "boxes", Src::Mixed(6, 120), 1, (-9, 9));
    let j = add::<i64, D2, KR, P5311>(hs, q, visit, "rectangles", Src::Ins(13, 150), 1, (-90, 90));
    if w || visit { hs[i].thorough = true; hs[j].thorough = true; }
    th!(add::<i64, D2, KP, DefaultParams>(hs, q, visit, "points", Src::Bulk(12, 1500), 1, (-90, 90)));
    th!(add::<i64, D2, KP, P4210>(hs, q, visit, "points", Src::Ins(12, 600), 1, (-90, 90)));
    th!(add::<i64, D3, KP, DefaultParams>(hs, q, visit, "points 3d", Src::Mixed(12, 900), 1, (-90, 90)));
    if q == Qk::At || q == Qk::Within {
        for l in [2, 6, 11] {
            let o = lay(l, 1, 1).0;
            add::<i64, D2, KC, P4210>(hs, q, visit, "corner pairs", Src::Lay(u(&[3, 2]), l), 1, (o, o));
            add::<i64, D2, KC, DefaultParams>(hs, q, visit, "corner pairs", Src::Bulk(l, 14), 1, (o, o));
            add::<i64, D3, KC, P4210>(hs, q, visit, "corner pairs 3d", Src::Lay(u(&[2, 2]), l), 1, (o, o));
        }
        for s in [&[2][..], &[2, 2]] { let i = add::<Q, D2, KL, P4210>(hs, q, visit, "lines", Src::Lay(u(s), 6), if w { 1 } else { 2 }, (1, 1)); hs[i].timeout = 20_000; }
    }
    v
}
#[inline]
pub fn contains_harnesses() -> Vec<Harness> {
    let mut v = vec![];
    let hs = &mut v;
    fn add<D: Dim, K: Kind, Pa: RTreeParams + 'static>(hs: &mut Vec<Harness>, d: &str, src: Src, k: usize, other: (i64, i64)) -> usize {
        let b = format!("{}; {d}; asked for an object with {k} symbolic coordinates (per corner) in {:?}, the others fixed at {:?}, and every identity", src.text(), src.span(), other);
        hs.push(Harness::new::<i64, _>(format!("contains-{}-{d}", hs.len()), Contains::<D, K, Pa> { src, k, other, _p: PhantomData }).bounds(b));
        hs.len() - 1
    }
    let sh = Sh::parse;
    let u = Sh::uniform;
    for s in ["()", "(0)", "(01)", "((0)(1))", "((01)(2))", "(((0)(1))((2)))"] { add::<D2, KP, P4210>(hs, "symbolic points", Src::Sym(sh(s), 0, 20), 2, (0, 0)); }
    for s in ["(0)", "(01)", "((0)(1))", "(((0))((1)))"] {
        add::<D2, KO, P4210>(hs, "symbolic objects with identity", Src::Sym(sh(s), 0, 20), 2, (0, 0));
        add::<D2, KR, P4210>(hs, "symbolic rectangles", Src::Sym(sh(s), 0, 20), 2, (0, 0));
    }
    add::<D3, KP, P4210>(hs, "symbolic 3d points", Src::Sym(sh("((0)(1))"), 0, 20), 3, (0, 0));
    for l in [0, 1, 2, 5, 6, 7] {
        let o = (lay(l, 1, 1).0, lay(l, 1, 1).1);
        add::<D2, KO, P4210>(hs, "objects with identity", Src::Lay(u(&[3, 2]), l), 1, o);
        add::<D2, KR, DefaultParams>(hs, "rectangles", Src::Bulk(l, 20), 1, o);
        add::<D2, KW, P4210>(hs, "wrapped rectangles with data", Src::Lay(u(&[2, 2]), l), 2, o);
        if ![2, 6, 7].contains(&l) {
            add::<D2, KP, DefaultParams>(hs, "points", Src::Bulk(l, 60), 1, o);
            add::<D2, KP, P4210>(hs, "points", Src::Mixed(l, 24), 2, o);
        } else {
            add::<D2, KR, P4210>(hs, "rectangles", Src::Mixed(l, 24), 1, o);
        }
        add::<T3, KR, P4210>(hs, "tuple rectangles", Src::Lay(u(&[2, 2]), l), 2, o);
    }
    add::<D2, KP, P40>(hs, "points in one wide node", Src::Lay(u(&[40]), 5), 1, (0, -3));
    // large trees
    let o = (lay(12, 1, 1).0, lay(12, 1, 1).1);
    add::<D2, KP, DefaultParams>(hs, "points", Src::Bulk(12, 400), 1, o);
    add::<D2, KP, P4210>(hs, "points", Src::Ins(12, 200), 1, o);
    add::<D2, KO, P5311>(hs, "objects with identity", Src::Mixed(13, 200), 1, o);
    for n in [900, 2000] { let i = add::<D2, KP, DefaultParams>(hs, "points", Src::Bulk(12, n), 1, o); hs[i].thorough = true; }
    v
}
