//! Path exploration: re-executes the real code once per feasible path, forking at every comparison of symbolic
//! numbers whose both outcomes Z3 finds satisfiable, and asks Z3 for a violation of the collected assertions.
use crate::term::*;
use crate::z3::{self, Ast, Ctx, Sat, Solver};
use crate::Native;
use crate::Sc;
use crate::Sym;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Stop {
    Infeasible,
    Unsupported(String),
    Limit(String),
}

/// Leaves the current path. While unwinding (drop code of the tested crate) it must not panic again.
pub fn stop<T>(s: Stop) -> T {
    let _ = try_with(|p| {
        if p.stopped.is_none() {
            p.stopped = Some(s.clone());
        }
    });
    if std::thread::panicking() {
        // a second unwind would abort; the recorded stop reason decides the path, any value will do
        eprintln!("stop while panicking: {:?}", s);
        std::process::exit(4);
    }
    resume_unwind(Box::new(s))
}

pub type Model = Vec<Option<Val>>;

struct Facts {
    /// a -> (b, strict): a <= b or a < b
    out: HashMap<u32, Vec<(u32, bool)>>,
    truth: HashMap<u32, bool>,
}
impl Facts {
    fn new() -> Facts { Facts { out: HashMap::new(), truth: HashMap::new() } }
    fn reach(&self, a: u32, b: u32, strict: bool) -> bool {
        // is there a path a ->* b (with a strict edge if `strict`)?
        let mut seen: HashMap<u32, bool> = HashMap::new();
        let mut work = vec![(a, false)];
        while let Some((x, s)) = work.pop() {
            if x == b && (s || !strict) { return true; }
            match seen.get(&x) {
                Some(&true) => continue,
                Some(&false) if !s => continue,
                _ => {}
            }
            seen.insert(x, s);
            if let Some(v) = self.out.get(&x) {
                for &(y, st) in v { work.push((y, s || st)); }
            }
        }
        false
    }
    fn known(&self, ar: &Arena, t: u32) -> Option<bool> {
        if let Some(&b) = self.truth.get(&t) { return Some(b); }
        let x = ar.get(t);
        match x.op {
            Op::Lt => if self.reach(x.a, x.b, true) { Some(true) } else if self.reach(x.b, x.a, false) { Some(false) } else { None },
            Op::Le => if self.reach(x.a, x.b, false) { Some(true) } else if self.reach(x.b, x.a, true) { Some(false) } else { None },
            Op::Eq => {
                if self.reach(x.a, x.b, true) || self.reach(x.b, x.a, true) { Some(false) }
                else if self.reach(x.a, x.b, false) && self.reach(x.b, x.a, false) { Some(true) }
                else { None }
            }
            _ => None,
        }
    }
    fn add(&mut self, ar: &Arena, t: u32, v: bool) {
        self.truth.insert(t, v);
        let x = ar.get(t);
        let fp = matches!(ar.mode, Mode::Fp(..));
        let mut e = |a: u32, b: u32, s: bool| self.out.entry(a).or_default().push((b, s));
        match (x.op, v) {
            (Op::Lt, true) => e(x.a, x.b, true),
            (Op::Lt, false) if !fp => e(x.b, x.a, false),
            (Op::Le, true) => e(x.a, x.b, false),
            (Op::Le, false) if !fp => e(x.b, x.a, true),
            (Op::Eq, true) => { e(x.a, x.b, false); e(x.b, x.a, false) }
            (Op::And, true) => { self.add(ar, x.a, true); self.add(ar, x.b, true) }
            (Op::Or, false) => { self.add(ar, x.a, false); self.add(ar, x.b, false) }
            (Op::Not, v) => self.add(ar, x.a, !v),
            _ => {}
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum VarKind { Num, Bool }

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub branches: u64,
    pub queries: u64,
    pub unknown: u64,
    pub checks: u64,
    pub final_queries: u64,
    pub solver_ns: u64,
    pub replays: u64,
    pub trace_mismatch: u64,
    pub unsupported: u64,
    pub unsupported_why: BTreeSet<String>,
    pub max_branches: u64,
    pub covers: BTreeSet<String>,
    pub samples: Vec<String>,
    pub crosscheck: u64,
    pub crosscheck_bad: u64,
}
impl Stats {
    pub fn absorb(&mut self, o: &Stats) { self.merge(o) }
    fn merge(&mut self, o: &Stats) {
        self.paths += o.paths; self.infeasible += o.infeasible; self.branches += o.branches; self.queries += o.queries;
        self.unknown += o.unknown; self.checks += o.checks; self.final_queries += o.final_queries; self.solver_ns += o.solver_ns;
        self.replays += o.replays; self.trace_mismatch += o.trace_mismatch; self.unsupported += o.unsupported;
        self.unsupported_why.extend(o.unsupported_why.iter().cloned());
        self.max_branches = self.max_branches.max(o.max_branches);
        self.covers.extend(o.covers.iter().cloned());
        self.samples.extend(o.samples.iter().cloned());
        self.crosscheck += o.crosscheck; self.crosscheck_bad += o.crosscheck_bad;
    }
}

struct Native_ { values: Model, next: usize }

pub struct Ex {
    pub arena: Arena,
    native: Option<Native_>,
    prefix: Vec<u8>,
    taken: Vec<u8>,
    pc: Vec<u32>,
    facts: Facts,
    vars: Vec<(u32, VarKind)>,
    /// unknowns that a native run computes instead of reading
    derived: HashSet<usize>,
    used_bool: HashSet<u32>,
    model: Model,
    model_ok: bool,
    checks: Vec<(String, u32)>,
    failed: Vec<String>,
    trace: Vec<u64>,
    new_items: Vec<(Vec<u8>, Model)>,
    stopped: Option<Stop>,
    limit: usize,
    deadline: Option<Instant>,
    pub st: Stats,
    // solver
    z: Option<Zst>,
    tactic: Option<&'static str>,
    timeout: u32,
    seed: u32,
    crosscheck: bool,
    desc: Vec<String>,
    harness: usize,
}
struct Zst {
    asts: Vec<Option<Ast>>,
    names: HashMap<u32, Ast>,
    num_sort: z3::Sort,
    solver: Option<Solver>,
    stack: Vec<u32>,
    ctx: Ctx,
}
const DECL: u32 = 1 << 31;
/// the solver version asked first
fn primary(mode: Mode) -> usize { if mode == Mode::Real { 1 } else { 0 } }
fn sort(ctx: &Ctx, mode: Mode) -> z3::Sort {
    match mode {
        Mode::Int => ctx.int_sort(),
        Mode::Real => ctx.real_sort(),
        Mode::Bv(w) => ctx.bv_sort(w),
        Mode::Fp(e, s) => ctx.fp_sort(e, s),
    }
}
fn constant(ctx: &Ctx, mode: Mode, num: z3::Sort, op: Op) -> Ast {
    match op {
        Op::VB(i) => { let s = ctx.bool_sort(); ctx.mk_const(&format!("b{}", i), s) }
        Op::VN(i, l, h) => {
            let s = match mode { Mode::Fp(e, s) => ctx.bv_sort(e + s), _ => num };
            ctx.mk_const(&format!("x{}_{}_{}", i, l, h).replace('-', "m"), s)
        }
        _ => unreachable!(),
    }
}

thread_local! { static EX: RefCell<Option<Box<Ex>>> = const { RefCell::new(None) }; }
pub fn with<R>(f: impl FnOnce(&mut Ex) -> R) -> R {
    EX.with(|e| f(e.borrow_mut().as_mut().expect("no execution context on this thread")))
}
fn try_with<R>(f: impl FnOnce(&mut Ex) -> R) -> Option<R> {
    EX.with(|e| e.try_borrow_mut().ok().and_then(|mut e| e.as_mut().map(|x| f(x))))
}

fn h64(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

impl Ex {
    fn new(mode: Mode, tactic: Option<&'static str>, timeout: u32, seed: u32, crosscheck: bool) -> Ex {
        Ex {
            arena: Arena::new(mode), native: None, prefix: vec![], taken: vec![], pc: vec![], facts: Facts::new(), vars: vec![], derived: HashSet::new(),
            used_bool: HashSet::new(), model: vec![], model_ok: true, checks: vec![], failed: vec![], trace: vec![], new_items: vec![],
            stopped: None, limit: 60_000, deadline: None, st: Stats::default(), z: None, tactic, timeout, seed, crosscheck, desc: vec![], harness: 0,
        }
    }
    fn begin(&mut self, prefix: Vec<u8>, model: Model) {
        self.prefix = prefix;
        self.model = model;
        self.model_ok = true;
        self.taken.clear();
        self.pc.clear();
        self.facts = Facts::new();
        self.vars.clear();
        self.derived.clear();
        self.used_bool.clear();
        self.checks.clear();
        self.failed.clear();
        self.trace.clear();
        self.new_items.clear();
        self.desc.clear();
        self.stopped = None;
        self.arena.new_epoch();
        self.crumb();
    }
    fn crumb(&self) { crate::watch::crumb(self.harness, self.model.iter().enumerate().filter(|(i, _)| !self.derived.contains(i)).map(|(_, v)| *v)); }
    fn zst(&mut self) -> &mut Zst {
        if self.z.is_none() {
            let ctx = Ctx::new(primary(self.arena.mode));
            let num_sort = sort(&ctx, self.arena.mode);
            let solver = if self.tactic.is_none() { Some(Solver::new(&ctx, None, self.timeout.min(3_000), self.seed)) } else { None };
            self.z = Some(Zst { asts: vec![], names: HashMap::new(), num_sort, solver, stack: vec![], ctx });
        }
        self.z.as_mut().unwrap()
    }
    fn knum(&mut self, v: Val) -> Ast {
        let mode = self.arena.mode;
        let z = self.zst();
        match v {
            Val::I(i) => z.ctx.numeral(&i.to_string(), z.num_sort),
            Val::Q(n, d) => z.ctx.numeral(&format!("{}/{}", n, d), z.num_sort),
            Val::F(f) => {
                let (e, s) = match mode { Mode::Fp(e, s) => (e, s), _ => unreachable!() };
                let bv = z.ctx.bv_sort(e + s);
                let b = z.ctx.numeral(&crate::fl::encode(f, e, s).to_string(), bv);
                z.ctx.to_fp_bv(b, z.num_sort)
            }
            Val::B(_) => unreachable!(),
        }
    }
    /// the constant whose model value is read (for floats: the bit pattern)
    fn zconst(&mut self, t: u32) -> Ast {
        if let Some(&a) = self.zst().names.get(&t) { return a; }
        let mode = self.arena.mode;
        let op = self.arena.get(t).op;
        let z = self.zst();
        let a = constant(&z.ctx, mode, z.num_sort, op);
        z.names.insert(t, a);
        a
    }
    fn z3(&mut self, t: u32) -> Ast {
        let n = self.arena.terms.len();
        {
            let z = self.zst();
            if z.asts.len() < n { z.asts.resize(n, None); }
            if let Some(a) = z.asts[t as usize] { return a; }
        }
        let x = self.arena.get(t);
        let mode = self.arena.mode;
        let r = match x.op {
            Op::CB(b) => self.zst().ctx.bool_val(b),
            Op::CI(_) | Op::CQ(..) | Op::CF(_) => { let v = self.arena.cval(t).unwrap(); self.knum(v) }
            Op::Nan => self.knum(Val::F(f64::NAN)),
            Op::VB(_) => self.zconst(t),
            Op::VN(..) => {
                let c = self.zconst(t);
                let z = self.zst();
                if let Mode::Fp(..) = mode { z.ctx.to_fp_bv(c, z.num_sort) } else { c }
            }
            Op::Not => { let a = self.z3(x.a); self.zst().ctx.not(a) }
            Op::And => { let a = self.z3(x.a); let b = self.z3(x.b); self.zst().ctx.and(&[a, b]) }
            Op::Or => { let a = self.z3(x.a); let b = self.z3(x.b); self.zst().ctx.or(&[a, b]) }
            Op::Ite => { let c = self.z3(x.a); let a = self.z3(x.b); let b = self.z3(x.c); self.zst().ctx.ite(c, a, b) }
            Op::IsNan => { let a = self.z3(x.a); self.zst().ctx.fpisnan(a) }
            Op::Neg => {
                let a = self.z3(x.a);
                let zero = if matches!(mode, Mode::Int | Mode::Real) { Some(self.knum(mode.of_int(0))) } else { None };
                let z = self.zst();
                match mode { Mode::Int | Mode::Real => z.ctx.sub(zero.unwrap(), a), Mode::Bv(_) => z.ctx.bvneg(a), Mode::Fp(..) => z.ctx.fpneg(a) }
            }
            Op::OvA | Op::OvS | Op::OvM => {
                let a = self.z3(x.a);
                let b = self.z3(x.b);
                let (lo, hi) = mode.irange().unwrap();
                match mode {
                    Mode::Int => {
                        let l = self.knum(Val::I(lo));
                        let h = self.knum(Val::I(hi));
                        let z = self.zst();
                        let r = match x.op { Op::OvA => z.ctx.add(a, b), Op::OvS => z.ctx.sub(a, b), _ => z.ctx.mul(a, b) };
                        let p = z.ctx.lt(r, l);
                        let q = z.ctx.lt(h, r);
                        z.ctx.or(&[p, q])
                    }
                    Mode::Bv(w) => {
                        let z = self.zst();
                        let (op, ext) = match x.op { Op::OvA => ('+', 1), Op::OvS => ('-', 1), _ => ('*', w) };
                        let ea = z.ctx.sext(ext, a);
                        let eb = z.ctx.sext(ext, b);
                        let wide = z.ctx.bv2(op, ea, eb);
                        let nar = z.ctx.bv2(op, a, b);
                        let en = z.ctx.sext(ext, nar);
                        let e = z.ctx.eq(wide, en);
                        z.ctx.not(e)
                    }
                    _ => unreachable!(),
                }
            }
            _ => {
                let a = self.z3(x.a);
                let b = self.z3(x.b);
                let bterm = self.arena.get(x.b).op;
                let zero = if mode == Mode::Int && x.op == Op::Div { Some(self.knum(Val::I(0))) } else { None };
                let z = self.zst();
                match mode {
                    Mode::Int | Mode::Real => match x.op {
                        Op::Add => z.ctx.add(a, b),
                        Op::Sub => z.ctx.sub(a, b),
                        Op::Mul => z.ctx.mul(a, b),
                        Op::Lt => z.ctx.lt(a, b),
                        Op::Le => z.ctx.le(a, b),
                        Op::Eq => z.ctx.eq(a, b),
                        Op::Div if mode == Mode::Real => z.ctx.div(a, b),
                        Op::Div => {
                            // Rust truncates; SMT-LIB div rounds down for positive divisors
                            let zero = zero.unwrap();
                            match bterm { Op::CI(d) if d > 0 => {}, _ => unreachable!("Int division only by positive constants") }
                            let pos = z.ctx.div(a, b);
                            let na = z.ctx.sub(zero, a);
                            let nd = z.ctx.div(na, b);
                            let neg = z.ctx.sub(zero, nd);
                            let c = z.ctx.le(zero, a);
                            z.ctx.ite(c, pos, neg)
                        }
                        _ => unreachable!(),
                    },
                    Mode::Bv(_) => match x.op {
                        Op::Add => z.ctx.bv2('+', a, b),
                        Op::Sub => z.ctx.bv2('-', a, b),
                        Op::Mul => z.ctx.bv2('*', a, b),
                        Op::Div => z.ctx.bv2('/', a, b),
                        Op::Rem => z.ctx.bv2('%', a, b),
                        Op::Lt => z.ctx.bv2('<', a, b),
                        Op::Le => z.ctx.bv2('l', a, b),
                        _ => z.ctx.eq(a, b),
                    },
                    Mode::Fp(..) => match x.op {
                        Op::Add => z.ctx.fp2('+', a, b),
                        Op::Sub => z.ctx.fp2('-', a, b),
                        Op::Mul => z.ctx.fp2('*', a, b),
                        Op::Div => z.ctx.fp2('/', a, b),
                        Op::Lt => z.ctx.fp2('<', a, b),
                        Op::Le => z.ctx.fp2('l', a, b),
                        Op::Eq => z.ctx.fp2('=', a, b),
                        _ => unreachable!(),
                    },
                }
            }
        };
        let z = self.zst();
        if z.asts.len() < n { z.asts.resize(n, None); }
        z.asts[t as usize] = Some(r);
        r
    }
    fn entry_ast(&mut self, e: u32) -> Option<Ast> {
        if e & DECL == 0 { return Some(self.z3(e)); }
        let t = e & !DECL;
        let mode = self.arena.mode;
        let (lo, hi) = match self.arena.get(t).op { Op::VN(_, l, h) => (l, h), _ => return None };
        let v = self.z3(t);
        let (l, h) = match mode {
            Mode::Fp(..) if lo == i64::MIN => mode.bounds(),
            Mode::Bv(w) if lo as i128 == -(1i128 << (w - 1)) && hi as i128 == (1i128 << (w - 1)) - 1 => return None,
            _ => (mode.of_int(lo), mode.of_int(hi)),
        };
        let l = self.knum(l);
        let h = self.knum(h);
        let z = self.zst();
        let (p, q) = match mode {
            Mode::Int | Mode::Real => (z.ctx.le(l, v), z.ctx.le(v, h)),
            Mode::Bv(_) => (z.ctx.bv2('l', l, v), z.ctx.bv2('l', v, h)),
            Mode::Fp(..) => (z.ctx.fp2('l', l, v), z.ctx.fp2('l', v, h)),
        };
        Some(z.ctx.and(&[p, q]))
    }
    /// Is the path condition plus `extra` satisfiable? On Sat returns a model (validated by the own evaluator).
    fn query(&mut self, extra: &[u32]) -> (Sat, Model) {
        crate::watch::solver(true);
        let r = self.query_(extra);
        crate::watch::solver(false);
        r
    }
    fn query_(&mut self, extra: &[u32]) -> (Sat, Model) {
        let t0 = Instant::now();
        self.st.queries += 1;
        let pc = self.pc.clone();
        let ex: Vec<Ast> = extra.iter().map(|&t| self.z3(t)).collect();
        let vars: Vec<u32> = self.vars.iter().map(|v| v.0).collect();
        let consts: Vec<Ast> = vars.iter().map(|&v| self.zconst(v)).collect();
        let mut one_shot = None;
        let r;
        let mut vals = vec![];
        if let Some(tac) = self.tactic {
            let a: Vec<Option<Ast>> = pc.iter().map(|&e| self.entry_ast(e)).collect();
            let (to, seed) = (self.timeout, self.seed);
            let z = self.zst();
            let s = Solver::new(&z.ctx, Some(tac), to, seed);
            for a in a.into_iter().flatten() { s.assert(a); }
            for &e in &ex { s.assert(e); }
            r = s.check();
            if r == Sat::Sat { vals = s.values(&consts); }
            one_shot = Some(s);
        } else {
            let common = self.zst().stack.iter().zip(pc.iter()).take_while(|(a, b)| a == b).count();
            {
                let z = self.zst();
                let n = z.stack.len() - common;
                z.solver.as_ref().unwrap().pop(n as u32);
                z.stack.truncate(common);
            }
            for &e in &pc[common..] {
                let a = self.entry_ast(e);
                let z = self.zst();
                let s = z.solver.as_ref().unwrap();
                s.push();
                if let Some(a) = a { s.assert(a); }
                z.stack.push(e);
            }
            let z = self.zst();
            let s = z.solver.as_ref().unwrap();
            s.push();
            for &e in &ex { s.assert(e); }
            r = s.check();
            if r == Sat::Sat { vals = s.values(&consts); }
            s.pop(1);
        }
        let mut r = r;
        let mut model = vec![];
        if r == Sat::Unknown {
            // further opinions: fresh non-incremental solvers of both versions, with growing time limits
            let a: Vec<Option<Ast>> = pc.iter().map(|&e| self.entry_ast(e)).collect();
            let (to, seed, tac) = (self.timeout, self.seed, self.tactic.unwrap_or("default"));
            let mut script: Option<String> = None;
            for (other, t) in [(true, to.min(6_000)), (false, to * 2), (true, to * 2)] {
                if self.deadline.map_or(false, |d| Instant::now() > d) { break; }
                if tac == "default" || other {
                    let sorts: Vec<Op> = vars.iter().map(|&v| self.arena.get(v).op).collect();
                    let mode = self.arena.mode;
                    let lib = primary(mode) ^ other as usize;
                    let z = self.zst();
                    if !other {
                        let s = Solver::new(&z.ctx, Some(tac), t, seed);
                        for a in a.iter().copied().flatten() { s.assert(a); }
                        for &e in &ex { s.assert(e); }
                        r = s.check();
                        if r == Sat::Sat { vals = s.values(&consts); }
                    } else {
                        let txt = script.get_or_insert_with(|| {
                            let s = Solver::new(&z.ctx, None, 1000, 0);
                            for a in a.iter().copied().flatten() { s.assert(a); }
                            for &e in &ex { s.assert(e); }
                            s.to_smt2()
                        });
                        let c = Ctx::new(lib);
                        let num = sort(&c, mode);
                        let cs: Vec<Ast> = sorts.iter().map(|&o| constant(&c, mode, num, o)).collect();
                        let s = Solver::new(&c, Some(tac), t, seed);
                        s.read(txt);
                        r = s.check();
                        if r == Sat::Sat { vals = s.values(&cs); }
                    }
                }
                if r != Sat::Unknown { break; }
            }
        }
        if r == Sat::Sat {
            model = self.convert(&vals);
            self.arena.new_epoch();
            for &e in pc.iter().chain(extra.iter()) {
                if e & DECL == 0 {
                    if let Some(Val::B(false)) = self.arena.eval(e, &model) {
                        eprintln!("ENCODING ERROR: Z3 model does not satisfy {}", self.arena.show(e));
                        std::process::exit(3);
                    }
                }
            }
            self.arena.new_epoch();
        }
        if r == Sat::Unknown { self.st.unknown += 1; }
        drop(one_shot);
        self.st.solver_ns += t0.elapsed().as_nanos() as u64;
        (r, model)
    }
    fn convert(&self, vals: &[Option<String>]) -> Model {
        let mode = self.arena.mode;
        vals.iter().zip(self.vars.iter()).map(|(s, (_, k))| {
            let s = s.as_ref()?;
            Some(match k {
                VarKind::Bool => Val::B(s == "true"),
                VarKind::Num => match mode {
                    Mode::Int => Val::I(s.parse().ok()?),
                    Mode::Bv(w) => Val::I(wrap(s.parse().ok()?, w)),
                    Mode::Real => {
                        let mut i = s.split('/');
                        let n: i128 = i.next()?.trim().parse().ok()?;
                        let d: i128 = match i.next() { Some(d) => d.trim().parse().ok()?, None => 1 };
                        let q = qnorm(n, d)?;
                        Val::Q(q.0, q.1)
                    }
                    Mode::Fp(e, sb) => Val::F(crate::fl::decode(s.parse().ok()?, e, sb)),
                },
            })
        }).collect()
    }
    fn eval_bool(&mut self, t: u32) -> Option<bool> {
        match self.arena.eval(t, &self.model) { Some(Val::B(b)) => Some(b), _ => None }
    }
    fn set_model(&mut self, m: Model) {
        self.model = m;
        self.model_ok = true;
        self.arena.new_epoch();
        self.crumb();
    }
    /// Makes sure `model` satisfies the path condition; false when the path is infeasible.
    fn ensure_model(&mut self) -> Result<bool, String> {
        if self.model_ok { return Ok(true); }
        match self.query(&[]) {
            (Sat::Sat, m) => { self.set_model(m); Ok(true) }
            (Sat::Unsat, _) => Ok(false),
            _ => Err("solver gave no answer on a path condition".into()),
        }
    }
    fn push_pc(&mut self, t: u32) {
        self.pc.push(t);
        let (p, v) = match self.arena.get(t).op { Op::Not => (self.arena.get(t).a, false), _ => (t, true) };
        self.facts_add(p, v);
        self.mark_used(p);
    }
    fn mark_used(&mut self, t: u32) {
        // booleans mentioned by the path condition are no longer free
        let mut w = vec![t];
        while let Some(t) = w.pop() {
            let x = self.arena.get(t);
            match x.op {
                Op::VB(_) => { self.used_bool.insert(t); }
                Op::Not => w.push(x.a),
                Op::And | Op::Or => { w.push(x.a); w.push(x.b) }
                Op::Ite => { w.push(x.a); w.push(x.b); w.push(x.c) }
                Op::Lt | Op::Le | Op::Eq | Op::Add | Op::Sub => { if self.has_ite(x.a) { w.push(x.a) } if self.has_ite(x.b) { w.push(x.b) } }
                _ => {}
            }
        }
    }
    fn has_ite(&self, t: u32) -> bool {
        let x = self.arena.get(t);
        match x.op { Op::Ite => true, Op::Add | Op::Sub | Op::Mul | Op::Div => self.has_ite(x.a) || self.has_ite(x.b), Op::Neg => self.has_ite(x.a), _ => false }
    }
    fn branch(&mut self, t: u32) -> Result<bool, Stop> {
        if t <= 1 { return Ok(t == 1); }
        let (p, neg) = match self.arena.get(t).op { Op::Not => (self.arena.get(t).a, true), _ => (t, false) };
        self.st.branches += 1;
        crate::watch::beat();
        let i = self.taken.len();
        if i >= self.limit { return Err(Stop::Limit(format!("more than {} branches on one path", self.limit))); }
        if i < self.prefix.len() {
            let d = self.prefix[i];
            self.taken.push(d);
            let v = d & 1 == 1;
            if d & 2 == 0 {
                let lit = if v { p } else { self.arena.not(p) };
                self.push_pc(lit);
            }
            return Ok(v ^ neg);
        }
        if let Some(v) = self.facts.known(&self.arena, p) {
            self.taken.push(v as u8 | 2);
            return Ok(v ^ neg);
        }
        if self.deadline.map_or(false, |d| Instant::now() > d) { return Err(Stop::Limit("time budget".into())); }
        match self.ensure_model() {
            Ok(true) => {}
            Ok(false) => return Err(Stop::Infeasible),
            Err(e) => return Err(Stop::Unsupported(e)),
        }
        let np = self.arena.not(p);
        let side = match self.eval_bool(p) {
            Some(s) => s,
            None => {
                // the model does not decide it (irrational value): ask
                match self.query(&[p]) {
                    (Sat::Sat, m) => { self.set_model(m); true }
                    (Sat::Unsat, _) => { self.taken.push(2); return Ok(neg); }
                    _ => return Err(Stop::Unsupported("solver gave no answer on a branch".into())),
                }
            }
        };
        let other = if side { np } else { p };
        let free = matches!(self.arena.get(p).op, Op::VB(_)) && !self.used_bool.contains(&p);
        let (r, m) = if free {
            let mut m = self.model.clone();
            if let Op::VB(ix) = self.arena.get(p).op { m[ix as usize] = Some(Val::B(!side)); }
            (Sat::Sat, m)
        } else {
            self.query(&[other])
        };
        match r {
            Sat::Sat => {
                let mut pre = self.taken.clone();
                pre.push(!side as u8);
                self.new_items.push((pre, m));
                self.taken.push(side as u8);
                let lit = if side { p } else { np };
                self.push_pc(lit);
            }
            Sat::Unsat => {
                self.taken.push(side as u8 | 2);
                self.facts_add(p, side);
            }
            Sat::Unknown => return Err(Stop::Unsupported("solver gave no answer on a branch".into())),
        }
        Ok(side ^ neg)
    }
    fn facts_add(&mut self, p: u32, v: bool) {
        let Ex { facts, arena, .. } = self;
        facts.add(arena, p, v);
    }
    fn add_assume(&mut self, t: u32) -> Result<(), Stop> {
        if t == 1 { return Ok(()); }
        if t == 0 { return Err(Stop::Infeasible); }
        if self.facts.known(&self.arena, t) == Some(true) { return Ok(()); }
        self.push_pc(t);
        if self.model_ok && self.eval_bool(t) != Some(true) { self.model_ok = false; }
        Ok(())
    }
}

pub fn branch_term(t: u32) -> bool {
    let r = with(|p| if p.stopped.is_some() { Ok(false) } else { p.branch(t) });
    match r { Ok(b) => b, Err(s) => stop(s) }
}
pub fn new_num(lo: i64, hi: i64) -> u32 {
    with(|p| {
        let i = p.vars.len() as u32;
        let t = p.arena.var_n(i, lo, hi);
        p.vars.push((t, VarKind::Num));
        p.pc.push(t | DECL);
        if p.model.len() <= i as usize {
            let d = if lo <= 0 && hi >= 0 { 0 } else { lo };
            let v = p.arena.mode.of_int(d);
            p.model.push(Some(v));
        }
        t
    })
}
pub fn native_num(_lo: i64, _hi: i64) -> Val {
    let r = with(|p| {
        let mode = p.arena.mode;
        let n = p.native.as_mut().unwrap();
        let v = n.values.get(n.next).copied().flatten();
        n.next += 1;
        v.or_else(|| if n.next <= n.values.len() { None } else { Some(mode.of_int(if _lo <= 0 && _hi >= 0 { 0 } else { _lo })) })
    });
    match r { Some(v) => v, None => stop(Stop::Unsupported("irrational model value".into())) }
}

/// The harness API.
pub struct Cx { _p: () }
impl Cx {
    pub fn native(&self) -> bool { with(|p| p.native.is_some()) }
    pub fn boolean(&mut self) -> B {
        with(|p| {
            if let Some(n) = p.native.as_mut() {
                let v = n.values.get(n.next).copied().flatten();
                n.next += 1;
                return B::C(matches!(v, Some(Val::B(true))));
            }
            let i = p.vars.len() as u32;
            let t = p.arena.var_b(i);
            p.vars.push((t, VarKind::Bool));
            if p.model.len() <= i as usize { p.model.push(Some(Val::B(false))); }
            B::T(t)
        })
    }
    /// Forks on a condition.
    pub fn split(&mut self, b: B) -> bool {
        let r = match b { B::C(b) => b, B::T(t) => branch_term(t) };
        with(|p| p.trace.push(r as u64));
        r
    }
    pub fn flip(&mut self) -> bool { let b = self.boolean(); self.split(b) }
    /// A symbolic choice among 0..n (forks).
    pub fn choose(&mut self, n: usize) -> usize {
        for i in 0..n - 1 { if self.flip() { return i; } }
        n - 1
    }
    pub fn num<S: Sc>(&mut self, lo: i64, hi: i64) -> S { S::input(lo, hi) }
    /// An unknown that the assumptions determine from the inputs; symbolic runs only (a native run computes it).
    pub fn derived<S: Sc>(&mut self, lo: i64, hi: i64) -> S {
        assert!(!self.native());
        with(|p| { let i = p.vars.len(); p.derived.insert(i); });
        let r = S::input(lo, hi);
        with(|p| p.crumb());
        r
    }
    pub fn assume(&mut self, b: B) {
        let t = match b { B::C(true) => return, B::C(false) => 0, B::T(t) => t };
        let r = with(|p| p.add_assume(t));
        if let Err(s) = r { stop(s) }
    }
    /// Asserts `b` for every value reaching this point.
    pub fn check(&mut self, label: &str, b: B) {
        with(|p| {
            p.st.checks += 1;
            p.trace.push(h64(label));
            match b {
                B::C(true) => {}
                B::C(false) => p.failed.push(label.to_string()),
                B::T(t) => p.checks.push((label.to_string(), t)),
            }
        })
    }
    pub fn cover(&mut self, label: &str) {
        with(|p| {
            p.trace.push(h64(label) ^ 1);
            if p.native.is_none() { p.st.covers.insert(label.to_string()); }
        })
    }
    pub fn note(&mut self, s: String) { with(|p| p.desc.push(s)) }
}

/// The harness API from inside user callbacks (selection functions, envelopes).
pub fn with_cx<R>(f: impl FnOnce(&mut Cx) -> R) -> R { f(&mut Cx { _p: () }) }

pub trait Harn: Send + Sync + 'static {
    fn run<S: Sc>(&self, c: &mut Cx);
}

#[derive(Clone)]
pub struct Harness {
    pub name: String,
    pub mode: Mode,
    pub thorough: bool,
    pub sym: Arc<dyn Fn(&mut Cx) + Send + Sync>,
    pub nat: Arc<dyn Fn(&mut Cx) + Send + Sync>,
    pub covers: Vec<String>,
    pub tactic: Option<&'static str>,
    pub timeout: u32,
    pub bounds: String,
    /// a panic is the expected outcome of every path (the assertion is that no path returns)
    pub must_panic: bool,
}
impl Harness {
    pub fn new<N: Native, H: Harn>(name: impl Into<String>, h: H) -> Harness {
        let h = Arc::new(h);
        let h2 = h.clone();
        Harness {
            name: name.into(), mode: N::MODE, thorough: false,
            sym: Arc::new(move |c| h.run::<Sym>(c)),
            nat: Arc::new(move |c| h2.run::<N>(c)),
            covers: vec![], tactic: None, timeout: 6_000, bounds: String::new(), must_panic: false,
        }
    }
    pub fn thorough(mut self) -> Self { self.thorough = true; self }
    pub fn covers(mut self, c: &[&str]) -> Self { self.covers = c.iter().map(|s| s.to_string()).collect(); self }
    pub fn tactic(mut self, t: &'static str) -> Self { self.tactic = Some(t); self }
    pub fn timeout(mut self, ms: u32) -> Self { self.timeout = ms; self }
    pub fn bounds(mut self, b: impl Into<String>) -> Self { self.bounds = b.into(); self }
    pub fn must_panic(mut self) -> Self { self.must_panic = true; self }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub harness: String,
    pub label: String,
    pub values: Vec<String>,
    pub model: Model,
    pub notes: Vec<String>,
    pub confirmed: Option<String>,
}

pub fn val_s(v: &Option<Val>) -> String {
    match v {
        None => "?".into(),
        Some(Val::B(b)) => b.to_string(),
        Some(Val::I(i)) => i.to_string(),
        Some(Val::Q(n, d)) => format!("{}/{}", n, d),
        Some(Val::F(f)) => format!("f{:016x}", f.to_bits()),
    }
}
fn val_p(s: &str, mode: Mode) -> Option<Val> {
    Some(match s {
        "true" => Val::B(true),
        "false" => Val::B(false),
        "?" => return None,
        _ if s.starts_with('f') => Val::F(f64::from_bits(u64::from_str_radix(&s[1..], 16).ok()?)),
        _ if s.contains('/') => { let mut i = s.split('/'); Val::Q(i.next()?.parse().ok()?, i.next()?.parse().ok()?) }
        _ => { let _ = mode; Val::I(s.parse().ok()?) }
    })
}

fn panic_msg(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else { "panic".into() }
}

pub enum NatOut { Pass(Vec<u64>), Fail(String), Unusable(String) }
/// Runs the harness natively (real number type, concrete values).
pub fn run_native(h: &Harness, model: &Model) -> (NatOut, Vec<String>) {
    let saved = EX.with(|e| e.borrow_mut().take());
    let mut ex = Box::new(Ex::new(h.mode, None, 1000, 0, false));
    ex.native = Some(Native_ { values: model.clone(), next: 0 });
    EX.with(|e| *e.borrow_mut() = Some(ex));
    let nat = h.nat.clone();
    let r = catch_unwind(AssertUnwindSafe(|| nat(&mut Cx { _p: () })));
    let ex = EX.with(|e| e.borrow_mut().take()).unwrap();
    EX.with(|e| *e.borrow_mut() = saved);
    let notes = ex.desc.clone();
    let out = match r {
        Ok(()) => {
            if let Some(l) = ex.failed.first() { NatOut::Fail(l.clone()) }
            else if h.must_panic { NatOut::Fail("no panic where one was required".into()) }
            else { NatOut::Pass(ex.trace.clone()) }
        }
        Err(e) => match e.downcast_ref::<Stop>() {
            Some(s) => NatOut::Unusable(format!("{:?}", s)),
            None => {
                if let Some(l) = ex.failed.first() { NatOut::Fail(l.clone()) }
                else if h.must_panic { NatOut::Pass(ex.trace.clone()) }
                else { NatOut::Fail(format!("panic: {}", panic_msg(&*e))) }
            }
        },
    };
    (out, notes)
}

struct Item { h: usize, prefix: Vec<u8>, model: Model }
struct Shared {
    queue: Mutex<Vec<Item>>,
    cv: Condvar,
    outstanding: AtomicUsize,
    qlen: AtomicUsize,
    abort: AtomicBool,
    deadline: Instant,
    timed_out: AtomicBool,
    left: AtomicU64,
    stats: Mutex<BTreeMap<usize, Stats>>,
    violations: Mutex<Vec<Violation>>,
    done_h: Mutex<HashSet<usize>>,
}

pub struct Config { pub threads: usize, pub seed: u32, pub budget: Duration, pub crosscheck: bool, pub stop_first: bool, pub verbose: bool }
pub struct Report { pub per: Vec<Stats>, pub violations: Vec<Violation>, pub timed_out: bool, pub left: u64, pub wall: f64 }

pub fn explore(hs: Vec<Harness>, cfg: Config) -> Report {
    let t0 = Instant::now();
    let n = hs.len();
    let budget = cfg.budget;
    let sh = Arc::new(Shared {
        queue: Mutex::new((0..n).rev().map(|h| Item { h, prefix: vec![], model: vec![] }).collect()),
        cv: Condvar::new(), outstanding: AtomicUsize::new(n), qlen: AtomicUsize::new(n), abort: AtomicBool::new(false),
        deadline: t0 + budget, timed_out: AtomicBool::new(false), left: AtomicU64::new(0),
        stats: Mutex::new(BTreeMap::new()), violations: Mutex::new(vec![]), done_h: Mutex::new(HashSet::new()),
    });
    std::panic::set_hook(Box::new(|_| {}));
    let (hs, cfg) = (Arc::new(hs), Arc::new(cfg));
    let ts: Vec<_> = (0..cfg.threads).map(|i| {
        let (sh, hs, cfg) = (sh.clone(), hs.clone(), cfg.clone());
        std::thread::Builder::new().stack_size(256 << 20).name(format!("w{}", i)).spawn(move || worker(&hs, &cfg, &sh)).unwrap()
    }).collect();
    loop {
        std::thread::sleep(Duration::from_millis(5));
        if ts.iter().all(|t| t.is_finished()) { break; }
        // solver calls that ignore their time limit
        if t0.elapsed() > budget + Duration::from_secs(45) { sh.timed_out.store(true, SeqCst); sh.left.fetch_add(sh.outstanding.load(SeqCst) as u64, SeqCst); break; }
        // a violation is at hand and the other threads take their time
        if sh.abort.load(SeqCst) && t0.elapsed() > Duration::from_secs(2) && ts.iter().filter(|t| !t.is_finished()).count() < ts.len() {
            std::thread::sleep(Duration::from_secs(1));
            break;
        }
    }
    let _ = std::panic::take_hook();
    let m = sh.stats.lock().unwrap().clone();
    let per = (0..n).map(|i| m.get(&i).cloned().unwrap_or_default()).collect();
    let violations = sh.violations.lock().unwrap().clone();
    Report { per, violations, timed_out: sh.timed_out.load(SeqCst), left: sh.left.load(SeqCst), wall: t0.elapsed().as_secs_f64() }
}

fn worker(hs: &[Harness], cfg: &Config, sh: &Shared) {
    let mut local: Vec<Item> = vec![];
    let mut cur: Option<usize> = None;
    let flush = |cur: Option<usize>| {
        if let Some(h) = cur {
            let st = with(|p| std::mem::take(&mut p.st));
            sh.stats.lock().unwrap().entry(h).or_default().merge(&st);
        }
    };
    loop {
        let item = match local.pop() {
            Some(i) => i,
            None => {
                let mut q = sh.queue.lock().unwrap();
                loop {
                    // prefer work of the harness this thread's solver is set up for
                    if let Some(pos) = q.iter().rposition(|i| Some(i.h) == cur) {
                        sh.qlen.fetch_sub(1, SeqCst);
                        break q.remove(pos);
                    }
                    if let Some(i) = q.pop() { sh.qlen.fetch_sub(1, SeqCst); break i; }
                    if sh.outstanding.load(SeqCst) == 0 { drop(q); flush(cur); return; }
                    q = sh.cv.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                }
            }
        };
        let finish = |n_new: usize| {
            // outstanding: this item done, n_new added
            if n_new >= 1 { sh.outstanding.fetch_add(n_new - 1, SeqCst); } else if sh.outstanding.fetch_sub(1, SeqCst) == 1 { sh.cv.notify_all(); }
        };
        if sh.abort.load(SeqCst) || (cfg.stop_first && sh.done_h.lock().unwrap().contains(&item.h)) { finish(0); continue; }
        if Instant::now() > sh.deadline { sh.timed_out.store(true, SeqCst); sh.left.fetch_add(1, SeqCst); finish(0); continue; }
        if cur != Some(item.h) {
            flush(cur);
            cur = Some(item.h);
            let h = &hs[item.h];
            let mut ex = Box::new(Ex::new(h.mode, h.tactic, h.timeout, cfg.seed, cfg.crosscheck));
            ex.deadline = Some(sh.deadline);
            ex.harness = item.h;
            EX.with(|e| *e.borrow_mut() = Some(ex));
        }
        let h = &hs[item.h];
        let new = run_path(h, item, cfg, sh);
        let n = new.len();
        let hi = cur.unwrap();
        finish(n);
        let mut new: Vec<Item> = new.into_iter().map(|(prefix, model)| Item { h: hi, prefix, model }).collect();
        if n > 0 && sh.qlen.load(SeqCst) < cfg.threads {
            // share the shallowest work
            let mut q = sh.queue.lock().unwrap();
            let give = if local.is_empty() { (new.len() / 2).max(if new.len() > 1 { 1 } else { 0 }) } else { 0 };
            if give > 0 { for i in new.drain(..give) { q.push(i); sh.qlen.fetch_add(1, SeqCst); } }
            else if !local.is_empty() { let k = (local.len() / 2).max(1); for i in local.drain(..k) { q.push(i); sh.qlen.fetch_add(1, SeqCst); } }
            sh.cv.notify_all();
        }
        local.extend(new);
    }
}

fn run_path(h: &Harness, item: Item, cfg: &Config, sh: &Shared) -> Vec<(Vec<u8>, Model)> {
    let hi = item.h;
    with(|p| p.begin(item.prefix, item.model));
    let f = h.sym.clone();
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut Cx { _p: () })));
    let mut fail: Option<String> = None;
    let stopped = with(|p| p.stopped.clone());
    let mut panicked = false;
    match (&stopped, r) {
        (Some(Stop::Infeasible), _) => with(|p| p.st.infeasible += 1),
        (Some(Stop::Limit(s)), _) if s.starts_with("more than") => {
            // an endless loop?
            if with(|p| p.ensure_model()) == Ok(true) { crate::watch::suspect(); }
            with(|p| { p.st.unsupported += 1; p.st.unsupported_why.insert(s.clone()); })
        }
        (Some(s), _) => with(|p| { p.st.unsupported += 1; p.st.unsupported_why.insert(format!("{:?}", s)); }),
        (None, Err(e)) => {
            panicked = true;
            if !h.must_panic { fail = Some(format!("panic: {}", panic_msg(&*e))); }
        }
        (None, Ok(())) => { if h.must_panic { fail = Some("no panic where one was required".into()); } }
    }
    let _ = panicked;
    if stopped.is_none() {
        let feasible = with(|p| p.ensure_model());
        match feasible {
            Ok(false) => { with(|p| p.st.infeasible += 1); return with(|p| std::mem::take(&mut p.new_items)); }
            Err(e) => { with(|p| { p.st.unsupported += 1; p.st.unsupported_why.insert(e); }); return with(|p| std::mem::take(&mut p.new_items)); }
            Ok(true) => {}
        }
        with(|p| {
            p.st.paths += 1;
            p.st.max_branches = p.st.max_branches.max(p.taken.len() as u64);
            if fail.is_none() { fail = p.failed.first().cloned(); }
            if fail.is_none() && !p.checks.is_empty() {
                // a violation under the model at hand?
                let cs = p.checks.clone();
                for (l, t) in &cs {
                    if p.eval_bool(*t) == Some(false) { fail = Some(l.clone()); break; }
                }
                if fail.is_none() {
                    let mut goal = 0;
                    for (_, t) in &cs {
                        if p.facts.known(&p.arena, *t) == Some(true) && p.pc.contains(t) { continue; }
                        let n = p.arena.not(*t);
                        goal = p.arena.or(goal, n);
                    }
                    if goal != 0 {
                        p.st.final_queries += 1;
                        let (mut r, mut m) = p.query(&[goal]);
                        if r == Sat::Unknown && cs.len() > 1 {
                            // one assertion at a time
                            r = Sat::Unsat;
                            for (_, t) in &cs {
                                let n = p.arena.not(*t);
                                if n == 0 { continue; }
                                let (a, b) = p.query(&[n]);
                                if a != Sat::Unsat { r = a; m = b; break; }
                            }
                        }
                        match r {
                            Sat::Unsat => {
                                if p.crosscheck && p.st.final_queries % 64 == 1 { p.cross(goal); }
                            }
                            Sat::Sat => {
                                p.set_model(m);
                                fail = Some(cs.iter().find(|(_, t)| p.eval_bool(*t) == Some(false)).map_or("unevaluable".to_string(), |c| c.0.clone()));
                            }
                            Sat::Unknown => { p.st.unsupported += 1; p.st.unsupported_why.insert("solver gave no answer on an assertion".into()); }
                        }
                    }
                }
            }
        });
        let (model, trace) = with(|p| (p.model.iter().enumerate().filter(|(i, _)| !p.derived.contains(i)).map(|(_, v)| *v).collect::<Model>(), p.trace.clone()));
        if let Some(label) = fail {
            let (out, notes) = run_native(h, &model);
            let confirmed = match out { NatOut::Fail(l) => Some(l), NatOut::Pass(_) => None, NatOut::Unusable(w) => { eprintln!("replay unusable: {}", w); None } };
            let v = Violation { harness: h.name.clone(), label, values: model.iter().map(val_s).collect(), model, notes, confirmed };
            if cfg.verbose { eprintln!("candidate violation: {:?}", v); }
            sh.violations.lock().unwrap().push(v.clone());
            sh.done_h.lock().unwrap().insert(hi);
            if cfg.stop_first && v.confirmed.is_some() { sh.abort.store(true, SeqCst); }
        } else {
            let (out, notes) = run_native(h, &model);
            match out {
                NatOut::Pass(t) => with(|p| {
                    if t == trace { p.st.replays += 1 } else { p.st.trace_mismatch += 1 }
                    if p.st.samples.len() < 1 && p.st.paths % 7 == 1 {
                        p.st.samples.push(format!("{}: inputs [{}] -> {} decisions, {} assertions{}{}", h.name, model.iter().map(val_s).collect::<Vec<_>>().join(","), p.taken.len(), trace.len(), if notes.is_empty() { "" } else { "; " }, notes.join("; ")));
                    }
                }),
                NatOut::Fail(l) => {
                    // the real code fails on concrete values although the encoding found the path fine
                    let v = Violation { harness: h.name.clone(), label: format!("native run of a path model: {}", l), values: model.iter().map(val_s).collect(), model, notes, confirmed: Some(l) };
                    if cfg.verbose { eprintln!("native-only violation: {:?}", v); }
                    sh.violations.lock().unwrap().push(v);
                    sh.done_h.lock().unwrap().insert(hi);
                    if cfg.stop_first { sh.abort.store(true, SeqCst); }
                }
                NatOut::Unusable(_) => with(|p| p.st.trace_mismatch += 1),
            }
        }
    }
    with(|p| std::mem::take(&mut p.new_items))
}

impl Ex {
    /// Asks a second solver (cvc5) about the same formula.
    fn cross(&mut self, goal: u32) {
        let pc = self.pc.clone();
        let a: Vec<Option<Ast>> = pc.iter().map(|&e| self.entry_ast(e)).collect();
        let g = self.z3(goal);
        let z = self.zst();
        let s = Solver::new(&z.ctx, Some("default"), 1000, 0);
        crate::watch::solver(true);
        for a in a.into_iter().flatten() { s.assert(a); }
        s.assert(g);
        let logic = match self.arena.mode { Mode::Int => "ALL", Mode::Real => "ALL", _ => "ALL" };
        let txt = format!("(set-logic {})\n{}\n(check-sat)\n", logic, s.to_smt2());
        let dir = std::env::temp_dir();
        let f = dir.join(format!("vsym-{}-{:?}.smt2", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
        if std::fs::write(&f, txt).is_err() { return; }
        let out = std::process::Command::new("cvc5").args(["--tlimit=20000", "-q"]).arg(&f).output();
        let _ = std::fs::remove_file(&f);
        crate::watch::solver(false);
        if let Ok(o) = out {
            let s = String::from_utf8_lossy(&o.stdout);
            if s.trim() == "unsat" { self.st.crosscheck += 1 } else if s.trim() == "sat" { self.st.crosscheck_bad += 1 }
        }
    }
}

pub fn parse_model(h: &Harness, values: &[String]) -> Model { values.iter().map(|s| val_p(s, h.mode)).collect() }
