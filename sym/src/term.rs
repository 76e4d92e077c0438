//! Hash-consed term arena (one per worker thread) with constant folding, intervals and a concrete evaluator.
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
    /// mathematical integers standing for i64 (values stay far from the i64 limits; a term that could leave
    /// the i64 range raises an overflow panic exactly like debug i64 arithmetic)
    Int,
    /// rationals/reals: floating point without rounding
    Real,
    /// two's complement machine integers with debug-build overflow panics
    Bv(u32),
    /// IEEE binary floating point (exponent bits, significand bits incl. hidden bit), round to nearest even
    Fp(u32, u32),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Val {
    B(bool),
    I(i128),
    Q(i128, i128),
    F(f64),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    CB(bool),
    CI(i128),
    CQ(i128, i128),
    CF(u64),
    Nan,
    VB(u32),
    VN(u32, i64, i64),
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
    Ite,
    Lt,
    Le,
    Eq,
    Not,
    And,
    Or,
    OvA,
    OvS,
    OvM,
    IsNan,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Term {
    pub op: Op,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

/// A truth value: concrete, or a term of the current arena.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    C(bool),
    T(u32),
}

pub struct Arena {
    pub mode: Mode,
    pub terms: Vec<Term>,
    pub iv: Vec<Option<(i128, i128)>>,
    map: HashMap<Term, u32>,
    deg: Vec<u8>,
    polys: HashMap<u32, Option<std::rc::Rc<Poly>>>,
    // evaluator memo
    memo: Vec<(u32, Option<Val>)>,
    epoch: u32,
}

/// Monomial (sorted atoms, with repetition) -> rational coefficient.
type Poly = std::collections::BTreeMap<Vec<u32>, (i128, i128)>;
const POLY_MAX: usize = 96;

pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}
pub fn qnorm(n: i128, d: i128) -> Option<(i128, i128)> {
    if d == 0 {
        return None;
    }
    let g = gcd(n, d).max(1);
    let (n, d) = (n / g, d / g);
    Some(if d < 0 { (n.checked_neg()?, d.checked_neg()?) } else { (n, d) })
}
pub fn qadd(a: (i128, i128), b: (i128, i128)) -> Option<(i128, i128)> {
    qnorm(a.0.checked_mul(b.1)?.checked_add(b.0.checked_mul(a.1)?)?, a.1.checked_mul(b.1)?)
}
pub fn qmul(a: (i128, i128), b: (i128, i128)) -> Option<(i128, i128)> {
    // cross-reduce first
    let g1 = gcd(a.0, b.1).max(1);
    let g2 = gcd(b.0, a.1).max(1);
    qnorm((a.0 / g1).checked_mul(b.0 / g2)?, (a.1 / g2).checked_mul(b.1 / g1)?)
}
pub fn qcmp(a: (i128, i128), b: (i128, i128)) -> Option<std::cmp::Ordering> {
    Some(a.0.checked_mul(b.1)?.cmp(&b.0.checked_mul(a.1)?))
}

pub const REAL_MAX: i128 = 1 << 50;

impl Mode {
    pub fn bounds(self) -> (Val, Val) {
        match self {
            Mode::Int => (Val::I(i64::MIN as i128), Val::I(i64::MAX as i128)),
            Mode::Real => (Val::Q(-REAL_MAX, 1), Val::Q(REAL_MAX, 1)),
            Mode::Bv(w) => (Val::I(-(1i128 << (w - 1))), Val::I((1i128 << (w - 1)) - 1)),
            Mode::Fp(e, s) => (Val::F(-crate::fl::max_finite(e, s)), Val::F(crate::fl::max_finite(e, s))),
        }
    }
    pub fn irange(self) -> Option<(i128, i128)> {
        match self {
            Mode::Int => Some((i64::MIN as i128, i64::MAX as i128)),
            Mode::Bv(w) => Some((-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)),
            _ => None,
        }
    }
    pub fn of_int(self, v: i64) -> Val {
        match self {
            Mode::Int | Mode::Bv(_) => Val::I(v as i128),
            Mode::Real => Val::Q(v as i128, 1),
            Mode::Fp(e, s) => Val::F(crate::fl::round(v as f64, e, s)),
        }
    }
    pub fn name(self) -> String {
        match self {
            Mode::Int => "Int (i64 without overflow)".into(),
            Mode::Real => "Real (exact rationals)".into(),
            Mode::Bv(w) => format!("BitVec {} (i{}, debug overflow panics)", w, w),
            Mode::Fp(8, 24) => "Float32 (f32)".into(),
            Mode::Fp(11, 53) => "Float64 (f64)".into(),
            Mode::Fp(e, s) => format!("FloatingPoint({},{})", e, s),
        }
    }
}

/// Concrete arithmetic of a mode; None when the result is not representable (rational overflow, /0).
pub fn arith(mode: Mode, op: Op, a: Val, b: Val) -> Option<Val> {
    match (a, b) {
        (Val::I(x), Val::I(y)) => {
            let r = match op {
                Op::Add => x + y,
                Op::Sub => x - y,
                Op::Mul => x.checked_mul(y)?,
                Op::Div => if y == 0 { return None } else { x / y },
                Op::Rem => if y == 0 { return None } else { x % y },
                _ => unreachable!(),
            };
            Some(Val::I(match mode {
                Mode::Bv(w) => wrap(r, w),
                _ => r,
            }))
        }
        (Val::Q(x, d), Val::Q(y, e)) => {
            let r = match op {
                Op::Add => qadd((x, d), (y, e)),
                Op::Sub => qadd((x, d), (y.checked_neg()?, e)),
                Op::Mul => qmul((x, d), (y, e)),
                Op::Div => if y == 0 { None } else { qmul((x, d), qnorm(e, y)?) },
                _ => None,
            }?;
            Some(Val::Q(r.0, r.1))
        }
        (Val::F(x), Val::F(y)) => {
            let (e, s) = match mode { Mode::Fp(e, s) => (e, s), _ => return None };
            let r = match op {
                Op::Add => x + y,
                Op::Sub => x - y,
                Op::Mul => x * y,
                Op::Div => x / y,
                _ => return None,
            };
            Some(Val::F(crate::fl::round(r, e, s)))
        }
        _ => None,
    }
}
pub fn wrap(r: i128, w: u32) -> i128 {
    let m = 1i128 << w;
    let r = r.rem_euclid(m);
    if r >= m / 2 { r - m } else { r }
}
pub fn vcmp(op: Op, a: Val, b: Val) -> Option<bool> {
    Some(match (a, b) {
        (Val::I(x), Val::I(y)) => match op { Op::Lt => x < y, Op::Le => x <= y, _ => x == y },
        (Val::F(x), Val::F(y)) => match op { Op::Lt => x < y, Op::Le => x <= y, _ => x == y },
        (Val::Q(x, d), Val::Q(y, e)) => {
            let o = qcmp((x, d), (y, e))?;
            match op { Op::Lt => o.is_lt(), Op::Le => o.is_le(), _ => o.is_eq() }
        }
        (Val::B(x), Val::B(y)) => x == y,
        _ => return None,
    })
}

fn pinc(p: &mut Poly, m: Vec<u32>, c: (i128, i128)) -> Option<()> {
    let n = match p.get(&m) { Some(o) => qadd(*o, c)?, None => c };
    if n.0 == 0 { p.remove(&m); } else { p.insert(m, n); }
    Some(())
}
fn padd(mut p: Poly, q: &Poly, s: i128) -> Option<Poly> {
    for (m, c) in q { pinc(&mut p, m.clone(), (c.0 * s, c.1))?; }
    if p.len() > POLY_MAX { None } else { Some(p) }
}

impl Arena {
    pub fn new(mode: Mode) -> Arena {
        let mut a = Arena { mode, terms: vec![], iv: vec![], map: HashMap::new(), deg: vec![], polys: HashMap::new(), memo: vec![], epoch: 1 };
        a.mk(Op::CB(false), 0, 0, 0); // id 0
        a.mk(Op::CB(true), 0, 0, 0); // id 1
        a
    }
    pub fn get(&self, t: u32) -> Term { self.terms[t as usize] }
    fn mk(&mut self, op: Op, a: u32, b: u32, c: u32) -> u32 {
        let t = Term { op, a, b, c };
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let i = self.terms.len() as u32;
        let iv = self.interval(t);
        let d = |x: u32| self.deg[x as usize];
        let deg = match op {
            Op::VN(..) | Op::Ite | Op::Rem => 1,
            Op::Div => d(a).max(1),
            Op::Add | Op::Sub => d(a).max(d(b)),
            Op::Mul => d(a).saturating_add(d(b)),
            Op::Neg => d(a),
            _ => 0,
        };
        self.deg.push(deg);
        self.terms.push(t);
        self.iv.push(iv);
        self.map.insert(t, i);
        i
    }
    fn interval(&self, t: Term) -> Option<(i128, i128)> {
        let rng = self.mode.irange()?;
        let clip = |l: i128, h: i128| if l >= rng.0 && h <= rng.1 { Some((l, h)) } else { Some(rng) };
        let i = |x: u32| self.iv[x as usize];
        match t.op {
            Op::CI(v) => Some((v, v)),
            Op::VN(_, l, h) => Some((l as i128, h as i128)),
            Op::Add => { let (a, b) = (i(t.a)?, i(t.b)?); clip(a.0 + b.0, a.1 + b.1) }
            Op::Sub => { let (a, b) = (i(t.a)?, i(t.b)?); clip(a.0 - b.1, a.1 - b.0) }
            Op::Mul => {
                let (a, b) = (i(t.a)?, i(t.b)?);
                let p = [a.0.checked_mul(b.0), a.0.checked_mul(b.1), a.1.checked_mul(b.0), a.1.checked_mul(b.1)];
                if p.iter().any(|x| x.is_none()) { return Some(rng); }
                let lo = p.iter().map(|x| x.unwrap()).min().unwrap();
                let hi = p.iter().map(|x| x.unwrap()).max().unwrap();
                let lo = if t.a == t.b { lo.max(0) } else { lo };
                clip(lo, hi)
            }
            Op::Neg => { let a = i(t.a)?; clip(-a.1, -a.0) }
            Op::Div => {
                let a = i(t.a)?;
                match self.get(t.b).op { Op::CI(d) if d > 0 => Some((a.0 / d, a.1 / d)), _ => Some(rng) }
            }
            Op::Ite => { let (a, b) = (i(t.b)?, i(t.c)?); Some((a.0.min(b.0), a.1.max(b.1))) }
            Op::Rem => Some(rng),
            _ => None,
        }
    }
    pub fn cval(&self, t: u32) -> Option<Val> {
        match self.get(t).op {
            Op::CB(b) => Some(Val::B(b)),
            Op::CI(i) => Some(Val::I(i)),
            Op::CQ(n, d) => Some(Val::Q(n, d)),
            Op::CF(b) => Some(Val::F(f64::from_bits(b))),
            _ => None,
        }
    }
    pub fn konst(&mut self, v: Val) -> u32 {
        match v {
            Val::B(b) => b as u32,
            Val::I(i) => self.mk(Op::CI(i), 0, 0, 0),
            Val::Q(n, d) => self.mk(Op::CQ(n, d), 0, 0, 0),
            Val::F(f) => if f.is_nan() { self.mk(Op::Nan, 0, 0, 0) } else { self.mk(Op::CF(f.to_bits()), 0, 0, 0) },
        }
    }
    pub fn nan(&mut self) -> u32 { self.mk(Op::Nan, 0, 0, 0) }
    pub fn is_nan_const(&self, t: u32) -> bool { self.get(t).op == Op::Nan }
    pub fn var_n(&mut self, idx: u32, lo: i64, hi: i64) -> u32 { self.mk(Op::VN(idx, lo, hi), 0, 0, 0) }
    pub fn var_b(&mut self, idx: u32) -> u32 { self.mk(Op::VB(idx), 0, 0, 0) }
    fn is_fp(&self) -> bool { matches!(self.mode, Mode::Fp(..)) }

    pub fn bin(&mut self, op: Op, a: u32, b: u32) -> u32 {
        if self.is_nan_const(a) || self.is_nan_const(b) {
            return self.nan();
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if let Some(v) = arith(self.mode, op, x, y) {
                return self.konst(v);
            }
        }
        if !self.is_fp() {
            let zero = self.mode.of_int(0);
            let one = self.mode.of_int(1);
            let (ca, cb) = (self.cval(a), self.cval(b));
            match op {
                Op::Add => {
                    if ca == Some(zero) { return b; }
                    if cb == Some(zero) { return a; }
                }
                Op::Sub => {
                    if cb == Some(zero) { return a; }
                    if a == b { return self.konst(zero); }
                }
                Op::Mul => {
                    if ca == Some(zero) || cb == Some(zero) { return self.konst(zero); }
                    if ca == Some(one) { return b; }
                    if cb == Some(one) { return a; }
                }
                Op::Div => {
                    if cb == Some(one) { return a; }
                }
                _ => {}
            }
        }
        let (a, b) = if matches!(op, Op::Add | Op::Mul) && b < a { (b, a) } else { (a, b) };
        self.mk(op, a, b, 0)
    }
    pub fn neg(&mut self, a: u32) -> u32 {
        if self.is_nan_const(a) { return a; }
        match self.cval(a) {
            Some(Val::I(i)) => { let m = self.mode; let v = match m { Mode::Bv(w) => wrap(-i, w), _ => -i }; self.konst(Val::I(v)) }
            Some(Val::Q(n, d)) => self.konst(Val::Q(-n, d)),
            Some(Val::F(f)) => self.konst(Val::F(-f)),
            _ => self.mk(Op::Neg, a, 0, 0),
        }
    }
    pub fn cmp(&mut self, op: Op, a: u32, b: u32) -> u32 {
        if self.is_nan_const(a) || self.is_nan_const(b) {
            return 0;
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if let Some(v) = vcmp(op, x, y) {
                return v as u32;
            }
        }
        if a == b && !self.is_fp() {
            return (op != Op::Lt) as u32;
        }
        if let (Some((al, ah)), Some((bl, bh))) = (self.iv[a as usize], self.iv[b as usize]) {
            match op {
                Op::Lt => { if ah < bl { return 1; } if al >= bh { return 0; } }
                Op::Le => { if ah <= bl { return 1; } if al > bh { return 0; } }
                _ => { if ah < bl || bh < al { return 0; } }
            }
        }
        if matches!(self.mode, Mode::Int | Mode::Real) && (self.deg[a as usize] > 1 || self.deg[b as usize] > 1) {
            if let Some(r) = self.cmp_squares(op, a, b) { return r; }
            if let Some(r) = self.cmp_poly(op, a, b) { return r; }
        }
        let (a, b) = if op == Op::Eq && b < a { (b, a) } else { (a, b) };
        self.mk(op, a, b, 0)
    }
    /// t*t < u*u is |t| < |u| (exact numbers only)
    fn cmp_squares(&mut self, op: Op, a: u32, b: u32) -> Option<u32> {
        let (x, y) = (self.get(a), self.get(b));
        if x.op != Op::Mul || x.a != x.b || y.op != Op::Mul || y.a != y.b { return None; }
        let zero = self.mode.of_int(0);
        let zero = self.konst(zero);
        let mut abs = |t: u32| -> u32 { let c = self.cmp(Op::Lt, t, zero); let n = self.neg(t); self.ite(c, n, t) };
        let (p, q) = (abs(x.a), abs(y.a));
        Some(self.cmp(op, p, q))
    }
    fn poly(&mut self, t: u32) -> Option<std::rc::Rc<Poly>> {
        if let Some(p) = self.polys.get(&t) { return p.clone(); }
        let x = self.get(t);
        let r: Option<Poly> = match x.op {
            Op::CI(0) | Op::CQ(0, _) => Some(Poly::new()),
            Op::CI(v) => Some(Poly::from([(vec![], (v, 1))])),
            Op::CQ(n, d) => Some(Poly::from([(vec![], (n, d))])),
            Op::Add | Op::Sub => (|| {
                let (p, q) = (self.poly(x.a)?, self.poly(x.b)?);
                let s = if x.op == Op::Add { 1 } else { -1 };
                padd((*p).clone(), &q, s)
            })(),
            Op::Neg => (|| { let p = self.poly(x.a)?; padd(Poly::new(), &p, -1) })(),
            Op::Mul => (|| {
                let (p, q) = (self.poly(x.a)?, self.poly(x.b)?);
                if p.len() * q.len() > 4 * POLY_MAX { return None; }
                let mut r = Poly::new();
                for (m, c) in p.iter() {
                    for (n, d) in q.iter() {
                        let mut k = m.clone();
                        k.extend(n);
                        k.sort();
                        pinc(&mut r, k, qmul(*c, *d)?)?;
                    }
                }
                if r.len() > POLY_MAX { None } else { Some(r) }
            })(),
            Op::Div if self.mode == Mode::Real => (|| {
                let c = match self.get(x.b).op { Op::CQ(n, d) if n != 0 => qnorm(d, n)?, _ => return Some(Poly::from([(vec![t], (1, 1))])) };
                let p = self.poly(x.a)?;
                let mut r = Poly::new();
                for (m, k) in p.iter() { r.insert(m.clone(), qmul(*k, c)?); }
                Some(r)
            })(),
            _ => Some(Poly::from([(vec![t], (1, 1))])),
        };
        let r = r.map(std::rc::Rc::new);
        self.polys.insert(t, r.clone());
        r
    }
    /// Compares two polynomials by their difference, so that common (nonlinear) parts cancel.
    fn cmp_poly(&mut self, op: Op, a: u32, b: u32) -> Option<u32> {
        let (p, q) = (self.poly(a)?, self.poly(b)?);
        let d = padd((*p).clone(), &q, -1)?;
        let mut den = 1i128;
        for c in d.values() { den = (den / gcd(den, c.1)).checked_mul(c.1)?; }
        let mut cs: Vec<(Vec<u32>, i128)> = vec![];
        for (m, c) in d { cs.push((m, c.0.checked_mul(den / c.1)?)); }
        let g = cs.iter().fold(0, |g, c| gcd(g, c.1)).max(1);
        for c in cs.iter_mut() { c.1 /= g; }
        if op == Op::Eq && cs.last().map_or(false, |c| c.1 < 0) { for c in cs.iter_mut() { c.1 = -c.1; } }
        let mut side = |neg: bool| -> Option<u32> {
            let mut bound = 0i128;
            let zero = self.mode.of_int(0);
            let mut sum = self.konst(zero);
            for (m, c) in cs.iter().filter(|c| (c.1 < 0) == neg) {
                let c = c.abs();
                let k = match self.mode { Mode::Int => Val::I(c), _ => Val::Q(c, 1) };
                let mut t = self.konst(k);
                let mut bd = c;
                for &x in m.iter().rev() {
                    if let Some((l, h)) = self.iv[x as usize] { bd = bd.checked_mul(l.abs().max(h.abs()))?; }
                    t = self.bin(Op::Mul, x, t);
                }
                bound = bound.checked_add(bd)?;
                sum = self.bin(Op::Add, sum, t);
            }
            if self.mode == Mode::Int && bound > i64::MAX as i128 / 4 { return None; }
            Some(sum)
        };
        let (l, r) = (side(false)?, side(true)?);
        if (l, r) == (a, b) || (l, r) == (b, a) { return None; }
        if self.deg[l as usize] > 1 || self.deg[r as usize] > 1 {
            // still nonlinear: no further rewriting of the canonical form
            if let (Some(x), Some(y)) = (self.cval(l), self.cval(r)) { return vcmp(op, x, y).map(|v| v as u32); }
            if let (Some((al, ah)), Some((bl, bh))) = (self.iv[l as usize], self.iv[r as usize]) {
                match op {
                    Op::Lt => { if ah < bl { return Some(1); } if al >= bh { return Some(0); } }
                    Op::Le => { if ah <= bl { return Some(1); } if al > bh { return Some(0); } }
                    _ => { if ah < bl || bh < al { return Some(0); } }
                }
            }
            let (l, r) = if op == Op::Eq && r < l { (r, l) } else { (l, r) };
            return Some(self.mk(op, l, r, 0));
        }
        Some(self.cmp(op, l, r))
    }
    pub fn isnan(&mut self, a: u32) -> u32 {
        match self.get(a).op {
            Op::Nan => 1,
            Op::CF(_) | Op::CI(_) | Op::CQ(..) => 0,
            _ => if self.is_fp() { self.mk(Op::IsNan, a, 0, 0) } else { 0 },
        }
    }
    pub fn ovf(&mut self, op: Op, a: u32, b: u32) -> u32 {
        // may the exact result leave the representable range?
        let rng = match self.mode.irange() { Some(r) => r, None => return 0 };
        let (x, y) = match (self.iv[a as usize], self.iv[b as usize]) { (Some(x), Some(y)) => (x, y), _ => return 0 };
        let (lo, hi) = match op {
            Op::OvA => (x.0 + y.0, x.1 + y.1),
            Op::OvS => (x.0 - y.1, x.1 - y.0),
            _ => {
                let p = [x.0.saturating_mul(y.0), x.0.saturating_mul(y.1), x.1.saturating_mul(y.0), x.1.saturating_mul(y.1)];
                (*p.iter().min().unwrap(), *p.iter().max().unwrap())
            }
        };
        if lo >= rng.0 && hi <= rng.1 { return 0; }
        if hi < rng.0 || lo > rng.1 { return 1; }
        self.mk(op, a, b, 0)
    }
    pub fn not(&mut self, t: u32) -> u32 {
        match self.get(t).op {
            Op::CB(b) => !b as u32,
            Op::Not => self.get(t).a,
            Op::Lt if !self.is_fp() => { let x = self.get(t); self.cmp(Op::Le, x.b, x.a) }
            Op::Le if !self.is_fp() => { let x = self.get(t); self.cmp(Op::Lt, x.b, x.a) }
            _ => self.mk(Op::Not, t, 0, 0),
        }
    }
    pub fn and(&mut self, a: u32, b: u32) -> u32 {
        if a == 0 || b == 0 { return 0; }
        if a == 1 { return b; }
        if b == 1 || a == b { return a; }
        let (a, b) = if b < a { (b, a) } else { (a, b) };
        self.mk(Op::And, a, b, 0)
    }
    pub fn or(&mut self, a: u32, b: u32) -> u32 {
        if a == 1 || b == 1 { return 1; }
        if a == 0 { return b; }
        if b == 0 || a == b { return a; }
        let (a, b) = if b < a { (b, a) } else { (a, b) };
        self.mk(Op::Or, a, b, 0)
    }
    pub fn ite(&mut self, c: u32, a: u32, b: u32) -> u32 {
        if c == 1 || a == b { return a; }
        if c == 0 { return b; }
        self.mk(Op::Ite, c, a, b)
    }
    pub fn new_epoch(&mut self) {
        self.epoch += 1;
    }
    /// Evaluates under a model (values by variable index). None = not evaluable (missing/irrational/overflow).
    pub fn eval(&mut self, t: u32, model: &[Option<Val>]) -> Option<Val> {
        if self.memo.len() < self.terms.len() {
            self.memo.resize(self.terms.len(), (0, None));
        }
        if self.memo[t as usize].0 == self.epoch {
            return self.memo[t as usize].1;
        }
        let x = self.get(t);
        let r = match x.op {
            Op::CB(_) | Op::CI(_) | Op::CQ(..) | Op::CF(_) => self.cval(t),
            Op::Nan => if self.is_fp() { Some(Val::F(f64::NAN)) } else { None },
            Op::VB(i) | Op::VN(i, _, _) => model.get(i as usize).copied().flatten(),
            Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Rem => {
                let a = self.eval(x.a, model);
                let b = self.eval(x.b, model);
                match (a, b) { (Some(a), Some(b)) => arith(self.mode, x.op, a, b), _ => None }
            }
            Op::Neg => match self.eval(x.a, model) {
                Some(Val::I(i)) => Some(Val::I(match self.mode { Mode::Bv(w) => wrap(-i, w), _ => -i })),
                Some(Val::Q(n, d)) => Some(Val::Q(-n, d)),
                Some(Val::F(f)) => Some(Val::F(-f)),
                _ => None,
            },
            Op::Ite => match self.eval(x.a, model) {
                Some(Val::B(true)) => self.eval(x.b, model),
                Some(Val::B(false)) => self.eval(x.c, model),
                _ => None,
            },
            Op::Lt | Op::Le | Op::Eq => {
                let a = self.eval(x.a, model);
                let b = self.eval(x.b, model);
                match (a, b) { (Some(a), Some(b)) => vcmp(x.op, a, b).map(Val::B), _ => None }
            }
            Op::Not => match self.eval(x.a, model) { Some(Val::B(b)) => Some(Val::B(!b)), _ => None },
            Op::And => match (self.eval(x.a, model), self.eval(x.b, model)) {
                (Some(Val::B(false)), _) | (_, Some(Val::B(false))) => Some(Val::B(false)),
                (Some(Val::B(true)), Some(Val::B(true))) => Some(Val::B(true)),
                _ => None,
            },
            Op::Or => match (self.eval(x.a, model), self.eval(x.b, model)) {
                (Some(Val::B(true)), _) | (_, Some(Val::B(true))) => Some(Val::B(true)),
                (Some(Val::B(false)), Some(Val::B(false))) => Some(Val::B(false)),
                _ => None,
            },
            Op::OvA | Op::OvS | Op::OvM => {
                let a = self.eval(x.a, model);
                let b = self.eval(x.b, model);
                let rng = self.mode.irange().unwrap();
                match (a, b) {
                    (Some(Val::I(a)), Some(Val::I(b))) => {
                        let r = match x.op { Op::OvA => Some(a + b), Op::OvS => Some(a - b), _ => a.checked_mul(b) };
                        Some(Val::B(r.map_or(true, |r| r < rng.0 || r > rng.1)))
                    }
                    _ => None,
                }
            }
            Op::IsNan => match self.eval(x.a, model) { Some(Val::F(f)) => Some(Val::B(f.is_nan())), _ => None },
        };
        self.memo[t as usize] = (self.epoch, r);
        r
    }
    pub fn show(&self, t: u32) -> String {
        let x = self.get(t);
        match x.op {
            Op::CB(b) => b.to_string(),
            Op::CI(i) => i.to_string(),
            Op::CQ(n, d) => format!("{}/{}", n, d),
            Op::CF(f) => format!("{:?}", f64::from_bits(f)),
            Op::Nan => "NaN".into(),
            Op::VB(i) => format!("b{}", i),
            Op::VN(i, _, _) => format!("x{}", i),
            Op::Not | Op::Neg | Op::IsNan => format!("({:?} {})", x.op, self.show(x.a)),
            Op::Ite => format!("(ite {} {} {})", self.show(x.a), self.show(x.b), self.show(x.c)),
            _ => format!("({:?} {} {})", x.op, self.show(x.a), self.show(x.b)),
        }
    }
}
