//! Minimal hand-written binding to libz3 (C API).
#![allow(non_snake_case, non_camel_case_types, dead_code)]
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};

macro_rules! ptrs { ($($n:ident),*) => { $( pub type $n = *mut c_void; )* } }
ptrs!(Z3_config, Z3_context, Z3_sort, Z3_ast, Z3_solver, Z3_model, Z3_params, Z3_symbol, Z3_tactic);

extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}
macro_rules! table { ($($n:ident: fn($($t:ty),*) $(-> $r:ty)?;)*) => {
    /// One version of the solver, loaded at run time (two versions are used side by side).
    pub struct Lib { $( $n: unsafe extern "C" fn($($t),*) $(-> $r)? ),* }
    impl Lib {
        fn load(file: &str) -> Option<Lib> {
            unsafe {
                let f = CString::new(file).unwrap();
                // now, local, deep-bound
                let h = dlopen(f.as_ptr(), 2 | 8);
                if h.is_null() { return None; }
                Some(Lib { $( $n: { let n = CString::new(stringify!($n)).unwrap(); let p = dlsym(h, n.as_ptr()); if p.is_null() { return None; } std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($t),*) $(-> $r)?>(p) } ),* })
            }
        }
    }
} }
table! {
    Z3_mk_config: fn() -> Z3_config;
    Z3_del_config: fn(Z3_config);
    Z3_set_param_value: fn(Z3_config, *const c_char, *const c_char);
    Z3_mk_context_rc: fn(Z3_config) -> Z3_context;
    Z3_del_context: fn(Z3_context);
    Z3_inc_ref: fn(Z3_context, Z3_ast);
    Z3_set_error_handler: fn(Z3_context, Option<extern "C" fn(Z3_context, c_int)>);
    Z3_mk_string_symbol: fn(Z3_context, *const c_char) -> Z3_symbol;
    Z3_mk_bool_sort: fn(Z3_context) -> Z3_sort;
    Z3_mk_int_sort: fn(Z3_context) -> Z3_sort;
    Z3_mk_real_sort: fn(Z3_context) -> Z3_sort;
    Z3_mk_bv_sort: fn(Z3_context, c_uint) -> Z3_sort;
    Z3_mk_fpa_sort: fn(Z3_context, c_uint, c_uint) -> Z3_sort;
    Z3_mk_const: fn(Z3_context, Z3_symbol, Z3_sort) -> Z3_ast;
    Z3_mk_numeral: fn(Z3_context, *const c_char, Z3_sort) -> Z3_ast;
    Z3_mk_true: fn(Z3_context) -> Z3_ast;
    Z3_mk_false: fn(Z3_context) -> Z3_ast;
    Z3_mk_not: fn(Z3_context, Z3_ast) -> Z3_ast;
    Z3_mk_and: fn(Z3_context, c_uint, *const Z3_ast) -> Z3_ast;
    Z3_mk_or: fn(Z3_context, c_uint, *const Z3_ast) -> Z3_ast;
    Z3_mk_eq: fn(Z3_context, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_ite: fn(Z3_context, Z3_ast, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_add: fn(Z3_context, c_uint, *const Z3_ast) -> Z3_ast;
    Z3_mk_sub: fn(Z3_context, c_uint, *const Z3_ast) -> Z3_ast;
    Z3_mk_mul: fn(Z3_context, c_uint, *const Z3_ast) -> Z3_ast;
    Z3_mk_div: fn(Z3_context, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_lt: fn(Z3_context, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_le: fn(Z3_context, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_bvadd: fn(Z3_context, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_bvsub: fn(Z3_context, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_bvmul: fn(Z3_context, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_bvsdiv: fn(Z3_context, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_bvsrem: fn(Z3_context, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_bvneg: fn(Z3_context, Z3_ast) -> Z3_ast;
    Z3_mk_bvslt: fn(Z3_context, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_bvsle: fn(Z3_context, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_sign_ext: fn(Z3_context, c_uint, Z3_ast) -> Z3_ast;
    Z3_mk_fpa_round_nearest_ties_to_even: fn(Z3_context) -> Z3_ast;
    Z3_mk_fpa_to_fp_bv: fn(Z3_context, Z3_ast, Z3_sort) -> Z3_ast;
    Z3_mk_fpa_add: fn(Z3_context, Z3_ast, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_fpa_sub: fn(Z3_context, Z3_ast, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_fpa_mul: fn(Z3_context, Z3_ast, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_fpa_div: fn(Z3_context, Z3_ast, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_fpa_neg: fn(Z3_context, Z3_ast) -> Z3_ast;
    Z3_mk_fpa_lt: fn(Z3_context, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_fpa_leq: fn(Z3_context, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_fpa_eq: fn(Z3_context, Z3_ast, Z3_ast) -> Z3_ast;
    Z3_mk_fpa_is_nan: fn(Z3_context, Z3_ast) -> Z3_ast;
    Z3_mk_simple_solver: fn(Z3_context) -> Z3_solver;
    Z3_mk_solver: fn(Z3_context) -> Z3_solver;
    Z3_mk_tactic: fn(Z3_context, *const c_char) -> Z3_tactic;
    Z3_tactic_inc_ref: fn(Z3_context, Z3_tactic);
    Z3_mk_solver_from_tactic: fn(Z3_context, Z3_tactic) -> Z3_solver;
    Z3_solver_inc_ref: fn(Z3_context, Z3_solver);
    Z3_solver_dec_ref: fn(Z3_context, Z3_solver);
    Z3_solver_push: fn(Z3_context, Z3_solver);
    Z3_solver_pop: fn(Z3_context, Z3_solver, c_uint);
    Z3_solver_assert: fn(Z3_context, Z3_solver, Z3_ast);
    Z3_solver_check: fn(Z3_context, Z3_solver) -> c_int;
    Z3_solver_get_model: fn(Z3_context, Z3_solver) -> Z3_model;
    Z3_solver_set_params: fn(Z3_context, Z3_solver, Z3_params);
    Z3_solver_to_string: fn(Z3_context, Z3_solver) -> *const c_char;
    Z3_mk_params: fn(Z3_context) -> Z3_params;
    Z3_params_inc_ref: fn(Z3_context, Z3_params);
    Z3_params_set_uint: fn(Z3_context, Z3_params, Z3_symbol, c_uint);
    Z3_model_inc_ref: fn(Z3_context, Z3_model);
    Z3_model_dec_ref: fn(Z3_context, Z3_model);
    Z3_model_eval: fn(Z3_context, Z3_model, Z3_ast, bool, *mut Z3_ast) -> bool;
    Z3_get_numeral_string: fn(Z3_context, Z3_ast) -> *const c_char;
    Z3_is_numeral_ast: fn(Z3_context, Z3_ast) -> bool;
    Z3_is_algebraic_number: fn(Z3_context, Z3_ast) -> bool;
    Z3_get_algebraic_number_lower: fn(Z3_context, Z3_ast, c_uint) -> Z3_ast;
    Z3_get_bool_value: fn(Z3_context, Z3_ast) -> c_int;
    Z3_get_version: fn(*mut c_uint, *mut c_uint, *mut c_uint, *mut c_uint);
    Z3_get_error_code: fn(Z3_context) -> c_int;
    Z3_solver_from_string: fn(Z3_context, Z3_solver, *const c_char);
    Z3_global_param_set: fn(*const c_char, *const c_char);
}
/// The solver versions at hand; 0 is the system library, 1 a newer one if installed.
pub fn libs() -> &'static [Lib] {
    static L: std::sync::OnceLock<Vec<Lib>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let mut v: Vec<Lib> = ["libz3.so.4", "libz3.so"].iter().find_map(|f| Lib::load(f)).into_iter().collect();
        let new = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so";
        let found = std::iter::once(new.to_string()).chain((8..20).map(|m| new.replace("3.12", &format!("3.{}", m)))).find(|f| std::path::Path::new(f).exists());
        if let Some(l) = found.and_then(|f| Lib::load(&f)) { v.push(l); }
        assert!(!v.is_empty(), "no libz3 found");
        v
    })
}

extern "C" fn on_error(_c: Z3_context, code: c_int) {
    eprintln!("z3 error code {}", code);
    std::process::exit(3);
}
extern "C" fn on_error_quiet(_c: Z3_context, _code: c_int) {}

pub fn version() -> String {
    libs().iter().map(|l| {
        let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
        unsafe { (l.Z3_get_version)(&mut a, &mut b, &mut c, &mut d) };
        format!("{}.{}.{}", a, b, c)
    }).collect::<Vec<_>>().join(" and ")
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Ctx {
    l: &'static Lib,
    pub c: Z3_context,
    rm: Option<Z3_ast>,
}
pub type Ast = Z3_ast;
pub type Sort = Z3_sort;

impl Ctx {
    /// with the given version of the solver, or the only one
    pub fn new(lib: usize) -> Ctx {
        let l = &libs()[lib.min(libs().len() - 1)];
        unsafe {
            let cfg = (l.Z3_mk_config)();
            let c = (l.Z3_mk_context_rc)(cfg);
            (l.Z3_del_config)(cfg);
            (l.Z3_set_error_handler)(c, Some(on_error));
            Ctx { l, c, rm: None }
        }
    }
    fn k(&self, a: Z3_ast) -> Ast {
        unsafe { (self.l.Z3_inc_ref)(self.c, a) };
        a
    }
    fn sym(&self, s: &str) -> Z3_symbol {
        let s = CString::new(s).unwrap();
        unsafe { (self.l.Z3_mk_string_symbol)(self.c, s.as_ptr()) }
    }
    pub fn ks(&self, s: Sort) -> Sort {
        unsafe { (self.l.Z3_inc_ref)(self.c, s) };
        s
    }
    pub fn bool_sort(&self) -> Sort { unsafe { self.ks((self.l.Z3_mk_bool_sort)(self.c)) } }
    pub fn int_sort(&self) -> Sort { unsafe { self.ks((self.l.Z3_mk_int_sort)(self.c)) } }
    pub fn real_sort(&self) -> Sort { unsafe { self.ks((self.l.Z3_mk_real_sort)(self.c)) } }
    pub fn bv_sort(&self, w: u32) -> Sort { unsafe { self.ks((self.l.Z3_mk_bv_sort)(self.c, w)) } }
    pub fn fp_sort(&self, e: u32, s: u32) -> Sort { unsafe { self.ks((self.l.Z3_mk_fpa_sort)(self.c, e, s)) } }
    pub fn mk_const(&self, n: &str, s: Sort) -> Ast { unsafe { self.k((self.l.Z3_mk_const)(self.c, self.sym(n), s)) } }
    pub fn numeral(&self, v: &str, s: Sort) -> Ast {
        let v = CString::new(v).unwrap();
        unsafe { self.k((self.l.Z3_mk_numeral)(self.c, v.as_ptr(), s)) }
    }
    pub fn bool_val(&self, b: bool) -> Ast { unsafe { self.k(if b { (self.l.Z3_mk_true)(self.c) } else { (self.l.Z3_mk_false)(self.c) }) } }
    pub fn not(&self, a: Ast) -> Ast { unsafe { self.k((self.l.Z3_mk_not)(self.c, a)) } }
    pub fn and(&self, a: &[Ast]) -> Ast { unsafe { self.k((self.l.Z3_mk_and)(self.c, a.len() as u32, a.as_ptr())) } }
    pub fn or(&self, a: &[Ast]) -> Ast { unsafe { self.k((self.l.Z3_mk_or)(self.c, a.len() as u32, a.as_ptr())) } }
    pub fn eq(&self, a: Ast, b: Ast) -> Ast { unsafe { self.k((self.l.Z3_mk_eq)(self.c, a, b)) } }
    pub fn ite(&self, i: Ast, a: Ast, b: Ast) -> Ast { unsafe { self.k((self.l.Z3_mk_ite)(self.c, i, a, b)) } }
    pub fn add(&self, a: Ast, b: Ast) -> Ast { let v = [a, b]; unsafe { self.k((self.l.Z3_mk_add)(self.c, 2, v.as_ptr())) } }
    pub fn sub(&self, a: Ast, b: Ast) -> Ast { let v = [a, b]; unsafe { self.k((self.l.Z3_mk_sub)(self.c, 2, v.as_ptr())) } }
    pub fn mul(&self, a: Ast, b: Ast) -> Ast { let v = [a, b]; unsafe { self.k((self.l.Z3_mk_mul)(self.c, 2, v.as_ptr())) } }
    pub fn div(&self, a: Ast, b: Ast) -> Ast { unsafe { self.k((self.l.Z3_mk_div)(self.c, a, b)) } }
    pub fn lt(&self, a: Ast, b: Ast) -> Ast { unsafe { self.k((self.l.Z3_mk_lt)(self.c, a, b)) } }
    pub fn le(&self, a: Ast, b: Ast) -> Ast { unsafe { self.k((self.l.Z3_mk_le)(self.c, a, b)) } }
    pub fn bv2(&self, op: char, a: Ast, b: Ast) -> Ast {
        unsafe {
            self.k(match op {
                '+' => (self.l.Z3_mk_bvadd)(self.c, a, b),
                '-' => (self.l.Z3_mk_bvsub)(self.c, a, b),
                '*' => (self.l.Z3_mk_bvmul)(self.c, a, b),
                '/' => (self.l.Z3_mk_bvsdiv)(self.c, a, b),
                '%' => (self.l.Z3_mk_bvsrem)(self.c, a, b),
                '<' => (self.l.Z3_mk_bvslt)(self.c, a, b),
                'l' => (self.l.Z3_mk_bvsle)(self.c, a, b),
                _ => unreachable!(),
            })
        }
    }
    pub fn bvneg(&self, a: Ast) -> Ast { unsafe { self.k((self.l.Z3_mk_bvneg)(self.c, a)) } }
    pub fn sext(&self, n: u32, a: Ast) -> Ast { unsafe { self.k((self.l.Z3_mk_sign_ext)(self.c, n, a)) } }
    pub fn rm(&mut self) -> Ast {
        if self.rm.is_none() {
            self.rm = Some(unsafe { self.k((self.l.Z3_mk_fpa_round_nearest_ties_to_even)(self.c)) });
        }
        self.rm.unwrap()
    }
    pub fn to_fp_bv(&self, bv: Ast, s: Sort) -> Ast { unsafe { self.k((self.l.Z3_mk_fpa_to_fp_bv)(self.c, bv, s)) } }
    pub fn fp2(&mut self, op: char, a: Ast, b: Ast) -> Ast {
        let r = self.rm();
        unsafe {
            self.k(match op {
                '+' => (self.l.Z3_mk_fpa_add)(self.c, r, a, b),
                '-' => (self.l.Z3_mk_fpa_sub)(self.c, r, a, b),
                '*' => (self.l.Z3_mk_fpa_mul)(self.c, r, a, b),
                '/' => (self.l.Z3_mk_fpa_div)(self.c, r, a, b),
                '<' => (self.l.Z3_mk_fpa_lt)(self.c, a, b),
                'l' => (self.l.Z3_mk_fpa_leq)(self.c, a, b),
                '=' => (self.l.Z3_mk_fpa_eq)(self.c, a, b),
                _ => unreachable!(),
            })
        }
    }
    pub fn fpneg(&self, a: Ast) -> Ast { unsafe { self.k((self.l.Z3_mk_fpa_neg)(self.c, a)) } }
    pub fn fpisnan(&self, a: Ast) -> Ast { unsafe { self.k((self.l.Z3_mk_fpa_is_nan)(self.c, a)) } }
}
impl Drop for Ctx {
    fn drop(&mut self) {
        unsafe { (self.l.Z3_del_context)(self.c) }
    }
}

pub struct Solver {
    l: &'static Lib,
    c: Z3_context,
    s: Z3_solver,
}
impl Solver {
    /// `tactic`: None = incremental SMT core.
    pub fn new(ctx: &Ctx, tactic: Option<&str>, timeout_ms: u32, seed: u32) -> Solver {
        unsafe {
            let s = match tactic {
                None => (ctx.l.Z3_mk_simple_solver)(ctx.c),
                Some("default") => (ctx.l.Z3_mk_solver)(ctx.c),
                Some(t) => {
                    let n = CString::new(t).unwrap();
                    let t = (ctx.l.Z3_mk_tactic)(ctx.c, n.as_ptr());
                    (ctx.l.Z3_tactic_inc_ref)(ctx.c, t);
                    (ctx.l.Z3_mk_solver_from_tactic)(ctx.c, t)
                }
            };
            (ctx.l.Z3_solver_inc_ref)(ctx.c, s);
            let p = (ctx.l.Z3_mk_params)(ctx.c);
            (ctx.l.Z3_params_inc_ref)(ctx.c, p);
            (ctx.l.Z3_params_set_uint)(ctx.c, p, ctx.sym("timeout"), timeout_ms);
            if tactic.is_none() {
                (ctx.l.Z3_params_set_uint)(ctx.c, p, ctx.sym("random_seed"), seed);
            }
            (ctx.l.Z3_solver_set_params)(ctx.c, s, p);
            Solver { l: ctx.l, c: ctx.c, s }
        }
    }
    pub fn push(&self) { unsafe { (self.l.Z3_solver_push)(self.c, self.s) } }
    pub fn pop(&self, n: u32) { if n > 0 { unsafe { (self.l.Z3_solver_pop)(self.c, self.s, n) } } }
    pub fn assert(&self, a: Ast) { unsafe { (self.l.Z3_solver_assert)(self.c, self.s, a) } }
    pub fn check(&self) -> Sat {
        match unsafe { (self.l.Z3_solver_check)(self.c, self.s) } {
            1 => Sat::Sat,
            -1 => Sat::Unsat,
            _ => Sat::Unknown,
        }
    }
    /// asserts a script
    pub fn read(&self, txt: &str) { let t = CString::new(txt).unwrap(); unsafe { (self.l.Z3_solver_from_string)(self.c, self.s, t.as_ptr()) } }
    pub fn to_smt2(&self) -> String {
        unsafe { CStr::from_ptr((self.l.Z3_solver_to_string)(self.c, self.s)).to_string_lossy().into_owned() }
    }
    /// Values of constants under the current model: numerals as decimal strings, booleans as "true"/"false";
    /// an irrational algebraic value gives None.
    pub fn values(&self, asts: &[Ast]) -> Vec<Option<String>> {
        unsafe {
            let m = (self.l.Z3_solver_get_model)(self.c, self.s);
            (self.l.Z3_model_inc_ref)(self.c, m);
            (self.l.Z3_set_error_handler)(self.c, Some(on_error_quiet));
            let mut out = Vec::with_capacity(asts.len());
            for &a in asts {
                let mut v: Z3_ast = std::ptr::null_mut();
                if !(self.l.Z3_model_eval)(self.c, m, a, true, &mut v) {
                    out.push(None);
                    continue;
                }
                (self.l.Z3_inc_ref)(self.c, v);
                let b = (self.l.Z3_get_bool_value)(self.c, v);
                if b == 1 || b == -1 {
                    out.push(Some(if b == 1 { "true".into() } else { "false".into() }));
                } else if (self.l.Z3_is_algebraic_number)(self.c, v) {
                    out.push(None);
                } else if (self.l.Z3_is_numeral_ast)(self.c, v) {
                    out.push(Some(CStr::from_ptr((self.l.Z3_get_numeral_string)(self.c, v)).to_string_lossy().into_owned()));
                } else {
                    out.push(None);
                }
            }
            (self.l.Z3_set_error_handler)(self.c, Some(on_error));
            (self.l.Z3_model_dec_ref)(self.c, m);
            out
        }
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        unsafe { (self.l.Z3_solver_dec_ref)(self.c, self.s) }
    }
}
