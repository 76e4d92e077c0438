#!/usr/bin/env python3
"""X02: invalid tree parameters are always rejected, and only they.

The tree parameters are compile-time constants, so they cannot be made symbolic in compiled code. rustc's MIR of the
real crate is generic in them, however: the check has rustc emit the MIR of /repo's current source and executes the
tree-creating functions symbolically (every path through their MIR and that of the crate functions they call), with
MAX_SIZE, MIN_SIZE, REINSERTION_COUNT and the point dimension as free 64-bit variables. Z3 then shows for every path that returns
that the parameters on it are valid, and for every path that panics that they are not. Counterexamples, and one model
of every path, are replayed by a Rust program compiled against /repo with exactly these constants.
"""
import concurrent.futures
import glob, json, os, re, shutil, subprocess, sys, time, tempfile
import z3

ROOT = os.environ.get("VERIF_ROOT", "/verif")
TGT = os.path.join(ROOT, ".build", "mir")
T0 = time.time()
STAT = dict(queries=0, solver=0.0, paths=0, steps=0, havocs=0, unknown=0)
W = 64

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

# ---------------------------------------------------------------- MIR text
class Fn:
    def __init__(s, name, params, ret): s.name, s.params, s.ret, s.types, s.blocks = name, params, ret, {}, {}

def split_top(s, sep=","):
    out, d, cur, q = [], 0, "", False
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            cur += c
            if c == "\\": cur += s[i + 1]; i += 1
            elif c == '"': q = False
        elif c == '"': q = True; cur += c
        elif c in "([{": d += 1; cur += c
        elif c == "<": d += 1; cur += c
        elif c == ">" and not cur.endswith("-") and not cur.endswith("="): d -= 1; cur += c
        elif c in ")]}": d -= 1; cur += c
        elif c == sep and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
        i += 1
    if cur.strip(): out.append(cur.strip())
    return out

def parse(text):
    fns, cur, blk = {}, None, None
    for line in text.split("\n"):
        if cur is None:
            m = re.match(r"^fn (.*?)\((.*)\) -> (.*) \{$", line)
            if m:
                # the parameter list starts at the last "(_1:" or "()" of the header
                h = line[3:]
                k = h.find("(_1:")
                if k < 0: k = h.rfind("() -> ")
                name = h[:k]
                rest = h[k:]
                d = 0
                for j, c in enumerate(rest):
                    d += c == "("; d -= c == ")"
                    if d == 0: break
                ps = [p.split(":", 1) for p in split_top(rest[1:j])]
                cur = Fn(name, [(a.strip(), b.strip()) for a, b in ps], rest[j + 1:].strip()[3:-2].strip())
                for a, b in cur.params: cur.types[a] = b
            else:
                m = re.match(r"^const (.*?): (\S+) = \{$", line)
                if m: cur = Fn("const " + m.group(1), [], m.group(2))
            continue
        if line == "}":
            fns.setdefault(cur.name, []).append(cur); cur = blk = None; continue
        m = re.match(r"^\s+let (?:mut )?(_\d+): (.*);$", line)
        if m and blk is None: cur.types[m.group(1)] = m.group(2); continue
        m = re.match(r"^    (bb\d+)( \(cleanup\))?: \{$", line)
        if m: blk = m.group(1); cur.blocks[blk] = []; continue
        if line == "    }": blk = None; continue
        if blk is not None and line.strip(): cur.blocks[blk].append(line.strip().rstrip(";"))
    return fns

def base(path):
    """last segment of a path without generic arguments"""
    s, d = "", 0
    for i, c in enumerate(path):
        if c == "<": d += 1
        elif c == ">" and path[i - 1] not in "-=": d -= 1
        elif d == 0: s += c
    segs = [x for x in s.replace(" ", "").split("::") if x]
    return segs[-1] if segs else ""

# ---------------------------------------------------------------- values
class Opaque:
    pass
class Agg:
    """fields; discr is a value for enums (or None)"""
    def __init__(s, f, discr=None): s.f, s.discr = dict(f), discr
    def copy(s): return Agg({k: (v.copy() if isinstance(v, Agg) else v) for k, v in s.f.items()}, s.discr)
class Ref:
    def __init__(s, env, place): s.env, s.place = env, place

INT = {"usize": None, "u64": 64, "u32": 32, "u16": 16, "u8": 8, "isize": None, "i64": 64, "i32": 32, "i16": 16, "i8": 8, "u128": 128, "i128": 128}
def width(t): return W if INT[t] is None else INT[t]
def signed(t): return t.startswith("i")

PARAMS = {}
def param(n):
    return PARAMS[(n, W)] if (n, W) in PARAMS else PARAMS.setdefault((n, W), z3.BitVec(n, W))
NAMES = ["MAX_SIZE", "MIN_SIZE", "REINSERTION_COUNT", "DIMENSIONS"]

class Path:
    """state of one path: frames as list of environments"""
    def __init__(s): s.pc, s.taint = [], False
class Stop(Exception): pass
class TooMany(Exception): pass

class Exec:
    """Explores the paths of one entry function by re-execution with a decision prefix."""
    def __init__(s, fns, limit=400):
        s.fns, s.limit = fns, limit
        s.byname = {}
        for n, l in fns.items():
            for f in l: s.byname.setdefault(base(n), []).append(f)
        s.fresh = 0
        s.used = set()
    def run(s, f):
        out, todo = [], [[]]
        while todo:
            if len(out) > s.limit: return out, len(todo)
            s.prefix, s.pos, s.pc, s.taint, s.fresh, s.steps = todo.pop(), 0, [], set(), 0, 0
            s.todo, s.done, s.where = todo, [], None
            try:
                s.call(f, [Opaque() for _ in f.params], 0)
                res = "return"
            except Stop as e: res = str(e)
            STAT["paths"] += 1
            out.append((res, list(s.pc), bool(s.tainted), s.where))
        return out, 0
    tainted = property(lambda s: len(s.taint) > 0)
    # --- decisions
    def sat(s, extra):
        t = time.time()
        so = z3.Solver(); so.set("timeout", 20000); so.add(*s.pc); so.add(*extra)
        r = so.check()
        STAT["queries"] += 1; STAT["solver"] += time.time() - t
        if r == z3.unknown: STAT["unknown"] += 1
        return r != z3.unsat
    def decide(s, options):
        """options: list of (condition, result); takes one feasible, queues the others"""
        if s.pos < len(s.prefix):
            k = s.prefix[s.pos]; s.pos += 1
        else:
            ok = [i for i, (c, _) in enumerate(options) if z3.is_true(z3.simplify(c)) or (not z3.is_false(z3.simplify(c)) and s.sat([c]))]
            if not ok: raise Stop("infeasible")
            for j in ok[1:]: s.todo.append(s.done + [j])
            k = ok[0]
            s.pos += 1; s.prefix = s.done + [k]
        s.done.append(k)
        c, r = options[k]
        c = z3.simplify(c)
        if not z3.is_true(c):
            s.pc.append(c)
            s.taint |= {str(v) for v in vars_of(c) if str(v).startswith("h!")}
        return r
    def havoc(s, t):
        s.fresh += 1; STAT["havocs"] += 1
        t = t.strip()
        if t == "bool": return z3.Bool(f"h!{s.fresh}")
        if t in INT: return z3.BitVec(f"h!{s.fresh}", width(t))
        if t == "()": return Agg({})
        return Opaque()
    # --- places
    def parse_place(s, p):
        """-> (local, [projections])"""
        p = p.strip()
        while True:
            if re.fullmatch(r"_\d+", p): return p, []
            if p.startswith("(") and close(p) == len(p) - 1:
                q = p[1:-1].strip()
                if q.startswith("*"):
                    l, pr = s.parse_place(q[1:]); return l, pr + [("*",)]
                m = re.match(r"^(.*) as (\w+)$", q)
                if m and balanced(m.group(1)):
                    l, pr = s.parse_place(m.group(1)); return l, pr + [("as", m.group(2))]
                # (place.N: type)
                k = field_split(q)
                if k:
                    l, pr = s.parse_place(k[0]); return l, pr + [("f", k[1], k[2])]
                p = q; continue
            m = re.match(r"^(.*)\[(.*)\]$", p)
            if m: l, pr = s.parse_place(m.group(1)); return l, pr + [("i", m.group(2))]
            if p.startswith("*"): l, pr = s.parse_place(p[1:]); return l, pr + [("*",)]
            raise ValueError("place " + p)
    def load(s, env, place, ty):
        l, pr = place
        v = env.get(l)
        if v is None: v = Opaque()
        for i, x in enumerate(pr):
            if x[0] == "*":
                v = s.load(v.env, v.place, "?") if isinstance(v, Ref) else Opaque()
            elif x[0] == "as": pass
            elif x[0] == "f":
                if isinstance(v, Agg) and x[1] in v.f: v = v.f[x[1]]
                else: v = s.havoc(x[2])
            else: v = Opaque()
        if isinstance(v, Opaque) and ty in list(INT) + ["bool"]:
            v = s.havoc(ty)
            if not pr: env[l] = v
        return v
    def store(s, env, place, v):
        l, pr = place
        if not pr: env[l] = v; return
        # walk
        cur_env, cur = env, l
        v0 = env.get(l)
        k = 0
        while k < len(pr) and pr[k][0] == "*":
            if not isinstance(v0, Ref): return
            return s.store(v0.env, (v0.place[0], v0.place[1] + pr[k + 1:]), v)
        if not isinstance(v0, Agg): v0 = Agg({}); env[l] = v0
        for j, x in enumerate(pr):
            last = j == len(pr) - 1
            if x[0] == "as": continue
            if x[0] == "f":
                if last: v0.f[x[1]] = v; return
                n = v0.f.get(x[1])
                if isinstance(n, Ref) and pr[j + 1][0] == "*": return s.store(n.env, (n.place[0], n.place[1] + pr[j + 2:]), v)
                if not isinstance(n, Agg): n = Agg({}); v0.f[x[1]] = n
                v0 = n
            else: return
    # --- operands and rvalues
    def const(s, txt):
        t = txt.strip()
        if t in ("true", "false"): return z3.BoolVal(t == "true")
        m = re.match(r"^(-?[\d_]+)_(\w+)$", t)
        if m and m.group(2) in INT: return z3.BitVecVal(int(m.group(1).replace("_", "")), width(m.group(2)))
        m = re.match(r"^<?(?:core::num::)?(?:<impl )?(usize|u64|u32)>?::MAX$", t.replace("core::primitive::", ""))
        if m: return z3.BitVecVal(2 ** width(m.group(1)) - 1, width(m.group(1)))
        n = base_const(t)
        if n in NAMES:
            own = re.match(r"^<(.*) as ", t)
            g = own.group(1) if own else ""
            if "DefaultParams" in g:
                for name, l in s.fns.items():
                    if name.startswith("const ") and "params.rs" in name and name.endswith("::" + n): return s.const_fn(l[0])
            return param(n)
        if t == "()" : return Agg({})
        # other constants of the crate
        for f in s.byname.get(base_const(t), []):
            if f.name.startswith("const ") and f.ret in list(INT) + ["bool"]: return s.const_fn(f)
        for name, l in s.fns.items():
            if name.startswith("const ") and base(name[6:]) == base_const(t) and l[0].ret in list(INT) + ["bool"]: return s.const_fn(l[0])
        m = re.match(r"^core::option::Option::<.*>::None$|^Option::<.*>::None$", t)
        if m: return Agg({}, z3.BitVecVal(0, W))
        return Opaque()
    def const_fn(s, f):
        return s.call(f, [], 1)
    def operand(s, env, txt, fn):
        t = txt.strip()
        m = re.match(r"^(?:no_retag )?(copy|move) (.*)$", t)
        if m:
            p = s.parse_place(m.group(2))
            v = s.load(env, p, s.type_of(fn, p))
            return v.copy() if isinstance(v, Agg) else v
        if t.startswith("const "): return s.const(t[6:])
        return Opaque()
    def type_of(s, fn, p):
        l, pr = p
        for x in reversed(pr):
            if x[0] == "f": return x[2].strip()
            if x[0] == "*":
                t = fn.types.get(l, "?")
                for y in pr:
                    if y[0] == "f": t = y[2]
                    elif y[0] == "*": t = re.sub(r"^&('\w+ )?(mut )?", "", t.strip())
                return t.strip()
            return "?"
        return fn.types.get(l, "?").strip()
    def sign_of(s, fn, a):
        m = re.match(r"^(?:no_retag )?(?:copy|move) (.*)$", a.strip())
        if m: return signed(s.type_of(fn, s.parse_place(m.group(1))))
        m = re.match(r"^const -?[\d_]+_(\w+)$", a.strip())
        return bool(m) and signed(m.group(1))
    def binop(s, op, a, b, sg):
        if isinstance(a, (Opaque, Agg, Ref)) or isinstance(b, (Opaque, Agg, Ref)): return None
        if z3.is_bool(a) or z3.is_bool(b):
            if not (z3.is_bool(a) and z3.is_bool(b)): return None
            r = {"Eq": lambda: a == b, "Ne": lambda: z3.Xor(a, b), "BitAnd": lambda: z3.And(a, b), "BitOr": lambda: z3.Or(a, b), "BitXor": lambda: z3.Xor(a, b),
                 "Lt": lambda: z3.And(z3.Not(a), b), "Le": lambda: z3.Or(z3.Not(a), b), "Gt": lambda: z3.And(a, z3.Not(b)), "Ge": lambda: z3.Or(a, z3.Not(b))}.get(op)
            return r() if r else None
        if a.size() != b.size():
            if op.startswith("Sh"): b = z3.ZeroExt(a.size() - b.size(), b) if b.size() < a.size() else z3.Extract(a.size() - 1, 0, b)
            else: return None
        U = dict(Eq=lambda: a == b, Ne=lambda: a != b, Add=lambda: a + b, Sub=lambda: a - b, Mul=lambda: a * b, BitAnd=lambda: a & b, BitOr=lambda: a | b, BitXor=lambda: a ^ b,
                 Shl=lambda: a << (b & (a.size() - 1)), AddUnchecked=lambda: a + b, SubUnchecked=lambda: a - b, MulUnchecked=lambda: a * b)
        S = dict(Lt=lambda: a < b, Le=lambda: a <= b, Gt=lambda: a > b, Ge=lambda: a >= b, Div=lambda: a / b, Rem=lambda: z3.SRem(a, b), Shr=lambda: a >> (b & (a.size() - 1)))
        N = dict(Lt=lambda: z3.ULT(a, b), Le=lambda: z3.ULE(a, b), Gt=lambda: z3.UGT(a, b), Ge=lambda: z3.UGE(a, b), Div=lambda: z3.UDiv(a, b), Rem=lambda: z3.URem(a, b), Shr=lambda: z3.LShR(a, b & (a.size() - 1)))
        r = U.get(op) or (S if sg else N).get(op)
        if r: return r()
        m = re.match(r"^(Add|Sub|Mul)WithOverflow$", op)
        if m:
            if sg: o = {"Add": z3.Or(z3.Not(z3.BVAddNoOverflow(a, b, True)), z3.Not(z3.BVAddNoUnderflow(a, b))), "Sub": z3.Or(z3.Not(z3.BVSubNoOverflow(a, b)), z3.Not(z3.BVSubNoUnderflow(a, b, True))), "Mul": z3.Or(z3.Not(z3.BVMulNoOverflow(a, b, True)), z3.Not(z3.BVMulNoUnderflow(a, b)))}[m.group(1)]
            else: o = {"Add": z3.Not(z3.BVAddNoOverflow(a, b, False)), "Sub": z3.ULT(a, b), "Mul": z3.Not(z3.BVMulNoOverflow(a, b, False))}[m.group(1)]
            return Agg({"0": {"Add": a + b, "Sub": a - b, "Mul": a * b}[m.group(1)], "1": o})
        return None
    def rvalue(s, env, txt, fn, ty):
        t = txt.strip()
        m = re.match(r"^(\w+)\((.*)\)$", t)
        if m and m.group(1)[0].isupper():
            a = split_top(m.group(2))
            if len(a) == 2:
                r = s.binop(m.group(1), s.operand(env, a[0], fn), s.operand(env, a[1], fn), s.sign_of(fn, a[0]))
                if r is not None: return r
            elif len(a) == 1 and m.group(1) in ("Not", "Neg"):
                v = s.operand(env, a[0], fn)
                if isinstance(v, z3.BoolRef): return z3.Not(v)
                if isinstance(v, z3.BitVecRef): return ~v if m.group(1) == "Not" else -v
            return s.havoc(ty)
        m = re.match(r"^discriminant\((.*)\)$", t)
        if m:
            v = s.load(env, s.parse_place(m.group(1)), "?")
            if isinstance(v, Agg) and v.discr is not None:
                d = v.discr
                w = width(ty) if ty in INT else d.size()
                return d if d.size() == w else (z3.SignExt(w - d.size(), d) if d.size() < w else z3.Extract(w - 1, 0, d))
            return s.havoc(ty)
        m = re.match(r"^&(?:raw )?(?:mut |const )?(?:fake \w+ )?(.*)$", t)
        if m and not t.startswith("&&"):
            l, pr = s.parse_place(m.group(1))
            v = env.get(l)
            if pr and pr[0][0] == "*" and isinstance(v, Ref):
                return Ref(v.env, (v.place[0], v.place[1] + pr[1:]))
            return Ref(env, (l, pr))
        m = re.match(r"^(.*) as (\w+) \((\w+)\)$", t)
        if m and m.group(3) == "IntToInt" and m.group(2) in INT:
            v = s.operand(env, m.group(1), fn)
            w = width(m.group(2))
            if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            if isinstance(v, z3.BitVecRef):
                if v.size() >= w: return z3.Extract(w - 1, 0, v) if v.size() > w else v
                return z3.SignExt(w - v.size(), v) if s.sign_of(fn, m.group(1)) else z3.ZeroExt(w - v.size(), v)
            return s.havoc(ty)
        if re.match(r"^(no_retag )?(copy|move|const) ", t) and not re.search(r" as .* \(\w+(\(.*\))?(, \w+)?\)$", t): return s.coerce(s.operand(env, t, fn), ty)
        if t.startswith("(") and close(t) == len(t) - 1:
            return Agg({str(i): s.operand(env, a, fn) for i, a in enumerate(split_top(t[1:-1]))})
        m = re.match(r"^(?:core::option::)?Option::<.*?>::(Some)\((.*)\)$", t)
        if m: return Agg({"0": s.operand(env, m.group(2), fn)}, z3.BitVecVal(1, W))
        if re.match(r"^(?:core::option::)?Option::<.*>::None$", t): return Agg({}, z3.BitVecVal(0, W))
        m = re.match(r"^(?:core::result::)?Result::<.*>::(Ok|Err)\((.*)\)$", t)
        if m: return Agg({"0": s.operand(env, m.group(2), fn)}, z3.BitVecVal(0 if m.group(1) == "Ok" else 1, W))
        m = re.match(r"^[\w:<>', ]+ \{ (.*) \}$", t)
        if m:
            fl = split_top(m.group(1))
            return Agg({str(i): s.operand(env, a.split(":", 1)[1], fn) if ":" in a else Opaque() for i, a in enumerate(fl)})
        return s.havoc(ty)
    def coerce(s, v, ty):
        return s.havoc(ty) if isinstance(v, Opaque) and (ty in INT or ty == "bool") else v
    # --- calls
    def library(s, name, full, a, ty):
        """models of the core functions that parameter checks use"""
        bv = all(isinstance(x, z3.BitVecRef) for x in a)
        un = [s.load(x.env, x.place, "?") if isinstance(x, Ref) else x for x in a]
        ubv = all(isinstance(x, z3.BitVecRef) for x in un) and len(un) > 0
        if name in ("black_box", "clone", "into", "from") and len(un) == 1 and isinstance(un[0], (z3.BitVecRef, z3.BoolRef)) and (ty in INT or ty == "bool"):
            return s.fit(un[0], ty)
        if not ubv: return None
        if len(un) == 2 and un[0].size() == un[1].size():
            x, y = un
            opt = lambda c, v: Agg({"0": v}, z3.If(c, z3.BitVecVal(1, W), z3.BitVecVal(0, W)))
            one = z3.BitVecVal(1, x.size())
            tbl = {"div_ceil": lambda: z3.UDiv(x, y) + z3.If(z3.URem(x, y) == 0, z3.BitVecVal(0, x.size()), one),
                   "saturating_sub": lambda: z3.If(z3.ULT(x, y), z3.BitVecVal(0, x.size()), x - y), "saturating_add": lambda: z3.If(z3.BVAddNoOverflow(x, y, False), x + y, z3.BitVecVal(-1, x.size())),
                   "wrapping_sub": lambda: x - y, "wrapping_add": lambda: x + y, "wrapping_mul": lambda: x * y,
                   "checked_sub": lambda: opt(z3.UGE(x, y), x - y), "checked_add": lambda: opt(z3.BVAddNoOverflow(x, y, False), x + y), "checked_div": lambda: opt(y != 0, z3.UDiv(x, y)),
                   "wrapping_div": lambda: z3.UDiv(x, y), "wrapping_rem": lambda: z3.URem(x, y), "div_euclid": lambda: z3.UDiv(x, y), "rem_euclid": lambda: z3.URem(x, y),
                   "is_multiple_of": lambda: z3.If(y == 0, x == 0, z3.URem(x, y) == 0), "saturating_div": lambda: z3.UDiv(x, y), "checked_rem": lambda: opt(y != 0, z3.URem(x, y)),
                   "next_multiple_of": lambda: z3.If(z3.URem(x, y) == 0, x, x + (y - z3.URem(x, y))), "saturating_mul": lambda: z3.If(z3.BVMulNoOverflow(x, y, False), x * y, z3.BitVecVal(-1, x.size())),
                   "midpoint": lambda: z3.Extract(x.size() - 1, 0, z3.UDiv(z3.ZeroExt(1, x) + z3.ZeroExt(1, y), z3.BitVecVal(2, x.size() + 1))),
                   "checked_mul": lambda: opt(z3.BVMulNoOverflow(x, y, False), x * y),
                   "overflowing_sub": lambda: Agg({"0": x - y, "1": z3.ULT(x, y)}), "overflowing_add": lambda: Agg({"0": x + y, "1": z3.Not(z3.BVAddNoOverflow(x, y, False))}),
                   "max": lambda: z3.If(z3.UGE(x, y), x, y), "min": lambda: z3.If(z3.ULE(x, y), x, y), "abs_diff": lambda: z3.If(z3.UGE(x, y), x - y, y - x),
                   "lt": lambda: z3.ULT(x, y), "le": lambda: z3.ULE(x, y), "gt": lambda: z3.UGT(x, y), "ge": lambda: z3.UGE(x, y), "eq": lambda: x == y, "ne": lambda: x != y,
                   "cmp": lambda: Agg({}, z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 8), z3.If(x == y, z3.BitVecVal(0, 8), z3.BitVecVal(1, 8))))}
            if name in tbl:
                if name in ("div_ceil", "wrapping_div", "wrapping_rem", "div_euclid", "rem_euclid", "saturating_div", "next_multiple_of") and s.decide([(y != 0, False), (y == 0, True)]): raise Stop("panic")
                return tbl[name]()
        if len(un) == 1:
            x = un[0]
            if name == "is_power_of_two": return z3.And(x != 0, x & (x - 1) == 0)
        return None
    def fit(s, v, ty):
        if isinstance(v, z3.BitVecRef) and ty in INT:
            w = width(ty)
            return v if v.size() == w else (z3.ZeroExt(w - v.size(), v) if v.size() < w else z3.Extract(w - 1, 0, v))
        return v
    def callee(s, path, nargs):
        b = base(path)
        if path.startswith("<") and " as " in path and not re.match(r"^<(\w+::)*(RTree|ParentNode|AABB)\b", path): return None
        c = [f for f in s.byname.get(b, []) if len(f.params) == nargs and not f.name.startswith("const ")]
        if len(c) > 1:
            owner = [x for x in re.findall(r"\b([A-Z]\w+)", path)][:1]
            c2 = [f for f in c if owner and (owner[0] in f.ret or any(owner[0] in t for _, t in f.params) or owner[0].lower() in f.name.replace("_", ""))]
            c = c2 if len(c2) == 1 else []
        return c[0] if c else None
    def simple(s, f):
        """acyclic and small: worth following"""
        if len(f.blocks) > 60: return False
        succ = {b: re.findall(r"(?<!\w)bb\d+", x[-1]) if x else [] for b, x in f.blocks.items()}
        state = {}
        def go(b):
            if state.get(b) == 1: return False
            if state.get(b) == 2: return True
            state[b] = 1
            r = all(go(x) for x in succ.get(b, []))
            state[b] = 2
            return r
        return go("bb0")
    def call(s, f, args, depth):
        s.used.add(f.name)
        env = {}
        for (p, _), v in zip(f.params, args): env[p] = v
        b = "bb0"
        while True:
            s.steps += 1; STAT["steps"] += 1
            if s.steps > 5000: raise Stop("too long")
            blk = f.blocks[b]
            for st in blk[:-1]: s.stmt(env, st, f)
            t = blk[-1]
            if t == "return": return env.get("_0", Agg({}))
            if t in ("unreachable",): raise Stop("infeasible")
            if t.startswith("resume") or t.startswith("terminate"): raise Stop("panic")
            m = re.match(r"^goto -> (bb\d+)$", t)
            if m: b = m.group(1); continue
            m = re.match(r"^switchInt\((.*)\) -> \[(.*)\]$", t)
            if m:
                v = s.operand(env, m.group(1), f)
                if isinstance(v, (Opaque, Agg, Ref)):
                    v = s.havoc("u64")
                opts, seen = [], []
                for o in split_top(m.group(2)):
                    k, to = [x.strip() for x in o.split(":")]
                    if k == "otherwise": opts.append((z3.And([z3.Not(c) for c in seen]) if seen else z3.BoolVal(True), to))
                    else:
                        n = int(k)
                        c = (v if n else z3.Not(v)) if z3.is_bool(v) else v == z3.BitVecVal(n, v.size())
                        seen.append(c); opts.append((c, to))
                b = s.decide(opts); continue
            m = re.match(r"^assert\((!?)(.*?), \".*-> \[success: (bb\d+)", t)
            if m:
                v = s.operand(env, m.group(2), f)
                if not z3.is_bool(v) if not isinstance(v, (Opaque, Agg, Ref)) else True: v = s.havoc("bool")
                c = z3.Not(v) if m.group(1) else v
                if not s.decide([(c, True), (z3.Not(c), False)]): s.where = f.name; raise Stop("panic")
                b = m.group(3); continue
            m = re.match(r"^(?:drop|falseEdge|falseUnwind)\b.*-> \[(?:return|real): (bb\d+)", t)
            if m: b = m.group(1); continue
            m = re.match(r"^(.*?) = (.*) -> (?:\[return: (bb\d+), unwind.*\]|unwind .*|bb\d+.*)$", t)
            if m:
                dest, callx, ret = m.groups()
                k = callx.rfind("(") if False else open_of(callx)
                path, al = callx[:k], split_top(callx[k + 1:-1])
                if ret is None: s.where = f.name; raise Stop("panic")
                a = [s.operand(env, x, f) for x in al]
                dp = s.parse_place(dest)
                ty = s.type_of(f, dp)
                g = None if path.startswith(("core::", "alloc::", "std::")) else s.callee(path, len(al))
                if g is not None and depth < 6 and s.simple(g): r = s.coerce(s.call(g, a, depth + 1), ty)
                else:
                    # code that is not followed may panic: a model of this path need not be one of the program
                    if not path.startswith(("core::", "alloc::", "std::", "<core::", "<alloc::", "<std::")): s.taint.add("skipped " + base(path))
                    r = s.library(base(path), path, a, ty)
                    if r is None: r = s.havoc(ty)
                s.store(env, dp, r)
                b = ret; continue
            raise Stop("unknown terminator " + t)
    def stmt(s, env, st, f):
        if re.match(r"^(StorageLive|StorageDead|nop|FakeRead|PlaceMention|AscribeUserType|Retag|Coverage|ConstEvalCounter|BackwardIncompatibleDropHint)\b", st): return
        m = re.match(r"^(\S.*?) = (.*)$", st)
        if not m: return
        try: dp = s.parse_place(m.group(1))
        except ValueError: return
        ty = s.type_of(f, dp)
        try: v = s.rvalue(env, m.group(2), f, ty)
        except ValueError: v = s.havoc(ty)
        s.store(env, dp, v)

def vars_of(e):
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x)
        todo.extend(x.children())
    return out
def close(s):
    d = 0
    for i, c in enumerate(s):
        d += c == "("; d -= c == ")"
        if d == 0: return i
    return -1
def open_of(s):
    """index of the parenthesis that opens the argument list at the end of s"""
    d = 0
    for i in range(len(s) - 1, -1, -1):
        d += s[i] == ")"; d -= s[i] == "("
        if d == 0: return i
    return -1
def balanced(s): return s.count("(") == s.count(")")
def field_split(q):
    """'place.N: type' -> (place, N, type)"""
    d = 0
    for i, c in enumerate(q):
        if c in "(": d += 1
        elif c in ")": d -= 1
        elif c == "." and d == 0:
            m = re.match(r"^\.(\d+): (.*)$", q[i:])
            if m: return q[:i], m.group(1), m.group(2)
    return None
def base_const(t):
    t = t.split(" ")[-1] if t.startswith("<") else t
    return re.sub(r"^.*::", "", t)

# ---------------------------------------------------------------- specification
# a root of MAX_SIZE + 1 children is allocated: larger nodes need not be accepted
MAX_LIMIT = 2 ** 31
def valid(w):
    mx, mn, re_, d = [param(n) for n in NAMES]
    two, one = z3.BitVecVal(2, w), z3.BitVecVal(1, w)
    half_up = z3.UDiv(mx, two) + z3.URem(mx, two)
    return z3.And(z3.UGE(mx, 4), mn != 0, z3.ULE(mn, half_up), z3.ULT(re_, mx - mn), z3.UGE(d, two))
def valid_py(v):
    mx, mn, r, d = v
    return mx >= 4 and mn >= 1 and mn <= (mx + 1) // 2 and r < mx - mn and d >= 2

def model_of(pc, extra, small=True):
    """a model of the parameters, with small values if there is one"""
    ps = [param(n) for n in NAMES]
    lims = [[z3.ULE(p, b) for p, b in zip(ps, (40, 40, 40, 6))]] if small else []
    for lim in lims + [[z3.ULE(ps[3], 20)], []]:
        t = time.time()
        so = z3.Solver(); so.set("timeout", 60000); so.add(*pc); so.add(*extra); so.add(*lim)
        r = so.check()
        STAT["queries"] += 1; STAT["solver"] += time.time() - t
        if r == z3.unknown: STAT["unknown"] += 1; return "unknown"
        if r == z3.sat:
            m = so.model()
            return [m.eval(p, model_completion=True).as_long() for p in ps]
    return None

# ---------------------------------------------------------------- native replay
PROG = r'''
use rstar::{{RTree, RTreeParams, RStarInsertionStrategy}};
use std::panic::{{catch_unwind, AssertUnwindSafe}};
fn out(i: usize, what: &str, f: impl FnOnce()) {{
    let r = catch_unwind(AssertUnwindSafe(f));
    println!("{{}} {{}} {{}}", i, what, if r.is_ok() {{ "return" }} else {{ "panic" }});
}}
{structs}
fn main() {{
    std::panic::set_hook(Box::new(|_| ()));
    let only: usize = std::env::args().nth(1).unwrap().parse().unwrap();
{calls}
}}
'''
def native(cases, profile):
    """cases: list of (MAX, MIN, RE, DIM); returns {i: {creation: outcome}}"""
    st, ca = "", ""
    for i, (mx, mn, r, d) in enumerate(cases):
        st += f"struct P{i};\nimpl RTreeParams for P{i} {{ const MAX_SIZE: usize = {mx}; const MIN_SIZE: usize = {mn}; const REINSERTION_COUNT: usize = {r}; type DefaultInsertionStrategy = RStarInsertionStrategy; }}\n"
        ty = f"RTree::<[i64; {d}], P{i}>"
        ca += f'    if only == {i} {{\n'
        ca += f'    out({i}, "new_with_params", || {{ {ty}::new_with_params(); }});\n    out({i}, "default", || {{ let _: {ty} = Default::default(); }});\n    out({i}, "bulk0", || {{ {ty}::bulk_load_with_params(vec![]); }});\n'
        if d <= 64 and d > 0:
            for n in (1, 3, 9, 40): ca += f'    out({i}, "bulk{n}", || {{ {ty}::bulk_load_with_params((0..{n}i64).map(|k| [k * 7 % 11; {d}]).collect()); }});\n'
        ca += "    }\n"
    dirn = os.path.join(TGT, "x02-replay")
    os.makedirs(os.path.join(dirn, "src"), exist_ok=True)
    open(os.path.join(dirn, "Cargo.toml"), "w").write('[package]\nname = "x02replay"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nrstar = { path = "/repo/rstar" }\n[workspace]\n[profile.release]\nopt-level = 1\n')
    if os.path.exists(os.path.join(ROOT, "checks", "Cargo.lock")): shutil.copy(os.path.join(ROOT, "checks", "Cargo.lock"), dirn)
    open(os.path.join(dirn, "src", "main.rs"), "w").write(PROG.format(structs=st, calls=ca))
    env = dict(os.environ, CARGO_TARGET_DIR=TGT)
    r = sh(["cargo", "build", "--offline", "--manifest-path", os.path.join(dirn, "Cargo.toml")] + (["--release"] if profile == "release" else []), env=env)
    if r.returncode: return None, r.stderr[-2000:]
    # one process per case: creation with senseless parameters may not return at all
    prog = os.path.join(TGT, 'release' if profile == 'release' else 'debug', 'x02replay')
    def go(i): return sh(["bash", "-c", f"ulimit -v 8000000; exec timeout 20 {prog} {i}"]).stdout
    try:
        with concurrent.futures.ThreadPoolExecutor(4) as pool: outs = list(pool.map(go, range(len(cases))))
    except Exception as e: return None, str(e)
    res = {}
    for l in "\n".join(outs).split("\n"):
        p = l.split()
        if len(p) == 3: res.setdefault(int(p[0]), {})[p[1]] = p[2]
    return res, ""

ENTRIES = [("new_with_params", 0, ["new_with_params"]), ("bulk_load_with_params", 1, ["bulk0", "bulk1", "bulk3", "bulk9", "bulk40"]), ("default", 0, ["default"])]

def emit(profile):
    for d in glob.glob(os.path.join(TGT, "*", ".fingerprint", "rstar-*")): shutil.rmtree(d, ignore_errors=True)
    for f in glob.glob(os.path.join(TGT, "*", "deps", "rstar-*.mir")): os.remove(f)
    flags = [] if profile == "debug" else ["-C", "debug-assertions=off", "-C", "overflow-checks=off"]
    r = sh(["cargo", "rustc", "--offline", "--manifest-path", os.path.join(ROOT, "checks", "Cargo.toml"), "-p", "rstar", "--lib", "--", "--emit=mir", "-C", "opt-level=0"] + flags, env=dict(os.environ, CARGO_TARGET_DIR=TGT))
    fs = glob.glob(os.path.join(TGT, "debug", "deps", "rstar-*.mir"))
    if r.returncode or not fs:
        print(r.stderr[-3000:]); print("ERROR: the check does not build against /repo"); sys.exit(2)
    return parse(open(fs[0]).read())

def main():
    global W
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if "--replay" in sys.argv:
        v = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        res, err = native([v["values"]], v["profile"])
        print(v, res, err)
        bad = res and res.get(0, {}).get(v["creation"]) == v["outcome"]
        print("reproduced" if bad else "not reproduced"); sys.exit(1 if bad else 0)
    violations, notes, per, cases, samples, used, errors = [], [], [], [], [], set(), []
    for profile in ("debug", "release"):
        fns = emit(profile)
        for W in ((64, 32) if tier == "thorough" or profile == "debug" else (64,)):
            for name, nargs, creations in ENTRIES:
                ex = Exec(fns)
                fl = [f for f in ex.byname.get(name, []) if len(f.params) == nargs and "RTree<T, Params>" in f.ret]
                if len(fl) != 1: errors.append(f"creation function {name} not found once in the MIR ({len(fl)})"); continue
                paths, left = ex.run(fl[0])
                used |= ex.used
                nret = npan = 0
                if left: notes.append(f"{name}: path limit reached, {left} paths unexplored")
                for res, pc, taint, where in paths:
                    if res == "infeasible": continue
                    if res == "return": nret += 1; want, goal = "reject", z3.And([z3.Not(valid(W))] + [z3.ULE(param(n), 2 ** 40 if W == 64 else 2 ** 30) for n in NAMES])
                    elif res == "panic": npan += 1; want, goal = "accept", z3.And(valid(W), z3.ULE(param("MAX_SIZE"), MAX_LIMIT if W == 64 else 2 ** 30))
                    else: notes.append(f"{name}: a path ended undecided ({res})"); continue
                    m = model_of(pc, [goal])
                    if m == "unknown": notes.append(f"{name}: solver gave no answer"); continue
                    if m is not None:
                        violations.append((profile, W, name, creations, res, m, taint))
                        # further counterexamples, one per way of being invalid or just valid, on which every kind of creation can be run
                        if W == 64 and taint:
                            mx, mn, re_, d = [param(n) for n in NAMES]
                            half = z3.UDiv(mx, z3.BitVecVal(2, W)) + z3.URem(mx, z3.BitVecVal(2, W))
                            odd = z3.URem(mx, z3.BitVecVal(2, W)) == 1
                            fits = [[z3.ULE(mx, l), z3.UGE(mx, 1), z3.ULE(mn, l), z3.UGE(d, 1), z3.ULE(d, 4)] for l in (40, 1000, 30000)]
                            if res == "return":
                                whys = [[z3.ULT(mx, 4)], [mx == 3, mn == 1, re_ == 0, d == 2], [mn == 0, z3.UGE(mx, 4), d == 2], [z3.UGT(mn, mx), z3.UGE(mx, 4), d == 2], [z3.UGT(mn, z3.UDiv(mx, z3.BitVecVal(2, W)) + 1), z3.ULT(mn, mx), z3.UGE(mx, 6), d == 2], [z3.ULT(d, 2), z3.UGE(mx, 4)], [z3.UGE(re_, mx), z3.ULE(re_, 30000), mn == 1, z3.UGE(mx, 4), d == 2]]
                                whys += [[mn == half + 1, o, re_ == 0, d == 2, z3.UGE(mx, 6)] for o in (odd, z3.Not(odd))] + [[re_ == mx - mn, mn == k, z3.UGE(mx, 4), d == 2] for k in (1, half)] + [[d == 1, mn == 1, re_ == 0, z3.UGE(mx, 4)]]
                            else:
                                whys = [[m_, n_ == mn, r_ == re_, e_] for m_ in (mx == 4, mx == 5, z3.And(z3.UGT(mx, 5), odd), z3.And(z3.UGT(mx, 5), z3.Not(odd))) for n_ in (z3.BitVecVal(1, W), half) for r_ in (z3.BitVecVal(0, W), mx - mn - 1) for e_ in (d == 2, z3.UGT(d, 2))]
                            tried = [m]
                            for why in whys:
                                for fit in fits:
                                    k = model_of(pc, [goal] + fit + why, small=False)
                                    if k not in (None, "unknown"):
                                        if k not in tried: tried.append(k); violations.append((profile, W, name, creations, res, k, taint))
                                        break
                    elif W == 64:
                        g = model_of(pc, [])
                        if g not in (None, "unknown"): cases.append((profile, creations, res, g, taint, name))
                per.append({"harness": f"{name} [{profile}, {W}-bit]", "paths": len(paths), "paths_returning": nret, "paths_panicking": npan})
                if nret == 0 or npan == 0: notes.append(f"{name} [{profile}]: {nret} returning and {npan} panicking paths")
    # replay: counterexamples first, then one model per path
    confirmed, validated, mismatched = [], 0, 0
    for profile in ("debug", "release"):
        vs = [v for v in violations if v[0] == profile and v[1] == 64]
        cs = [c for c in cases if c[0] == profile]
        allc = [v[5] for v in vs] + [c[3] for c in cs]
        allc = [c if c[3] <= 4096 else c[:3] + [4096] for c in allc]
        if not allc: continue
        res, err = native(allc, profile)
        if res is None: errors.append("replay program does not build: " + err); continue
        for i, v in enumerate(vs):
            got = res.get(i, {})
            hit = [c for c in v[3] if got.get(c) == v[4]] if got else [c for c in v[3]] if v[4] == "panic" else []
            if hit: confirmed.append((v, hit[0]))
            elif v[6]: notes.append(f"possible counterexample {v[5]} in {v[2]} depends on unmodelled code and does not occur natively")
            else: errors.append(f"counterexample {v[5]} in {v[2]} [{profile}] does not reproduce natively: {got}")
        for j, c in enumerate(cs):
            got = res.get(len(vs) + j, {})
            o = [got.get(x) for x in c[1] if x in got]
            if c[2] in o and (c[4] or all(x == c[2] for x in o)): validated += 1
            elif not c[4]: mismatched += 1; errors.append(f"path model {c[3]} of {c[5]} ends in {c[2]} symbolically, natively {got}")
            if len(samples) < 8: samples.append(f"MAX_SIZE, MIN_SIZE, REINSERTION_COUNT, DIMENSIONS = {c[3]}: {c[2]} of {c[5]}")
    for v in [v for v in violations if v[1] != 64]:
        if not any(c[0][2] == v[2] for c in confirmed): notes.append(f"counterexample for a {v[1]}-bit usize only: {v[5]} in {v[2]}")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": "X02", "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": STAT["paths"], "transitions": STAT["steps"], "traces_validated_against_impl": validated, "samples": samples,
                       "meaning": "states = paths through the MIR of the tree-creating functions, transitions = basic blocks executed symbolically, traces validated = path models whose outcome was reproduced by a compiled program",
                       "exhaustive": not notes and not errors, "functions_encoded": sorted(used), "number_models": ["usize as 64-bit and 32-bit bit-vectors"],
                       "bounds": "rejection: every value of MAX_SIZE, MIN_SIZE, REINSERTION_COUNT and DIMENSIONS up to 2^40 (beyond, sums of them may wrap in release builds); acceptance: MAX_SIZE up to 2^31 (nodes are allocated with that capacity); code behind the verification (bulk loading itself) is not followed where it loops",
                       "solver_queries": STAT["queries"], "solver_unknown": STAT["unknown"], "solver_s": round(STAT["solver"], 3), "solver": "z3 " + z3.get_version_string(),
                       "unmodelled_values": STAT["havocs"], "harnesses": per, "notes": notes},
          "assumptions": ["MIR as emitted by the pinned rustc (debug profile and with debug assertions off) means what the compiled program does; one model per path is replayed natively", "core integer helpers (div_ceil, checked_*, saturating_*, min, max, comparisons) are modelled by their documented meaning"],
          "wall_s": round(time.time() - T0, 3), "violations": len(confirmed)}
    json.dump(ev, open(os.path.join(ROOT, "evidence", "X02.json"), "w"), indent=1)
    print(f"X02 [{tier}]: {STAT['paths']} paths, {STAT['queries']} queries, {STAT['solver']:.2f}s solver, {validated} path models replayed, {time.time() - T0:.1f}s wall")
    for n in notes[:10]: print("INCOMPLETE:", n)
    if confirmed:
        v, creation = confirmed[0]
        rp = os.path.join(ROOT, "evidence", "replay", "X02.json")
        json.dump({"values": v[5], "names": NAMES, "profile": v[0], "creation": creation, "outcome": v[4]}, open(rp, "w"))
        print(f"violated: {creation} with {dict(zip(NAMES, v[5]))} ({v[0]} build) ends in {v[4]}, although these parameters are {'valid' if valid_py(v[5]) else 'invalid'}")
        print(f"VIOLATION property=X02 replay={rp}")
        sys.exit(1)
    if errors:
        for e in errors[:10]: print("ERROR:", e)
        print("X02: INCONCLUSIVE"); sys.exit(2)
    print("X02: holds on everything explored")
main()
