"""Solver back ends and lemma instances."""

import shutil
import subprocess
import tempfile
import os

import z3

from .values import IAND, IOR, IXOR, POW2, SBool, SInt, land, term

BITOPS = {"iand", "ior", "ixor"}


def subterms(fs):
    seen = set()
    todo = list(fs)
    while todo:
        e = todo.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        yield e
        if z3.is_app(e):
            todo.extend(e.children())
        elif z3.is_quantifier(e):
            todo.append(e.body())


def instances(c, goal):
    """pow2 monotonicity instances for the terms of the goal and the path condition."""
    from . import folds

    out = folds.equalities(c, goal)
    ps = {}
    for e in subterms([goal] + c.pc):
        if z3.is_app(e) and e.decl().eq(POW2):
            ps[e.arg(0).get_id()] = e.arg(0)
    ps = list(ps.values())
    if 1 < len(ps) <= 6:
        for i, a in enumerate(ps):
            for b in ps[i + 1 :]:
                out.append(z3.Implies(a < b, POW2(b) >= 2 * POW2(a)))
                out.append(z3.Implies(b < a, POW2(a) >= 2 * POW2(b)))
                out.append(z3.Implies(a == b, POW2(a) == POW2(b)))
                d = z3.simplify(a - b)
                if z3.is_int_value(d):
                    k = d.as_long()
                    if 0 < k <= 64:
                        out.append(z3.Implies(b >= 0, POW2(a) == POW2(b) * (1 << k)))
                    elif -64 <= k < 0:
                        out.append(z3.Implies(a >= 0, POW2(b) == POW2(a) * (1 << -k)))
    return out + div_chains([goal] + c.pc)


def div_chains(fs):
    """(x div a) div b == x div (a b), in the linear form the solver can use: q1 == k q2 + (q1 mod k)."""
    groups = {}
    for e in subterms(fs):
        if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            x, m = e.children()
            if z3.is_int_value(m) and m.as_long() > 1:
                groups.setdefault(x.get_id(), (x, set()))[1].add(m.as_long())
    out = []
    for x, cs in list(groups.values()):
        cs = sorted(cs)
        if len(cs) < 2:
            continue
        prev = 1
        q1 = x
        for m in cs:
            if m % prev:
                continue
            k = m // prev
            q2 = x / z3.IntVal(m)
            r = q1 % z3.IntVal(k)
            out.append(z3.And(q1 == k * q2 + r, r >= 0, r < k))
            prev, q1 = m, q2
    return out


def index_terms(fs):
    """Integer arguments of uninterpreted function applications (candidate instances of quantified facts)."""
    out = {}
    for e in subterms(fs):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for ch in e.children():
                if ch.sort() == z3.IntSort():
                    out[ch.get_id()] = ch
    return list(out.values())


def universal_instances(c, fs, done):
    """Instances of the context's quantified facts at the index terms of the formulas."""
    from .values import boolterm, land, wrap

    out = []
    ts = index_terms(fs)
    if len(ts) * len(c.universals) > 400:
        ts = ts[: max(1, 400 // max(1, len(c.universals)))]
    for n, (lo, hi, fn) in enumerate(c.universals):
        for t in ts:
            if (n, t.get_id()) in done:
                continue
            done[(n, t.get_id())] = t
            v = SInt(t)
            g = land(v >= lo, v < hi)
            if g is False:
                continue
            try:
                f = fn(v)
            except BaseException:  # noqa: BLE001
                continue
            out.append(z3.Implies(boolterm(g), boolterm(f)))
    return out


def has_bitops(goal, pc):
    for e in subterms([goal] + list(pc)):
        if z3.is_app(e) and e.decl().name() in BITOPS and len(e.children()) == 2:
            return True
    return False


# -- bit-vector back end -------------------------------------------------------------------------------------------------


class NoBV(Exception):
    pass


def lin(tab, i):
    """Value at i if the table is affine over GF(2)."""
    r = tab[0]
    k = 0
    while i >> k:
        if i >> k & 1:
            r ^= tab[1 << k] ^ tab[0]
        k += 1
    return r


class BVTranslation:
    """Exact translation of bounded integer formulas to bit vectors of one width."""

    WIDTH = 80

    def __init__(self, pc):
        self.iv = {}
        self.vars = {}
        self.side = []
        self.memo = {}
        for f in pc:
            self.bound(f if z3.is_quantifier(f) else z3.simplify(f))

    def bound(self, f):
        if z3.is_and(f):
            for x in f.children():
                self.bound(x)
            return
        neg = False
        if z3.is_not(f):
            f = f.arg(0)
            neg = True
        if not z3.is_app(f) or len(f.children()) != 2:
            return
        a, b = f.children()
        k = f.decl().kind()
        ops = {z3.Z3_OP_LE: "<=", z3.Z3_OP_GE: ">=", z3.Z3_OP_LT: "<", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}
        op = ops.get(k)
        if op is None or not a.sort() == z3.IntSort():
            return
        if z3.is_int_value(a):
            a, b = b, a
            op = {"<=": ">=", ">=": "<=", "<": ">", ">": "<", "==": "=="}[op]
        if not z3.is_int_value(b):
            return
        v = b.as_long()
        if neg:
            op = {"<=": ">", ">=": "<", "<": ">=", ">": "<=", "==": None}[op]
        lo, hi = self.iv.get(a.get_id(), (None, None))
        if op in ("<=", "<", "=="):
            u = v - 1 if op == "<" else v
            hi = u if hi is None else min(hi, u)
        if op in (">=", ">", "=="):
            u = v + 1 if op == ">" else v
            lo = u if lo is None else max(lo, u)
        self.iv[a.get_id()] = (lo, hi)
        self.vars.setdefault(("keep", a.get_id()), a)

    def var(self, e):
        lo, hi = self.iv.get(e.get_id(), (None, None))
        if lo is None or hi is None:
            raise NoBV()
        return self.mkvar(e, lo, hi)

    def mkvar(self, e, lo, hi):
        v = z3.BitVec(f"bv!{e.get_id()}", self.WIDTH)
        self.side.append(v >= lo)
        self.side.append(v <= hi)
        return v, lo, hi

    def chk(self, v, lo, hi):
        if lo < -(1 << (self.WIDTH - 2)) or hi >= 1 << (self.WIDTH - 2):
            raise NoBV()
        return v, lo, hi

    def num(self, e):
        k = e.get_id()
        if k not in self.memo:
            self.memo[k] = (e, self.num_(e))
        return self.memo[k][1]

    def num_(self, e):
        if z3.is_int_value(e):
            v = e.as_long()
            return self.chk(z3.BitVecVal(v, self.WIDTH), v, v)
        kind = e.decl().kind()
        ch = e.children()
        if kind == z3.Z3_OP_ADD:
            xs = [self.num(x) for x in ch]
            r = xs[0]
            for x in xs[1:]:
                r = self.chk(r[0] + x[0], r[1] + x[1], r[2] + x[2])
            return r
        if kind == z3.Z3_OP_SUB:
            xs = [self.num(x) for x in ch]
            r = xs[0]
            for x in xs[1:]:
                r = self.chk(r[0] - x[0], r[1] - x[2], r[2] - x[1])
            return r
        if kind == z3.Z3_OP_UMINUS:
            x = self.num(ch[0])
            return self.chk(-x[0], -x[2], -x[1])
        if kind == z3.Z3_OP_MUL:
            xs = [self.num(x) for x in ch]
            r = xs[0]
            for x in xs[1:]:
                ps = [r[1] * x[1], r[1] * x[2], r[2] * x[1], r[2] * x[2]]
                r = self.chk(r[0] * x[0], min(ps), max(ps))
            return r
        if kind in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
            x = self.num(ch[0])
            m = ch[1].as_long()
            if m & (m - 1) == 0:
                s = m.bit_length() - 1
                if kind == z3.Z3_OP_IDIV:
                    return self.chk(x[0] >> s, x[1] // m, x[2] // m)
                return self.chk(x[0] & (m - 1), 0, m - 1)
            if x[1] >= 0:
                if kind == z3.Z3_OP_IDIV:
                    return self.chk(z3.UDiv(x[0], z3.BitVecVal(m, self.WIDTH)), 0, x[2] // m)
                return self.chk(z3.URem(x[0], z3.BitVecVal(m, self.WIDTH)), 0, m - 1)
            raise NoBV()
        if kind == z3.Z3_OP_ITE:
            c = self.boolean(ch[0])
            a, b = self.num(ch[1]), self.num(ch[2])
            return z3.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2])
        if kind == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if nm in BITOPS and len(ch) == 2:
                a, b = self.num(ch[0]), self.num(ch[1])
                v = {"iand": lambda: a[0] & b[0], "ior": lambda: a[0] | b[0], "ixor": lambda: a[0] ^ b[0]}[nm]()
                if a[1] >= 0 and b[1] >= 0:
                    n = max(a[2], b[2]).bit_length()
                    return v, 0, (1 << n) - 1
                n = max(abs(x) for x in a[1:] + b[1:]).bit_length() + 1
                return self.chk(v, -(1 << n), 1 << n)
            from .values import TABLES

            if nm in TABLES:
                try:
                    x = self.num(ch[0])
                except NoBV:
                    return self.var(e)
                tab = TABLES[nm]
                if len(tab) == 1 << (len(tab).bit_length() - 1) and set(tab) == set(range(len(tab))) and 0 <= x[1] and x[2] < len(tab):
                    return self.mux(tab, x[0], 0, len(tab)), min(tab.values()), max(tab.values())
                arr = z3.K(z3.BitVecSort(self.WIDTH), z3.BitVecVal(0, self.WIDTH))
                for kk, vv in tab.items():
                    arr = z3.Store(arr, z3.BitVecVal(kk, self.WIDTH), z3.BitVecVal(vv, self.WIDTH))
                return z3.Select(arr, x[0]), min(tab.values()), max(tab.values())
            return self.var(e)
        raise NoBV()

    def mux(self, tab, x, base, n):
        """Value of a complete table, bit by bit (each output bit in its algebraic normal form when that is linear)."""
        w = len(tab).bit_length() - 1
        if all(tab[i] == lin(tab, i) for i in range(len(tab))) and min(tab.values()) >= 0:
            r = z3.BitVecVal(tab[0], self.WIDTH)
            zero = z3.BitVecVal(0, self.WIDTH)
            for k in range(w):
                r = r ^ z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(tab[1 << k] ^ tab[0], self.WIDTH), zero)
            return r
        return self.muxtree(tab, x, 0, w)

    def muxtree(self, tab, x, base, w):
        if w == 0:
            return z3.BitVecVal(tab[base], self.WIDTH)
        h = 1 << (w - 1)
        return z3.If(z3.Extract(w - 1, w - 1, x) == 1, self.muxtree(tab, x, base + h, w - 1), self.muxtree(tab, x, base, w - 1))

    def boolean(self, e):
        if z3.is_true(e) or z3.is_false(e):
            return e
        kind = e.decl().kind()
        ch = e.children()
        if kind == z3.Z3_OP_AND:
            return z3.And(*[self.boolean(x) for x in ch])
        if kind == z3.Z3_OP_OR:
            return z3.Or(*[self.boolean(x) for x in ch])
        if kind == z3.Z3_OP_NOT:
            return z3.Not(self.boolean(ch[0]))
        if kind == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.boolean(ch[0]), self.boolean(ch[1]))
        if kind == z3.Z3_OP_ITE:
            return z3.If(self.boolean(ch[0]), self.boolean(ch[1]), self.boolean(ch[2]))
        if kind in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and ch[0].sort() == z3.BoolSort():
            r = self.boolean(ch[0]) == self.boolean(ch[1])
            return r if kind == z3.Z3_OP_EQ else z3.Not(r)
        if kind in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and len(ch) == 2 and ch[0].sort() == z3.IntSort():
            a, b = self.num(ch[0])[0], self.num(ch[1])[0]
            return {
                z3.Z3_OP_EQ: lambda: a == b,
                z3.Z3_OP_DISTINCT: lambda: a != b,
                z3.Z3_OP_LE: lambda: a <= b,
                z3.Z3_OP_LT: lambda: a < b,
                z3.Z3_OP_GE: lambda: a >= b,
                z3.Z3_OP_GT: lambda: a > b,
            }[kind]()
        if kind == z3.Z3_OP_UNINTERPRETED and e.sort() == z3.BoolSort():
            return z3.Bool(f"bvb!{e.get_id()}")
        raise NoBV()


def bv_query(pc, goal, ms):
    t = BVTranslation(pc)
    fs = []
    try:
        g = t.boolean(z3.simplify(goal))
    except NoBV:
        return None
    for f in pc:
        n = len(t.side)
        try:
            fs.append(t.boolean(z3.simplify(f)))
        except (NoBV, AttributeError):
            del t.side[n:]
            # variables created meanwhile keep their ranges through the memo; recreate them on demand
            t.memo = {k: v for k, v in t.memo.items()}
            continue
    s = z3.SolverFor("QF_ABV")
    s.set("timeout", ms)
    for k, (e, (v, lo, hi)) in t.memo.items():
        if z3.is_const(v) and not z3.is_bv_value(v):
            s.add(v >= lo, v <= hi)
    s.add(*t.side)
    s.add(*fs)
    s.add(z3.Not(g))
    return s


def bv_proves(pc, goal, ms):
    try:
        s = bv_query(pc, goal, ms)
    except (NoBV, z3.Z3Exception):
        return False
    return s is not None and s.check() == z3.unsat


def fresh_z3_proves(pc, goal, ms):
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*pc)
    s.add(z3.Not(goal))
    return s.check() == z3.unsat


CVC5 = shutil.which("cvc5")


def cvc5_proves(pc, goal, ms):
    if CVC5 is None:
        return False
    s = z3.Solver()
    s.add(*pc)
    s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run([CVC5, f"--tlimit={ms}", f.name], capture_output=True, text=True, timeout=ms / 1000 + 5)
        return r.stdout.strip().startswith("unsat")
    except subprocess.TimeoutExpired:
        return False
    finally:
        os.unlink(f.name)


# -- counter-models -------------------------------------------------------------------------------------------------------


def read_inputs(c, m):
    out = {}
    for name, v in c.inputs.items():
        if isinstance(v, (SInt, SBool)):
            t = v.t
            x = m.eval(t, model_completion=True)
            out[name] = z3.is_true(x) if isinstance(v, SBool) else x.as_long()
        elif isinstance(v, tuple) and v[0] == "bytes":
            n = v[2] if isinstance(v[2], int) else m.eval(term(v[2]), model_completion=True).as_long()
            if n > 4096:
                return None
            out[name] = [m.eval(v[1](z3.IntVal(k)), model_completion=True).as_long() % 256 for k in range(n)]
        elif isinstance(v, tuple) and v[0] == "codes":
            n = m.eval(term(v[2]), model_completion=True).as_long()
            if n > 4096:
                return None
            out[name] = [m.eval(v[1](k), model_completion=True).as_long() for k in range(n)]
        elif isinstance(v, tuple) and v[0] == "sections":
            _, cnt, fs, fl, fb = v

            def val(t):
                return m.eval(t, model_completion=True).as_long()

            n = cnt if isinstance(cnt, int) else val(term(cnt))
            if n > 12:
                return None
            secs = []
            for i in range(n):
                a, k = val(fs(i)), val(fl(i))
                if k > 4096:
                    return None
                secs.append([a, [val(fb(i, j)) % 256 for j in range(k)]])
            out[name] = secs
        elif isinstance(v, tuple) and v[0] == "records":
            _, cnt, funs, fl, fb = v

            def num(t):
                return m.eval(t, model_completion=True).as_long()

            n = num(term(cnt))
            if n > 12:
                return None
            recs = []
            for i in range(n):
                k = num(fl(i))
                if k > 4096:
                    return None
                recs.append([{nm: num(f(i)) for nm, f in funs.items()}, [num(fb(i, j)) % 256 for j in range(k)]])
            out[name] = recs
        else:
            out[name] = v
    return out


def section_limits(c, lim):
    """Search aids: few, short sections, and the quantified facts at small indices."""
    from . import models

    out = []
    some = False
    for v in c.inputs.values():
        if isinstance(v, tuple) and v[0] == "sections":
            some = True
            _, cnt, fs, fl, fb = v
            out.append(term(cnt) <= 3)
            for i in range(3):
                out.append(z3.Implies(term(cnt) > i, fl(i) <= lim))
                if lim <= 20:
                    out.append(z3.Implies(term(cnt) > i, fs(i) <= 1 << 20))
                if i:
                    out.append(z3.Implies(term(cnt) > i, fs(i - 1) + fl(i - 1) <= fs(i)))
        elif isinstance(v, tuple) and v[0] == "records":
            some = True
            out.append(term(v[1]) <= 3)
            out += [v[3](i) <= lim for i in range(3)]
    if some:
        for lo, hi, fn in list(c.universals):
            for t in range(3):
                try:
                    out.append(z3.Implies(models.boolterm(land(t >= lo, t < hi)), models.boolterm(fn(t))))
                except Exception:  # noqa: BLE001
                    pass
    return out


def small_model(c, goal, extra=()):
    """Inputs of a counter-model, preferring short sequences and small numbers."""
    s = c.solver
    lens = [term(v[2]) for v in c.inputs.values() if isinstance(v, tuple) and v[0] == "bytes" and not isinstance(v[2], int)]
    nums = [v.t for v in c.inputs.values() if isinstance(v, SInt)]
    s.set("timeout", 2500)
    s.push()
    try:
        s.add(*extra)
        s.add(z3.Not(goal))
        for lim in (4, 20, 80, 400, None):
            s.push()
            if lim is not None:
                for t in lens:
                    s.add(t <= lim)
                s.add(*section_limits(c, lim))
            for t in nums:
                if lim is not None and lim <= 80:
                    s.add(t <= 1 << 20, t >= -(1 << 20))
            r = s.check()
            if r == z3.sat:
                m = s.model()
                s.pop()
                return read_inputs(c, m)
            s.pop()
    except z3.Z3Exception:
        pass
    finally:
        s.pop()
        s.set("timeout", 2000)
    return None
