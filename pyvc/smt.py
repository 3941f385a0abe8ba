"""Z3 back end: translation of terms, entailment under a list of assumptions."""
import z3, time
from fractions import Fraction as Fr
from .ir import *

STATS = {"z3_calls": 0, "z3_time": 0.0, "z3_unknown": 0}
_zc = {}

def _real(z): return z3.ToReal(z) if z.sort() == z3.IntSort() else z

class Tr:
    """one translation session: collects side axioms for the terms it meets"""
    def __init__(self):
        self.memo = {}; self.ax = []; self.apps = {}
    def opaque(self, e):
        s = z3.IntSort() if e.sort == "I" else (z3.BoolSort() if e.sort == "B" else z3.RealSort())
        return z3.Const("t%d" % e.id, s)
    def t(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self._t(e); self.memo[e] = r
        return r
    def _t(self, e):
        o = e.op
        if o == "const":
            v = e.args[0]
            return z3.IntVal(v.numerator) if v.denominator == 1 else z3.RealVal(str(v))
        if o == "true": return z3.BoolVal(True)
        if o == "false": return z3.BoolVal(False)
        if o == "pi":
            p = z3.Real("pi")
            self.ax += [p > z3.RealVal("3.14159265"), p < z3.RealVal("3.14159266")]
            return p
        if o == "var":
            n, s = e.args
            return z3.Int(n) if s == "I" else (z3.Bool(n) if s == "B" else z3.Real(n))
        if o == "add":
            ts = [self.t(a) for a in e.args]
            if e.sort != "I": ts = [_real(x) for x in ts]
            r = ts[0]
            for x in ts[1:]: r = r + x
            return r
        if o == "mul":
            ts = [self.t(a) for a in e.args]
            if e.sort != "I": ts = [_real(x) for x in ts]
            r = ts[0]
            for x in ts[1:]: r = r * x
            return r
        if o == "pow":
            b = self.t(e.args[0]); n = e.args[1].args[0]
            if n.denominator == 1:
                k = abs(int(n))
                if k > 12: return self._powax(e, _real(b), n)
                r = b
                for _ in range(k - 1): r = r * b
                if n < 0:
                    c = self.opaque(e)
                    rr = _real(r)
                    self.ax.append(z3.Implies(rr != 0, c * rr == 1))
                    return c
                return r
            return self._powax(e, _real(b), n)
        if o == "ite":
            c, a, b = e.args
            a = self.t(a); b = self.t(b)
            if a.sort() != b.sort(): a = _real(a); b = _real(b)
            return z3.If(self.t(c), a, b)
        if o in ("eq", "lt", "le"):
            d = self.t(e.args[0])
            if o == "eq": return d == 0
            return d > 0 if o == "lt" else d >= 0
        if o == "not": return z3.Not(self.t(e.args[0]))
        if o == "and": return z3.And(*[self.t(a) for a in e.args])
        if o == "or": return z3.Or(*[self.t(a) for a in e.args])
        if o == "app": return self._app(e)
        return self.opaque(e)
    def _powax(self, e, b, n):
        c = self.opaque(e)
        self.ax.append(z3.Implies(b > 0, c > 0))
        if n > 0: self.ax.append(z3.Implies(b == 0, c == 0))
        if n == Fr(1, 2): self.ax.append(z3.Implies(b >= 0, z3.And(c >= 0, c * c == b)))
        elif n > 0:
            self.ax.append(z3.Implies(b >= 1, c >= 1)); self.ax.append(z3.Implies(z3.And(b >= 0, b <= 1), c <= 1))
            if n > 1: self.ax.append(z3.Implies(b >= 1, c >= b))
        else:
            self.ax.append(z3.Implies(b >= 1, c <= 1)); self.ax.append(z3.Implies(z3.And(b > 0, b <= 1), c >= 1))
        self._note("pow%s" % n, [b], c)
        return c
    def _note(self, head, args, c):
        """Ackermann congruence between applications of the same head"""
        l = self.apps.setdefault((head, len(args)), [])
        if len(l) < 8:
            for (as2, c2) in l:
                self.ax.append(z3.Implies(z3.And(*[x == y for x, y in zip(as2, args)]), c2 == c))
            l.append((args, c))
    def _app(self, e):
        nm = e.args[0]; c = self.opaque(e)
        if any(a.op == "lam" for a in e.args[1:]): return c
        if nm in ("isnan", "isfinite", "nan2num", "div0"): return c
        a = [self.t(x) for x in e.args[1:]]
        if any(z3.is_bool(x) for x in a): return c
        if nm == "abs": return z3.If(a[0] >= 0, a[0], -a[0])
        if nm == "sign": return z3.If(a[0] > 0, z3.IntVal(1), z3.If(a[0] < 0, z3.IntVal(-1), z3.IntVal(0)))
        if nm == "floor": return z3.ToInt(_real(a[0]))
        if nm in ("mod", "fdiv") and a[0].sort() == z3.IntSort() and a[1].sort() == z3.IntSort():
            q = z3.Int("q%d" % e.id); r = z3.Int("r%d" % e.id)
            self.ax.append(z3.Implies(a[1] > 0, z3.And(a[0] == q * a[1] + r, r >= 0, r < a[1])))
            return r if nm == "mod" else q
        ar = [_real(x) for x in a]
        self._note(nm, ar, c)
        if nm == "exp": self.ax += [c > 0, z3.Implies(ar[0] >= 0, c >= 1), z3.Implies(ar[0] <= 0, c <= 1)]
        elif nm == "log":
            self.ax += [z3.Implies(ar[0] > 1, c > 0), z3.Implies(z3.And(ar[0] > 0, ar[0] < 1), c < 0), z3.Implies(ar[0] == 1, c == 0)]
        elif nm in ("sin", "cos", "tanh"): self.ax += [c >= -1, c <= 1]
        elif nm in ("atan2",): self.ax += [c > -4, c < 4]
        elif nm == "hyp2f1": self.ax += [z3.Implies(ar[3] <= 0, z3.And(c > 0, c <= 1))]
        elif nm == "ipow":
            self.ax += [z3.Implies(z3.And(a[0] >= 1, a[1] >= 0), c >= 1), z3.Implies(z3.And(a[0] == 2, a[1] >= 1), c >= 2)]
        elif nm == "rpow": self.ax += [z3.Implies(ar[0] > 0, c > 0)]
        return c

def _conn(assumptions, goal):
    """relevance filter: assumptions connected to the goal through shared variables"""
    fv = set(goal.fv); rest = list(assumptions); out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for a in rest:
            if not a.fv or (a.fv & fv):
                out.append(a); fv |= a.fv; ch = True
            else: nr.append(a)
        rest = nr
    return out

_cache = {}
def check_sat(forms, timeout=3000, want_model=False):
    """'sat'/'unsat'/'unknown' for a conjunction of boolean terms"""
    key = (frozenset(f.id for f in forms), timeout)
    if not want_model and key in _cache: return _cache[key], None
    tr = Tr()
    zs = [tr.t(f) for f in forms]
    t0 = time.time()
    s = z3.Solver(); s.set("timeout", timeout); s.set("random_seed", 1)
    for z_ in zs: s.add(z_)
    for a in tr.ax: s.add(a)
    r = str(s.check())
    STATS["z3_calls"] += 1; STATS["z3_time"] += time.time() - t0
    if r == "unknown":
        STATS["z3_unknown"] += 1
    _cache[key] = r
    m = None
    if want_model and r == "sat":
        m = {}
        zm = s.model()
        for d in zm.decls():
            if d.arity() == 0: m[d.name()] = zm[d]
    return r, m

def entails(assumptions, goal, timeout=3000):
    """True / False / None(unknown)"""
    if goal is TRUE: return True
    if goal in assumptions: return True
    if goal is FALSE and not assumptions: return False
    rel = _conn(assumptions, goal) if goal is not FALSE else list(assumptions)
    r, _ = check_sat(rel + [not_(goal)], timeout)
    if r == "unsat": return True
    if r == "sat": return False
    return None

def feasible(assumptions, timeout=3000):
    r, _ = check_sat(list(assumptions), timeout)
    return r != "unsat"

def model_value(v):
    """z3 value -> Fraction or bool or None"""
    try:
        if z3.is_int_value(v): return Fr(v.as_long())
        if z3.is_rational_value(v): return Fr(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(30); return Fr(a.numerator_as_long(), a.denominator_as_long())
        if z3.is_true(v): return True
        if z3.is_false(v): return False
    except (Exception, Unsupported): pass
    return None
