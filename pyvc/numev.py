"""Numeric evaluation of terms (mpmath, extended reals) and search for counterexamples."""
import time, random, math, hashlib
from fractions import Fraction as Fr
import mpmath as mp
from .ir import *

mp.mp.dps = 60
TINY = mp.mpf(10) ** -42
INFV = mp.inf; NANV = mp.nan
class CannotEval(Exception): pass
DECL = {}        # uninterpreted function name -> "pos" | "nonneg"
def declare(name, sign): DECL[name] = sign

def isnan_(x): return isinstance(x, mp.mpf) and mp.isnan(x)
def isinf_(x): return isinstance(x, mp.mpf) and mp.isinf(x)

def ovkey(nm, a): return (nm,) + tuple(mp.nstr(mp.mpf(int(x) if isinstance(x, bool) else x), 15) for x in a)
BUILTIN = {"isnan", "isfinite", "nan2num", "div0", "abs", "sign", "floor", "mod", "fdiv", "ipow", "exp", "log", "sin", "cos", "atan", "tanh", "atan2", "rpow", "hyp2f1"}
def movable(f, names):
    """variables and uninterpreted applications (outside binders) whose value may be chosen"""
    out = [n for n in sorted(f.fv) if n in names]
    for t in subterms(f, lambda t: t.op == "app" and t.sort == "R" and t.args[0] not in BUILTIN and not t.args[0].startswith("#") and all(isinstance(x, E) and x.op != "lam" for x in t.args[1:])):
        if t.args[0] not in LAMS and all(n in names for n in t.fv): out.append(t)
    return out
class Ev:
    lazy = False
    def __init__(self, env, seed=0):
        self.env = env; self.seed = seed; self.memo = {}; self.steps = 0
    def __call__(self, e): return self.ev(e, self.memo)
    def ev(self, e, memo):
        r = memo.get(e)
        if r is None:
            r = self._ev(e, memo); memo[e] = r
        return r
    def _ev(self, e, memo):
        self.steps += 1
        if self.steps > 400000: raise CannotEval("too long")
        o = e.op; ev = self.ev
        if o == "const":
            v = e.args[0]
            return int(v) if v.denominator == 1 else mp.mpf(v.numerator) / v.denominator
        if o == "var":
            if e.args[0] in self.env: return self.env[e.args[0]]
            if self.lazy:
                h = int(hashlib.sha1(("%s/%d" % (e.args[0], self.seed)).encode()).hexdigest()[:12], 16)
                v = (h % 5) + 1 if e.args[1] == "I" else (bool(h & 1) if e.args[1] == "B" else mp.mpf(h % 9973 + 500) / 4001)
                self.env[e.args[0]] = v; return v
            raise CannotEval("unassigned " + e.args[0])
        if o == "pi": return mp.pi + 0
        if o == "true": return True
        if o == "false": return False
        if o == "nan": return NANV
        if o == "inf": return INFV
        if o == "ninf": return -INFV
        if o == "uinf": raise CannotEval("uinf")
        if o == "add":
            r = 0
            for a in e.args: r = r + ev(a, memo)
            return r
        if o == "mul":
            r = 1
            for a in e.args:
                x = ev(a, memo)
                if (isinf_(r) and x == 0) or (isinf_(x) and r == 0): return NANV
                r = r * x
            return r
        if o == "pow": return self.pw(ev(e.args[0], memo), e.args[1].args[0])
        if o == "ite":
            return ev(e.args[1] if ev(e.args[0], memo) else e.args[2], memo)
        if o in ("eq", "lt", "le"):
            d = ev(e.args[0], memo)
            if isnan_(d): return False
            if o == "eq":
                if d == 0: return True
                # equality up to rounding of the 60-digit evaluation
                return isinstance(d, mp.mpf) and not isinf_(d) and abs(d) < mp.mpf(10) ** -42
            if o == "lt": return d > mp.mpf(10) ** -42
            return d > -mp.mpf(10) ** -42
        if o == "not": return not ev(e.args[0], memo)
        if o == "and": return all(ev(a, memo) for a in e.args)
        if o == "or": return any(ev(a, memo) for a in e.args)
        if o == "sum":
            bv, n, body = e.args
            k = int(ev(n, memo))
            if k > 60: raise CannotEval("long sum")
            r = 0
            for i in range(k): r = r + self.at(body, {bv: i})
            return r
        if o == "app": return self.apply(e, memo)
        raise CannotEval(o)
    def at(self, body, b):
        """evaluate with bound variables assigned"""
        old = {}
        for v, x in b.items():
            old[v] = self.env.get(v.args[0]); self.env[v.args[0]] = x
        try:
            names = {v.args[0] for v in b}
            return self.ev(body, Layer(self.memo, names))
        finally:
            for v, x in old.items():
                if x is None: self.env.pop(v.args[0], None)
                else: self.env[v.args[0]] = x
    def pw(self, b, q):
        if isnan_(b): return NANV
        if q.denominator == 1:
            n = int(q)
            if isinf_(b):
                if n == 0: return 1
                if n < 0: return mp.mpf(0)
                return b if n % 2 else INFV
            if b == 0:
                return mp.mpf(0) if n > 0 else (INFV if n < 0 else 1)
            if n < 0: return 1 / (mp.mpf(b) ** (-n))
            return b ** n
        if isinf_(b): return (INFV if q > 0 else mp.mpf(0)) if b > 0 else NANV
        if b < 0: return NANV
        if b == 0: return mp.mpf(0) if q > 0 else INFV
        return mp.mpf(b) ** (mp.mpf(q.numerator) / q.denominator)
    def hashu(self, *k):
        h = hashlib.blake2b(repr((self.seed,) + k).encode(), digest_size=8).digest()
        return int.from_bytes(h, "big") / 2.0 ** 64
    def apply(self, e, memo):
        nm = e.args[0]; ev = self.ev
        if nm in ("isnan", "isfinite", "nan2num"):
            x = ev(e.args[1], memo)
            if nm == "isnan": return isnan_(x)
            if nm == "isfinite": return not (isnan_(x) or isinf_(x))
            if isnan_(x): return mp.mpf(0)
            if isinf_(x): return mp.mpf(10) ** 308 * (1 if x > 0 else -1)
            return x
        if nm == "div0":
            x = ev(e.args[1], memo)
            return NANV if isnan_(x) or x == 0 else (INFV if x > 0 else -INFV)
        if nm in LAMS and any(a.op == "lam" for a in e.args[1:]): return LAMS[nm](self, e, memo)
        if any(a.op == "lam" for a in e.args[1:]): return self.functional(e, memo)
        a = [ev(x, memo) for x in e.args[1:]]
        if any(isnan_(x) for x in a): return NANV
        if nm == "abs": return abs(a[0])
        if nm == "sign": return (a[0] > TINY) - (a[0] < -TINY)
        if nm == "floor":
            if isinf_(a[0]): return a[0]
            return int(mp.floor(a[0] + TINY))
        if nm in ("mod", "fdiv"):
            if a[1] == 0: return NANV
            q = int(mp.floor(mp.mpf(a[0]) / a[1] + TINY))
            return q if nm == "fdiv" else a[0] - q * a[1]
        if nm == "ipow":
            if a[1] > 64: raise CannotEval("ipow")
            return int(a[0]) ** int(a[1]) if a[1] >= 0 else mp.mpf(a[0]) ** int(a[1])
        if nm == "exp":
            if a[0] > 5000: return INFV
            return mp.exp(a[0])
        if nm == "log":
            if a[0] < 0: return NANV
            if a[0] == 0: return -INFV
            return mp.log(a[0])
        if nm == "sin": return mp.sin(a[0]) if not isinf_(a[0]) else NANV
        if nm == "cos": return mp.cos(a[0]) if not isinf_(a[0]) else NANV
        if nm == "atan": return mp.atan(a[0])
        if nm == "tanh": return mp.tanh(a[0])
        if nm == "atan2":
            if a[0] == 0 and a[1] == 0: return mp.mpf(0)
            if isinf_(a[0]) or isinf_(a[1]): raise CannotEval("atan2 inf")
            return mp.atan2(a[0], a[1])
        if nm == "rpow":
            if a[0] < 0:
                return NANV
            if a[0] == 0: return mp.mpf(0) if a[1] > 0 else (INFV if a[1] < 0 else 1)
            if isinf_(a[0]) or isinf_(a[1]): raise CannotEval("rpow inf")
            return mp.mpf(a[0]) ** a[1]
        if nm == "hyp2f1":
            if isinf_(a[3]): return mp.mpf(0) if a[3] < 0 else NANV
            return mp.re(mp.hyp2f1(*a))
        ov = self.env.get("#ov")
        if ov and e.sort == "R":
            k = ovkey(nm, a)
            if k in ov: return ov[k]
        return self.ufval(nm, e.sort, a)
    def ufval(self, nm, sort, a):
        if sort == "I": return int(self.hashu(nm, tuple(str(mp.nstr(mp.mpf(x), 15)) for x in a)) * 5)
        if sort == "B": return self.hashu(nm, tuple(str(mp.nstr(mp.mpf(x), 15)) for x in a)) < 0.5
        r = mp.mpf(self.hashu(nm, "c") * 2 - 1)
        for j, x in enumerate(a):
            if isinstance(x, bool): x = int(x)
            if isinf_(x) or isnan_(x): return NANV
            r += (0.5 + self.hashu(nm, j, "a")) * mp.sin((0.7 + 1.3 * self.hashu(nm, j, "b")) * x + 6 * self.hashu(nm, j, "p"))
        if len(a) > 1:
            s = sum((0.6 + self.hashu(nm, j, "m")) * (int(x) if isinstance(x, bool) else x) for j, x in enumerate(a))
            r += (0.3 + self.hashu(nm, "x")) * mp.cos(s + 6 * self.hashu(nm, "y"))
        d = DECL.get(nm)
        if d == "pos": r = mp.exp(r)
        elif d == "nonneg": r = abs(r)
        return r
    def functional(self, e, memo):
        """pseudo-random smooth functional of lambda arguments"""
        a = []
        for x in e.args[1:]:
            if x.op == "lam":
                bvs = x.args[:-1]
                for t in range(3):
                    b = {}
                    for q, v in enumerate(bvs):
                        b[v] = (t + q) % 3 if v.sort == "I" else mp.mpf("0.37") + mp.mpf("0.53") * t + q * mp.mpf("0.21")
                    y = self.at(x.args[-1], b)
                    a.append(y)
            else: a.append(self.ev(x, memo))
        if any(isnan_(x) or isinf_(x) for x in a): return NANV
        return self.ufval(e.args[0], e.sort, [int(x) if isinstance(x, bool) else x for x in a])

class Layer(dict):
    """memo that falls through for terms not depending on the bound names"""
    def __init__(self, base, names): dict.__init__(self); self.base = base; self.names = names
    def get(self, e, d=None):
        if not (e.fv & self.names): return self.base.get(e, d)
        return dict.get(self, e, d)
    def __setitem__(self, e, v):
        if not (e.fv & self.names): self.base[e] = v
        else: dict.__setitem__(self, e, v)

def _lamvals(ev, e, memo, first=None):
    l = e.args[1]; bvs = l.args[:-1]
    dims = [int(ev.ev(x, memo)) for x in e.args[2:2 + len(bvs)]]
    import itertools
    tot = 1
    for d in dims: tot *= max(d, 0)
    if tot > 200: raise CannotEval("large array")
    return [ev.at(l.args[-1], dict(zip(bvs, ix))) for ix in itertools.islice(itertools.product(*[range(d) for d in dims]), first)]
def _arrmax(ev, e, memo):
    v = _lamvals(ev, e, memo)
    if not v: raise CannotEval("empty")
    return max(v)
def _arrmin(ev, e, memo):
    v = _lamvals(ev, e, memo)
    if not v: raise CannotEval("empty")
    return min(v)
def _exists(ev, e, memo):
    b = e.args[1].args[-1]
    return any(_lamvals(ev, e, memo, 2 if b.op == "app" and b.args[0] == "isnan" else None))
def _count(ev, e, memo): return sum(1 for x in _lamvals(ev, e, memo) if x)
def _sel(ev, e, memo):
    v = _lamvals(ev, e, memo); j = int(ev.ev(e.args[3], memo))
    ix = [i for i, x in enumerate(v) if x]
    if not 0 <= j < len(ix): raise CannotEval("sel")
    return ix[j]
def _rank(ev, e, memo):
    v = _lamvals(ev, e, memo); i = int(ev.ev(e.args[3], memo))
    return sum(1 for x in v[:i] if x)
def _sorted(ev, e, memo):
    v = sorted(_lamvals(ev, e, memo)); j = int(ev.ev(e.args[3], memo))
    if not 0 <= j < len(v): raise CannotEval("sorted")
    return v[j]
def _uniq(ev, e, memo):
    v = sorted(_lamvals(ev, e, memo)); o = []
    for x in v:
        if not o or abs(x - o[-1]) > mp.mpf(10) ** -20: o.append(x)
    return o
def _unique(ev, e, memo):
    o = _uniq(ev, e, memo); j = int(ev.ev(e.args[3], memo))
    if not 0 <= j < len(o): raise CannotEval("unique")
    return o[j]
LAMS = {"arrmax": _arrmax, "arrmin": _arrmin, "exists": _exists, "count": _count, "sel": _sel, "rank": _rank,
        "sorted": _sorted, "unique": _unique, "ucount": lambda ev, e, memo: len(_uniq(ev, e, memo))}

# ---- sampling
def sample(rnd, names):
    env = {}
    mode = rnd.random()
    for n, s in names.items():
        if s == "I": env[n] = rnd.choice((0, 1, 2, 3, 4, 5, 6, 7)) if mode < .8 else rnd.randrange(0, 12)
        elif s == "B": env[n] = rnd.random() < .5
        else:
            u = rnd.random()
            if u < .45: x = rnd.uniform(.1, 3)
            elif u < .8: x = rnd.uniform(-3, 3)
            elif u < .9: x = math.exp(rnd.uniform(-4, 4))
            elif u < .95: x = float(rnd.randrange(-3, 4))
            else: x = 0.0
            env[n] = mp.mpf(Fr(round(x * 10 ** 6), 10 ** 6).numerator) / Fr(round(x * 10 ** 6), 10 ** 6).denominator
    return env

def varnames(fs):
    names = {}
    for f in fs:
        for t in subterms(f, lambda t: t.op == "var", into_binders=True):
            if t.args[0] in f.fv: names[t.args[0]] = t.args[1]
    return names

def offset(rnd, root):
    if rnd.random() < .6 or root == 0: return rnd.uniform(.05, 2)
    return abs(root) * rnd.uniform(.01, .6)
def override(rnd, env, seed, f, t):
    """choose the value of an uninterpreted application so that the atom f holds"""
    at = f.args[0] if f.op == "not" else f; want = f.op != "not"
    if at.op not in ("eq", "lt", "le"): return dict(env)
    try:
        ev = Ev(env, seed); a = [ev(x) for x in t.args[1:]]
        if any(isnan_(x) or isinf_(x) for x in a): return None
        k = ovkey(t.args[0], a); base = env.get("#ov") or {}
        def at_(x): return Ev(dict(env, **{"#ov": {**base, k: mp.mpf(x)}}), seed)(at.args[0])
        c0, c1 = at_(0), at_(1); sl = c1 - c0
        if isnan_(sl) or isinf_(sl) or sl == 0: return dict(env)
        root = -mp.mpf(c0) / sl; up = (sl > 0) == want
        x = root if at.op == "eq" and want or at.op == "le" and want and rnd.random() < .4 else root + (1 if up else -1) * offset(rnd, root)
        d = DECL.get(t.args[0])
        if d and x <= 0:
            if root <= 0: return dict(env)
            x = root * rnd.uniform(.05, .95) if not up else root * rnd.uniform(1.05, 2)
        return dict(env, **{"#ov": {**base, k: x}})
    except (CannotEval, OverflowError, ZeroDivisionError, ValueError, TypeError): return dict(env)
def repair(rnd, env, seed, A, names, tries=60):
    """move variables until the atoms of A hold; returns evaluator or None"""
    for _ in range(tries):
        ev = Ev(env, seed)
        bad = []
        try:
            for f in A:
                if not ev(f): bad.append(f)
        except CannotEval: 
            return None
        except (OverflowError, ZeroDivisionError, ValueError, TypeError): return None
        if not bad: return ev
        f = rnd.choice(bad)
        for _ in range(4):
            if f.op in ("or", "and"): f = rnd.choice(f.args)
            elif f.op == "not" and f.args[0].op in ("or", "and"): f = not_(rnd.choice(f.args[0].args))
            else: break
        vs = movable(f, names)
        if not vs: return None
        n = rnd.choice(vs)
        if isinstance(n, E):
            env = override(rnd, env, seed, f, n)
            if env is None: return None
            continue
        if names[n] == "B": env = dict(env); env[n] = not env[n]; continue
        at = f.args[0] if f.op == "not" else f
        if at.op not in ("eq", "lt", "le"):
            env = dict(env); env[n] = sample(rnd, {n: names[n]})[n]; continue
        d = at.args[0]
        e0 = dict(env); e0[n] = 0; e1 = dict(env); e1[n] = 1
        try:
            c0 = Ev(e0, seed)(d); c1 = Ev(e1, seed)(d)
            k = c1 - c0
            if isnan_(k) or isinf_(k) or k == 0: raise CannotEval("flat")
            root = -mp.mpf(c0) / k
            if f.op == "eq": x = root
            elif f.op == "not": x = root + rnd.choice((1, -1)) * rnd.choice((1, 2))
            else: x = root + (1 if k > 0 else -1) * (rnd.choice((0, 1, 2)) if f.op == "le" or names[n] == "I" and rnd.random() < .5 else offset(rnd, root))
            if names[n] == "I": x = int(mp.ceil(x)) if k > 0 else int(mp.floor(x))
            if abs(x) > 1e6: raise CannotEval("far")
        except (CannotEval, OverflowError, ZeroDivisionError, ValueError, TypeError):
            x = sample(rnd, {n: names[n]})[n]
        env = dict(env); env[n] = x
    return None

def models(A, extra, n=40, seed=1, tries=None, limit=20):
    """generator of evaluators satisfying A"""
    t0 = time.time()
    rnd = random.Random(seed)
    names = varnames(list(A) + list(extra))
    got = 0
    for t in range(tries or n * 6):
        if time.time() - t0 > limit: return
        env = sample(rnd, names)
        ev = repair(rnd, env, seed * 100003 + t, A, names)
        if ev is None: continue
        got += 1
        yield ev
        if got >= n: return

def differ(x, y, tol=mp.mpf(10) ** -9):
    if isnan_(x) or isnan_(y): return not (isnan_(x) and isnan_(y))
    if isinf_(x) or isinf_(y): return x != y
    m = max(abs(x), abs(y))
    return abs(x - y) > tol * m and abs(x - y) > mp.mpf(10) ** -36

def envstr(ev):
    d = {k: (mp.nstr(v, 12) if isinstance(v, mp.mpf) else str(v)) for k, v in sorted(ev.env.items()) if not k.startswith("#")}
    for k, v in (ev.env.get("#ov") or {}).items(): d["%s(%s)" % (k[0], ", ".join(k[1:]))] = mp.nstr(v, 12)
    return d
