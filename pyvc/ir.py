"""Hash-consed term language.

Sorts: I (integers), R (extended reals: numbers, NaN, infinities), B (booleans).
Numbers are mathematical (float literals of the source are read as the rational they denote in decimal).
`nan` flag of a term: its value may be NaN/inf even if its variables are ordinary numbers.
"""
from fractions import Fraction as Fr
import itertools

class Unsupported(BaseException):
    """construct outside the verifier's reach -> obligation undecided, never a violation"""

class E:
    __slots__ = ("op", "args", "sort", "id", "fv", "nan", "h", "__weakref__")
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __bool__(self): raise TypeError("E has no truth value: %s" % show(self))
    def __reduce__(self): raise TypeError("terms are not picklable")
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

_tab = {}
_ids = itertools.count(1)
_fresh = itertools.count(1)
EMPTY = frozenset()

def mk(op, args, sort, nan=None):
    key = (op, args)
    e = _tab.get(key)
    if e is not None: return e
    e = E.__new__(E)
    e.op = op; e.args = args; e.sort = sort; e.id = next(_ids)
    if op == "var": e.fv = frozenset((args[0],)); e.h = 0; e.nan = False
    else:
        fv = EMPTY; n = False; h = 0
        for a in args:
            if isinstance(a, E):
                if a.fv: fv = fv | a.fv if fv else a.fv
                n = n or a.nan
                if a.h > h: h = a.h
        e.fv = fv; e.h = h; e.nan = n
    if nan is not None: e.nan = nan
    _tab[key] = e
    return e

def const(v):
    if isinstance(v, bool): return TRUE if v else FALSE
    if not isinstance(v, Fr): v = Fr(v)
    return mk("const", (v,), "I" if v.denominator == 1 else "R")
TRUE = mk("true", (), "B"); FALSE = mk("false", (), "B")
ZERO = const(0); ONE = const(1)
PI = mk("pi", (), "R")
NAN = mk("nan", (), "R", nan=True)
INF = mk("inf", (), "R", nan=True)      # +infinity
NINF = mk("ninf", (), "R", nan=True)    # -infinity
UINF = mk("uinf", (), "R", nan=True)    # infinity of unknown sign (only produced by resolution)

def var(name, sort="R"): return mk("var", (name, sort), sort)
def fresh(prefix, sort="R"): return var("%s!%d" % (prefix, next(_fresh)), sort)
def isconst(e): return e.op == "const"
def cval(e): return e.args[0]

def _split(t):
    """t = coef * rest"""
    if t.op == "mul" and t.args[0].op == "const":
        c = t.args[0].args[0]
        r = t.args[1:]
        return c, (r[0] if len(r) == 1 else mk("mul", r, t.sort))
    return Fr(1), t

def add(*ts):
    acc = {}; k = Fr(0); order = []
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == "add": stack.extend(reversed(t.args)); continue
        if t.op == "const": k += t.args[0]; continue
        if t.op == "mul" and t.args[0].op == "const":
            c, r = _split(t)
        else: c, r = 1, t
        if r in acc: acc[r] += c
        else: acc[r] = Fr(c); order.append(r)
    out = []
    for r in order:
        c = acc[r]
        if c == 0:
            if r.nan: out.append(mk("mul", (ZERO, r), "R"))
            continue
        out.append(r if c == 1 else scale(c, r))
    if not out: return const(k)
    out.sort(key=lambda e: e.id)
    if k != 0: out.append(const(k))
    if len(out) == 1: return out[0]
    return mk("add", tuple(out), "I" if all(t.sort == "I" for t in out) else "R")

def scale(c, r):
    if r.op == "mul":
        if r.args[0].op == "const":
            return mul(const(c), r)
        return mk("mul", (const(c),) + r.args, "R" if (Fr(c).denominator != 1 or r.sort != "I") else "I")
    if r.op == "const": return const(Fr(c) * r.args[0])
    if r.op in ("nan",): return r
    return mk("mul", (const(c), r), "R" if (Fr(c).denominator != 1 or r.sort != "I") else "I")

def sub(a, b): return add(a, mul(const(-1), b))
def neg(a): return mul(const(-1), a)

def mul(*ts):
    k = Fr(1); acc = {}; order = []
    stack = list(reversed(ts)); zero_nan = []
    while stack:
        t = stack.pop()
        o = t.op
        if o == "mul": stack.extend(reversed(t.args)); continue
        if o == "const": k *= t.args[0]; continue
        if o == "pow" and t.args[1].args[0].denominator == 1 and t.args[1].args[0] > 0:
            b, n = t.args[0], t.args[1].args[0]
        else: b, n = t, Fr(1)
        if b in acc: acc[b] += n
        else: acc[b] = n; order.append(b)
    if k == 0 and not any(b.nan for b in order): return ZERO
    if len(order) == 1 and acc[order[0]] == 1 and order[0].op == "add" and k != 1 and k != 0:
        return add(*[mul(const(k), t) for t in order[0].args])
    out = [b if acc[b] == 1 else powc(b, acc[b]) for b in order]
    if not out: return const(k)
    out.sort(key=lambda e: e.id)
    if k == 1:
        if len(out) == 1: return out[0]
        return mk("mul", tuple(out), "I" if all(t.sort == "I" for t in out) else "R")
    out = [const(k)] + out
    return mk("mul", tuple(out), "I" if all(t.sort == "I" for t in out) else "R")

def powc(b, n):
    """b ** n for a rational constant n"""
    n = Fr(n)
    if n == 1: return b
    if n == 0: return ONE if not b.nan else mk("pow", (b, const(n)), "R")
    if b.op == "const":
        v = b.args[0]
        if n.denominator == 1:
            if v != 0: return const(v ** int(n))
            if n > 0: return ZERO
            return INF          # 0 ** negative (numpy: +inf for float zero)
        if v == 0 and n > 0: return ZERO
        if v == 0: return INF
        if v < 0: return NAN
        if v == 1: return ONE
        # exact roots
        r = _exact_root(v, n)
        if r is not None: return const(r)
        return mk("pow", (b, const(n)), "R", nan=False)
    if b.op == "nan": return NAN
    if b.op == "pow" and n.denominator == 1 and n > 0 and b.args[1].args[0].denominator == 1 and b.args[1].args[0] > 0:
        return powc(b.args[0], b.args[1].args[0] * n)
    if b is PI: return mk("pow", (b, const(n)), "R", nan=False)
    return mk("pow", (b, const(n)), b.sort if (b.sort == "I" and n > 0 and n.denominator == 1) else "R",
              nan=b.nan or n < 0 or n.denominator != 1)

def _iroot(v, d):
    if v < 0: return None
    r = round(v ** (1.0 / d)) if v < 10**15 else None
    if r is None: return None
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** d == v: return c
    return None

def _exact_root(v, n):
    a = _iroot(v.numerator, n.denominator); b = _iroot(v.denominator, n.denominator)
    if a is None or b is None: return None
    return Fr(a, b) ** n.numerator

def div(a, b):
    if b.op == "const":
        if b.args[0] != 0: return mul(const(1 / b.args[0]), a)
        if a.op == "const":
            v = a.args[0]
            return NAN if v == 0 else (INF if v > 0 else NINF)
        return mk("app", ("div0", a), "R", nan=True)
    return mul(a, powc(b, -1))

def power(a, b):
    if b.op == "const": return powc(a, b.args[0])
    if a.sort == "I" and b.sort == "I": return app("ipow", a, b, sort="I")
    if a.op == "const" and a.args[0] == 1: return ONE
    return mk("app", ("rpow", a, b), "R", nan=True)

def sqrt(a): return powc(a, Fr(1, 2))

# ---- booleans / comparisons
def _cmp(op, d):
    if d.op == "const":
        v = d.args[0]
        return const({"eq": v == 0, "lt": v > 0, "le": v >= 0}[op])
    if op == "eq":
        lead = d.args[0] if d.op == "add" else d
        c, _ = _split(lead)
        if c < 0: d = neg(d)
    else:
        pass
    return mk(op, (d,), "B")
def eq(a, b):
    if a.sort == "B" or b.sort == "B": return iff(a, b)
    if a is b and not a.nan: return TRUE
    return _cmp("eq", sub(a, b))
def lt(a, b): return _cmp("lt", sub(b, a))      # 0 < b-a
def le(a, b): return _cmp("le", sub(b, a))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def ne(a, b): return not_(eq(a, b))
def not_(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == "not": return c.args[0]
    if c.op == "lt" and not c.nan: return mk("le", (neg(c.args[0]),), "B")
    if c.op == "le" and not c.nan: return mk("lt", (neg(c.args[0]),), "B")
    if c.op == "and": return or_(*[not_(x) for x in c.args])
    if c.op == "or": return and_(*[not_(x) for x in c.args])
    return mk("not", (c,), "B")
def and_(*cs):
    out = []
    for c in cs:
        if c is FALSE: return FALSE
        if c is TRUE: continue
        for x in (c.args if c.op == "and" else (c,)):
            if x not in out: out.append(x)
    for x in out:
        if not_(x) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    out.sort(key=lambda e: e.id)
    return mk("and", tuple(out), "B")
def or_(*cs):
    out = []
    for c in cs:
        if c is TRUE: return TRUE
        if c is FALSE: continue
        for x in (c.args if c.op == "or" else (c,)):
            if x not in out: out.append(x)
    for x in out:
        if not_(x) in out: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    out.sort(key=lambda e: e.id)
    return mk("or", tuple(out), "B")
def implies(a, b): return or_(not_(a), b)
def iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return not_(b)
    if b is FALSE: return not_(a)
    return or_(and_(a, b), and_(not_(a), not_(b)))

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == "B": return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not": return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if not (a.nan or b.nan) and a.op not in NONFIN and b.op not in NONFIN:
        # one form for the maximum and the minimum of two terms
        p, r = (a, b) if b.op == "const" or a.op != "const" and a.id < b.id else (b, a)
        l = le(r, p)
        if c is l or c is lt(r, p): c, a, b = l, a, b
        elif c is le(p, r) or c is lt(p, r): c, a, b = l, b, a
        if a is b: return a
    return mk("ite", (c, a, b), "I" if a.sort == b.sort == "I" else "R")
NONFIN = ("inf", "ninf", "uinf", "nan")

def max_(a, b): return ite(lt(b, a), a, b) if b.nan and not a.nan else ite(lt(a, b), b, a)     # a NaN is passed on
def min_(a, b): return ite(lt(a, b), a, b) if b.nan and not a.nan else ite(lt(b, a), b, a)

# functions total on the reals and finite
TOTAL = {"sin", "cos", "exp", "abs", "sign", "floor", "ceil", "atan2", "atan", "tanh", "mod", "fdiv", "ipow"}

def app(name, *args, sort="R", nan=None):
    a = args[0] if args else None
    if name == "abs":
        if a.op == "const": return const(abs(a.args[0]))
        if a.op in ("inf", "ninf", "uinf"): return INF
        if a.op == "app" and a.args[0] in ("abs", "exp"): return a
        if a is PI: return a
        c, r = _split(a)
        if c != 1: return scale(abs(c), app("abs", r)) if r.op != "const" else const(abs(c))
        if a.op == "pow" and a.args[1].args[0].denominator == 1 and a.args[1].args[0] % 2 == 0: return a
        if a.op == "add":
            # sign-normalise
            c0, _ = _split(a.args[0])
            if c0 < 0: a = neg(a)
        sort = a.sort; args = (a,)
    elif name == "sign":
        if a.op == "const": return const((a.args[0] > 0) - (a.args[0] < 0))
        sort = "I"
    elif name in ("floor", "ceil"):
        if a.op == "const":
            import math
            return const(math.floor(a.args[0]) if name == "floor" else math.ceil(a.args[0]))
        if a.sort == "I": return a
        if name == "ceil": return neg(app("floor", neg(a)))
        # pull integer summands out
        if a.op == "add":
            ints = [t for t in a.args if t.sort == "I"]
            if ints:
                rest = [t for t in a.args if t.sort != "I"]
                return add(app("floor", add(*rest)), *ints)
        sort = "I"; nan = False     # total on the finite reals; callers treat non-finite arguments separately
    elif name in ("mod", "fdiv"):
        b = args[1]
        if a.op == "const" and b.op == "const" and b.args[0] != 0:
            return const(a.args[0] % b.args[0] if name == "mod" else a.args[0] // b.args[0])
        if b is ONE and a.sort == "I": return ZERO if name == "mod" else a
        sort = "I" if (a.sort == "I" and b.sort == "I") else "R"
        if name == "fdiv": sort = "I" if sort == "I" else "R"
    elif name == "ipow":
        if a.op == "const" and args[1].op == "const" and args[1].args[0] >= 0:
            return const(a.args[0] ** int(args[1].args[0]))
        sort = "I"
    elif name == "exp":
        if a is ZERO: return ONE
        if a.op == "app" and a.args[0] == "log": return a.args[1]
    elif name == "log":
        if a is ONE: return ZERO
        if a.op == "app" and a.args[0] == "exp": return a.args[1]
        nan = True
    elif name in ("sin", "atan", "tanh"):
        if a is ZERO: return ZERO
        c, r = _split(a)
        if c < 0: return neg(app(name, neg(a)))
        if a.op == "add" and _split(a.args[0])[0] < 0: return neg(app(name, neg(a)))
    elif name == "cos":
        if a is ZERO: return ONE
        c, r = _split(a)
        if c < 0: return app("cos", neg(a))
        if a.op == "add" and _split(a.args[0])[0] < 0: return app("cos", neg(a))
    elif name == "isnan":
        if not a.nan: return FALSE
        sort = "B"
    elif name == "isfinite":
        if not a.nan: return TRUE
        sort = "B"
    elif name == "nan2num":
        if not a.nan: return a
        nan = False
    if name in ("isnan", "isfinite"): nan = False
    return mk("app", (name,) + tuple(args), sort, nan=nan)

def uf(name, *args, sort="R"):
    """uninterpreted function application (total, finite)"""
    return mk("app", (name,) + tuple(args), sort, nan=False)

# ---- binders
def _close(bv, body_list):
    """rename bound variables bv (list) to canonical names in each body"""
    h = max([b.h for b in body_list] + [0])
    new = []; m = {}
    for v in bv:
        h += 1
        nv = var("#%d" % h, v.sort); m[v] = nv; new.append(nv)
    return new, [subst(b, m) for b in body_list], h

def sum_(bv, n, body):
    """sum_{bv=0}^{n-1} body   (n >= 0)"""
    if body is ZERO: return ZERO
    if n.op == "const":
        k = int(n.args[0])
        if k <= 0: return ZERO
        if k <= 12: return add(*[subst(body, {bv: const(i)}) for i in range(k)])
    (nv,), (nb,), h = _close([bv], [body])
    e = mk("sum", (nv, n, nb), "I" if body.sort == "I" else "R")
    e.h = max(h, n.h); e.fv = (nb.fv - {nv.args[0]}) | n.fv
    return e

def lam(bvs, body):
    nvs, (nb,), h = _close(list(bvs), [body])
    e = mk("lam", tuple(nvs) + (nb,), body.sort)
    e.h = max(h, 1); e.fv = nb.fv - {v.args[0] for v in nvs}
    e.nan = False
    return e

def lam_apply(l, args):
    bvs = l.args[:-1]
    return subst(l.args[-1], dict(zip(bvs, args)))

def open_binder(e):
    """returns fresh vars, opened bodies"""
    if e.op == "sum":
        bv, n, body = e.args
        f = fresh("o", bv.sort)
        return [f], n, subst(body, {bv: f})
    if e.op == "lam":
        fs = [fresh("o", v.sort) for v in e.args[:-1]]
        return fs, None, subst(e.args[-1], dict(zip(e.args[:-1], fs)))
    raise ValueError

def rebuild(e, args):
    o = e.op
    if o == "add": return add(*args)
    if o == "mul": return mul(*args)
    if o == "pow": return powc(args[0], args[1].args[0])
    if o == "ite": return ite(*args)
    if o in ("eq", "lt", "le"): return _cmp(o, args[0])
    if o == "not": return not_(args[0])
    if o == "and": return and_(*args)
    if o == "or": return or_(*args)
    if o == "app":
        nm = e.args[0]
        if nm == "rpow": return power(args[0], args[1])
        if nm == "div0": return e if args[0] is e.args[1] else div(args[0], ZERO)
        return app(nm, *args, sort=e.sort, nan=(None if nm in _SIMP else (e.nan and any(a.nan for a in args) or e.nan)))
    raise ValueError(o)
_SIMP = {"abs", "sign", "floor", "ceil", "mod", "fdiv", "ipow", "exp", "log", "sin", "cos", "atan", "tanh", "isnan", "isfinite", "nan2num"}

def subst(e, m, memo=None):
    """m: dict E(var or term) -> E"""
    if not m: return e
    names = frozenset(k.args[0] for k in m if k.op == "var")
    terms = any(k.op != "var" for k in m)
    if memo is None: memo = {}
    def go(t):
        if t in m: return m[t]
        if not terms and not (t.fv & names): return t
        r = memo.get(t)
        if r is not None: return r
        o = t.op
        if o in ("const", "var", "pi", "true", "false", "nan", "inf", "ninf", "uinf"): r = t
        elif o == "sum":
            fs, n, body = open_binder(t)
            r = sum_(fs[0], go(n), go(body))
        elif o == "lam":
            fs, _, body = open_binder(t)
            r = lam(fs, go(body))
        elif o == "app":
            r = rebuild(t, [go(a) for a in t.args[1:]])
        else:
            r = rebuild(t, [go(a) for a in t.args])
        memo[t] = r
        return r
    import sys
    return go(e)

def subterms(e, pred, into_binders=False, seen=None, out=None):
    if seen is None: seen = set(); out = []
    st = [e]
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if pred(t): out.append(t)
        if t.op in ("sum", "lam") and not into_binders:
            if t.op == "sum": st.append(t.args[1])
            continue
        for a in t.args:
            if isinstance(a, E): st.append(a)
    return out

def show(e, depth=0):
    o = e.op
    if depth > 14: return "..."
    d = depth + 1
    if o == "const": return str(e.args[0])
    if o == "var": return e.args[0]
    if o in ("pi", "true", "false", "nan", "inf", "ninf", "uinf"): return o
    if o == "add": return "(" + " + ".join(show(a, d) for a in e.args) + ")"
    if o == "mul": return "*".join(show(a, d) for a in e.args)
    if o == "pow": return "%s^(%s)" % (show(e.args[0], d), e.args[1].args[0])
    if o == "ite": return "(if %s then %s else %s)" % tuple(show(a, d) for a in e.args)
    if o in ("eq", "lt", "le"): return "(0 %s %s)" % ({"eq": "=", "lt": "<", "le": "<="}[o], show(e.args[0], d))
    if o in ("and", "or"): return "(" + (" %s " % o).join(show(a, d) for a in e.args) + ")"
    if o == "not": return "not " + show(e.args[0], d)
    if o == "app": return "%s(%s)" % (e.args[0], ", ".join(show(a, d) for a in e.args[1:]))
    if o == "sum": return "SUM[%s<%s](%s)" % (show(e.args[0]), show(e.args[1], d), show(e.args[2], d))
    if o == "lam": return "lam %s. %s" % (",".join(show(a) for a in e.args[:-1]), show(e.args[-1], d))
    return "%s%s" % (o, e.args)

# ---- complex element values
class Cx:
    __slots__ = ("re", "im")
    def __init__(s, re, im): s.re = re; s.im = im
    def __repr__(s): return "Cx(%r, %r)" % (s.re, s.im)

def re_(v): return v.re if isinstance(v, Cx) else v
def im_(v): return v.im if isinstance(v, Cx) else ZERO
def b2n(v):
    if isinstance(v, E) and v.sort == "B": return ite(v, ONE, ZERO)
    return v
def vadd(a, b):
    a = b2n(a); b = b2n(b)
    if isinstance(a, Cx) or isinstance(b, Cx): return Cx(add(re_(a), re_(b)), add(im_(a), im_(b)))
    return add(a, b)
def vneg(a):
    a = b2n(a)
    return Cx(neg(a.re), neg(a.im)) if isinstance(a, Cx) else neg(a)
def vsub(a, b): return vadd(a, vneg(b))
def vmul(a, b):
    a = b2n(a); b = b2n(b)
    if isinstance(a, Cx) and isinstance(b, Cx):
        return Cx(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))
    if isinstance(a, Cx): return Cx(mul(a.re, b), mul(a.im, b))
    if isinstance(b, Cx): return Cx(mul(a, b.re), mul(a, b.im))
    return mul(a, b)
def vdiv(a, b):
    a = b2n(a); b = b2n(b)
    if isinstance(b, Cx):
        d = add(mul(b.re, b.re), mul(b.im, b.im))
        n = vmul(a, Cx(b.re, neg(b.im)))
        return Cx(div(n.re, d), div(n.im, d))
    if isinstance(a, Cx): return Cx(div(a.re, b), div(a.im, b))
    return div(a, b)
def vconj(a): return Cx(a.re, neg(a.im)) if isinstance(a, Cx) else a
def vabs2(a): return add(mul(a.re, a.re), mul(a.im, a.im)) if isinstance(a, Cx) else mul(a, a)
def vabs(a): return sqrt(vabs2(a)) if isinstance(a, Cx) else app("abs", a)
def vite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, Cx) or isinstance(b, Cx): return Cx(ite(c, re_(a), re_(b)), ite(c, im_(a), im_(b)))
    if a.sort == "B" and b.sort != "B": a = b2n(a)
    if b.sort == "B" and a.sort != "B": b = b2n(b)
    return ite(c, a, b)
def vpow(a, b):
    a = b2n(a)
    if isinstance(a, Cx):
        if isinstance(b, E) and b.op == "const" and b.args[0].denominator == 1 and 0 < b.args[0] <= 4:
            r = a
            for _ in range(int(b.args[0]) - 1): r = vmul(r, a)
            return r
        raise Unsupported("complex power")
    return power(a, b)
def vexp(a):
    if isinstance(a, Cx):
        m = app("exp", a.re)
        return Cx(mul(m, app("cos", a.im)), mul(m, app("sin", a.im)))
    return app("exp", a)
def vsum(bv, n, body):
    if isinstance(body, Cx): return Cx(sum_(bv, n, body.re), sum_(bv, n, body.im))
    return sum_(bv, n, b2n(body))
def vsubst(v, m):
    if isinstance(v, Cx): return Cx(subst(v.re, m), subst(v.im, m))
    return subst(v, m)
