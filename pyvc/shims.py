"""Assumed contracts on dependencies, as executable shims: builtins, numpy, scipy, torch, stdlib I/O."""
import types, itertools, math as _math, os as _os, copy as _copy, builtins as B
from .ir import *
from .sym import *
from . import sym, ctx, loops
from .ctx import State, decide, ent
from .loops import to_siter, SIter

class World:
    """ghost state of one run: files, random streams, recorded calls"""
    def __init__(self):
        self.files = {}; self.rng = {}; self.calls = []; self.count = 0; self.hooks = {}
    def draw(self, stream):
        k = self.rng.get(stream, 0); self.rng[stream] = k + 1; return k
W = World()
def reset_world():
    global W
    W = World()
    return W
def world(): return W

class Mod(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name); self.__dict__.update(kw); self.__dict__["_nm"] = name
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Missing(self.__dict__.get("_nm", "?") + "." + n)
class Missing:
    """attribute of a dependency without a contract: using it makes the obligation undecided"""
    def __init__(self, n): self.__dict__["_n"] = n
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Missing(self._n + "." + n)
    def __call__(self, *a, **k): raise Unsupported("no contract for " + self._n)
    def __or__(self, o): return o
    def __ror__(self, o): return o
    def __getitem__(self, k): return self
    def __mro_entries__(self, bases): return (object,)

class Stub:
    """absorbing object for plotting / logging libraries"""
    def __init__(self, n="stub"): self.__dict__["_n"] = n
    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"): raise AttributeError(n)
        return Stub(self._n + "." + n)
    def __setattr__(self, n, v): pass
    def __call__(self, *a, **k):
        if len(a) == 1 and not k and callable(a[0]) and not isinstance(a[0], (S, SArr, Stub)): return a[0]
        return Stub(self._n + "()")
    def __getitem__(self, k): return Stub(self._n + "[]")
    def __setitem__(self, k, v): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __or__(self, o): return self
    def __ror__(self, o): return self
    def __mro_entries__(self, bases): return (object,)
    def __iter__(self): raise Unsupported("iteration over a stubbed library object")

# ------------------------------------------------------------------ builtins
class _IM(type):
    def __instancecheck__(cls, x): return cls._chk(x)
    def __subclasscheck__(cls, c): return type.__subclasscheck__(cls, c)
    def __eq__(cls, o): return cls is o or o is getattr(cls, "_real", None)
    def __hash__(cls): return hash(cls._real)
class int_(int, metaclass=_IM):
    _real = int
    @staticmethod
    def _chk(x): return (isinstance(x, int) and True) or (isinstance(x, S) and skind(x) in ("i", "b"))
    def __new__(cls, x=0, base=None):
        if isinstance(x, str): return int(x) if base is None else int(x, base)
        if isinstance(x, SArr): x = x.item()
        if isinstance(x, S):
            v = x.v
            if isinstance(v, Cx): raise TypeError("int() argument must be a real number")
            return S(trunc(need_finite(b2n(v))))
        if isinstance(x, Missing) or x is None: raise TypeError("int() argument must be a string or a real number, not 'NoneType'")
        return int(x)
int_.__name__ = "int"
class float_(float, metaclass=_IM):
    _real = float
    @staticmethod
    def _chk(x): return isinstance(x, float) or (isinstance(x, S) and skind(x) == "f")
    def __new__(cls, x=0):
        if isinstance(x, str):
            if x.strip().lower() in ("inf", "+inf", "infinity"): return S(INF, "f")
            if x.strip().lower() == "-inf": return S(NINF, "f")
            if x.strip().lower() == "nan": return S(NAN, "f")
            return S(const(Fr(x)), "f")
        if x is None: raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
        return S(b2n(val(x)), "f")
float_.__name__ = "float"
class bool_(int, metaclass=_IM):
    _real = bool
    @staticmethod
    def _chk(x): return isinstance(x, bool) or (isinstance(x, S) and skind(x) == "b")
    def __new__(cls, x=False):
        return True if x else False
bool_.__name__ = "bool"
class complex_(complex, metaclass=_IM):
    _real = complex
    @staticmethod
    def _chk(x): return isinstance(x, complex) or (isinstance(x, S) and isinstance(x.v, Cx))
    def __new__(cls, a=0, b=0): return S(Cx(re_(b2n(val(a))), b2n(val(b))))
complex_.__name__ = "complex"
class list_(list, metaclass=_IM):
    _real = list
    @staticmethod
    def _chk(x): return isinstance(x, (list, SList))
    def __new__(cls, x=()):
        s = to_siter(x)
        if s is not None: return SList(s.n, s.get)
        return PList(x)
    def __class_getitem__(cls, k): return list[object]
list_.__name__ = "list"
class tuple_(tuple, metaclass=_IM):
    _real = tuple
    @staticmethod
    def _chk(x): return isinstance(x, tuple)
    def __new__(cls, x=()):
        s = to_siter(x)
        if s is not None: return SList(s.n, s.get)
        return tuple(x)
    def __class_getitem__(cls, k): return tuple[object]
tuple_.__name__ = "tuple"

def isinstance_(x, t):
    if isinstance(t, tuple): return any(isinstance_(x, q) for q in t)
    if isinstance(t, types.UnionType): return any(isinstance_(x, q) for q in t.__args__)
    if t is int: return int_._chk(x)
    if t is float: return float_._chk(x)
    if t is bool: return bool_._chk(x)
    if t is complex: return complex_._chk(x)
    if t is list: return isinstance(x, (list, SList))
    if isinstance(t, Missing): raise Unsupported("isinstance with unknown class")
    if isinstance(t, Stub): return False
    return isinstance(x, t)
def len_(x):
    if hasattr(x, "rows") and hasattr(x, "complete"): return dimS(x.rows)
    if type(x).__name__ == "Mapping" and hasattr(x, "shape_"): return dimS(x.shape_[0])
    if isinstance(x, SArr):
        if not x.shape_: raise TypeError("len() of unsized object")
        return dimS(x.shape_[0])
    if isinstance(x, (SList, SIter)): return dimS(x.n)
    if isinstance(x, PList) and x.tail: return dimS(x.as_slist().n)
    if isinstance(x, S): raise TypeError("object of type 'float' has no len()")
    return len(x)
def _seq(args): return list(args[0]) if len(args) == 1 else list(args)
def minmax(which):
    def f(*args, key=None, default=None):
        if len(args) == 1 and to_siter(args[0]) is not None:
            s = to_siter(args[0])
            if key: raise Unsupported("min/max with key over symbolic list")
            bv = fresh("m", "I"); return S(uf("arr" + which, lam([bv], b2n(val(s.get(bv)))), s.n), skind(s.get(bv)))
        xs = _seq(args)
        if not xs:
            if default is not None: return default
            raise ValueError("%s() iterable argument is empty" % which)
        ks = [key(x) for x in xs] if key else xs
        if all(isinstance(k, (int, str)) and not isinstance(k, S) for k in ks): return (B.max if which == "max" else B.min)(xs, key=key) if key else (B.max if which == "max" else B.min)(xs)
        if key is None and all(isinstance(x, (S, int, float)) or isinstance(x, SArr) and not x.shape_ for x in xs):
            r = b2n(val(xs[0])); kd = skind(xs[0])
            for x in xs[1:]:
                v = b2n(val(x)); kd = promote(kd, skind(x))
                # python: max keeps the first of equals; max(a,b): b > a ? b : a
                r = ite(gt(v, r), v, r) if which == "max" else ite(lt(v, r), v, r)
            return S(r, kd)
        best, bk = xs[0], ks[0]
        for x, k in zip(xs[1:], ks[1:]):
            if (k > bk) if which == "max" else (k < bk): best, bk = x, k
        return best
    return f
def sum_py(x, start=0):
    s = to_siter(x)
    if s is not None: return SList(s.n, s.get).sum(start)
    r = start
    for y in x: r = r + y
    return r
def abs_py(x): return abs(x)
def any_(x):
    s = to_siter(x)
    if s is not None: raise Unsupported("any over a symbolic list")
    for y in x:
        if y: return True
    return False
def all_(x):
    s = to_siter(x)
    if s is not None: raise Unsupported("all over a symbolic list")
    for y in x:
        if not y: return False
    return True
def round_(x, n=None):
    if isinstance(x, (S, SArr)): raise Unsupported("round")
    return round(x, n) if n is not None else round(x)
def sorted_(x, key=None, reverse=False):
    if to_siter(x) is not None: raise Unsupported("sorted")
    xs = list(x)
    if all(isinstance(y, (int, str)) for y in xs): return PList(sorted(xs, key=key, reverse=reverse))
    if key is None and len(xs) <= 6:
        out = []
        for y in xs:
            i = 0
            while i < len(out) and bool(out[i] <= y if not reverse else out[i] >= y): i += 1
            out.insert(i, y)
        return PList(out)
    raise Unsupported("sorted")
def pow_b(a, b, m=None): return a ** b
def divmod_(a, b): return (a // b, a % b)
def repr_(x): return repr(x)

_FIN = {}
def need_finite(e):
    """conversion to an integer raises for NaN and infinities"""
    if not e.nan: return e
    f = app("isfinite", e)
    if f is TRUE: return e
    A = list(ctx.assumptions()); key = (f.id, frozenset(a.id for a in A))
    if key not in _FIN:
        from . import prove
        _FIN[key] = prove.prove(f, A, 3, refute=False).status == "proved"
    if not _FIN[key] and not decide(f): raise OverflowError("cannot convert a non-finite float to integer")
    return e
class GhostFile:
    def __init__(s, path, mode): s.path = str(path); s.mode = mode
    def __enter__(s): return s
    def __exit__(s, *a): return False
    def close(s): pass
    def write(s, x): W.files[s.path] = W.files.get(s.path, "") + str(x)
    def read(s, *a):
        if s.path not in W.files: raise FileNotFoundError(s.path)
        return W.files[s.path]
    def flush(s): pass
def open_(path, mode="r", *a, **k):
    p = str(path)
    if "w" in mode: W.files[p] = None
    elif p not in W.files: raise FileNotFoundError("[Errno 2] No such file or directory: %r" % p)
    return GhostFile(path, mode)

def print_(*a, **k): pass

def make_builtins(loader):
    d = dict(B.__dict__)
    d.update(int=int_, float=float_, bool=bool_, complex=complex_, list=list_, tuple=tuple_, isinstance=isinstance_, len=len_, range=loops.rng,
             enumerate=loops.enum, zip=loops.zip_, reversed=loops.reversed_, map=loops.map_, max=minmax("max"), min=minmax("min"),
             sum=sum_py, any=any_, all=all_, round=round_, sorted=sorted_, pow=pow_b, divmod=divmod_, open=open_, print=print_,
             __import__=loader.importer)
    for n in ("exec", "eval", "compile", "input", "exit", "quit", "breakpoint"):
        d[n] = lambda *a, **k: (_ for _ in ()).throw(Unsupported("builtin not modelled"))
    return d

# ------------------------------------------------------------------ numpy
def asarr(x, lib="np"):
    if isinstance(x, SArr): return x
    return SArr.from_list(x, lib=lib)
def el1(f, kindf=None):
    def g(x, out=None, dtype=None, where=None, **k):
        if out is not None or where is not None: raise Unsupported("ufunc out/where")
        if isinstance(x, (list, tuple, SList)): x = asarr(x)
        if isinstance(x, SArr): return elementwise(f, (x,), x.lib, kindf)
        if x is None: raise TypeError("loop of ufunc does not support argument 0 of type NoneType")
        v = f(val(x)); k_ = kindf(skind(x)) if kindf else None
        return S(v, k_)
    return g
def el2(f, kindf=None):
    def g(a, b, out=None, dtype=None, **k):
        if out is not None: raise Unsupported("ufunc out")
        a = asarr(a) if isinstance(a, (list, tuple, SList)) else a
        b = asarr(b) if isinstance(b, (list, tuple, SList)) else b
        return elementwise(f, (a, b), "np", kindf)
    return g
F_ = lambda k: "f"
B_ = lambda k: "b"
def n2n(nan=0.0):
    def f(v):
        if isinstance(v, Cx): return Cx(app("nan2num", v.re), app("nan2num", v.im))
        return app("nan2num", b2n(v))
    return f
def nan_to_num(x, copy=True, nan=0, posinf=None, neginf=None):
    if val(nan) is not ZERO: 
        nv = val(nan)
        if posinf is not None or neginf is not None: raise Unsupported("nan_to_num arguments")
        r = elementwise(lambda v: vite(app("isnan", v), nv, app("nan2num", v)), (x,), "np", F_)
    elif posinf is not None or neginf is not None:
        raise Unsupported("nan_to_num arguments")
    else: r = el1(n2n())(x)
    if copy is False and isinstance(x, SArr): x.assign_all(r); return x
    return r
def where3(c, a=None, b=None):
    if a is None and b is None: return WhereIdx(c if c.kind == "b" else c != 0)
    lib = "t" if any(isinstance(q, SArr) and q.lib == "t" for q in (c, a, b)) else "np"
    k = promote(skind(a), skind(b))
    if isinstance(c, bool): c = S(TRUE if c else FALSE)
    return elementwise(lambda x, y, z: vite(tob(x), y, z), (c, a, b), lib, lambda _: k)
def linspace(a, b, n=50, endpoint=True, retstep=False, dtype=None, lib="np", axis=0, steps=None, device=None):
    if steps is not None: n = steps
    a = val(a); b = val(b); n = dimE(n)
    m = sub(n, ONE) if endpoint else n
    kd = todt(dtype).kind if dtype is not None else "f"
    def content(idx):
        r = add(a, mul(idx[0], div(sub(b, a), m))) if m is not ZERO else a
        return cast_val(r, todt(dtype)) if dtype is not None else r
    r = SArr((n,), content, kd, lib)
    if retstep: return r, S(div(sub(b, a), m), "f")
    return r
def logspace(a, b, n=50, steps=None, base=10, dtype=None, lib="np", endpoint=True, device=None, **k):
    if steps is not None: n = steps
    base = val(base)
    if not (base.op == "const"): raise Unsupported("logspace base")
    n = dimE(n); lb = app("log", base); lb = mk("app", ("log", base), "R", nan=False) if base is not ONE else ZERO
    a = val(a); b = val(b); m = sub(n, ONE) if endpoint else n
    if m is ZERO: return SArr((n,), lambda idx: app("exp", mul(lb, a)), "f", lib)
    # the step is a finite number whenever there is more than one point
    if not ent(gt(m, ZERO)): raise Unsupported("logspace with possibly one point")
    st = div(sub(b, a), m)
    return SArr((n,), lambda idx: app("exp", mul(lb, add(a, mul(idx[0], st)))), "f", lib)
def arange(*a, dtype=None, lib="np", device=None, step=None):
    vs = [b2n(val(x)) for x in a]
    lo, hi, st = (ZERO, vs[0], ONE) if len(vs) == 1 else (vs[0], vs[1], vs[2] if len(vs) > 2 else ONE)
    isf = any(skind(x) == "f" for x in a)
    d = sub(hi, lo)
    if st is not ONE or isf:
        n = app("ceil", div(d, st))
        if n.sort != "I": raise Unsupported("arange length")
    else: n = d
    if n.op == "const": n = const(max(0, n.args[0]))
    elif not ent(ge(n, ZERO)): n = ite(ge(n, ZERO), n, ZERO)
    k = todt(dtype).kind if dtype is not None else ("f" if isf else "i")
    return SArr((n,), lambda idx: add(lo, mul(st, idx[0])), k, lib)
def meshgrid(*xs, indexing=None, sparse=False, copy=True, lib=None):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)): xs = tuple(xs[0])
    xs = [asarr(x) for x in xs]
    lib = lib or xs[0].lib
    if indexing is None: indexing = "xy" if lib == "np" else "ij"
    if sparse: raise Unsupported("sparse meshgrid")
    if any(len(x.shape_) != 1 for x in xs): raise Unsupported("meshgrid of non-vectors")
    n = len(xs); order = list(range(n))
    if indexing == "xy" and n >= 2: order[0], order[1] = 1, 0
    elif indexing != "ij" and indexing != "xy": raise ValueError("Valid values for `indexing` are 'xy' and 'ij'.")
    sh = tuple(xs[order[i]].shape_[0] for i in range(n))
    out = []
    for k, x in enumerate(xs):
        g = x.getter(); ax = order.index(k)
        out.append(SArr(sh, (lambda idx, g=g, ax=ax: g((idx[ax],))), x.kind, lib))
    return PList(out) if lib == "np" else tuple(out)
def tile(a, reps):
    a = asarr(a)
    reps = [dimE(r) for r in (reps if isinstance(reps, (tuple, list, SArr)) else (reps,))]
    nd = max(len(reps), len(a.shape_))
    reps = [ONE] * (nd - len(reps)) + reps
    sh = (ONE,) * (nd - len(a.shape_)) + a.shape_
    g = a.getter(); off = nd - len(a.shape_)
    def content(idx):
        out = []
        for i in range(off, nd):
            if reps[i] is ONE: out.append(idx[i])
            elif sh[i] is ONE: out.append(ZERO)
            else: out.append(vmod(idx[i], sh[i]))
        return g(tuple(out))
    return SArr(tuple(mul(r, s) for r, s in zip(reps, sh)), content, a.kind, a.lib)
def roll(a, shift, axis=None, dims=None):
    if axis is None: axis = dims
    a = asarr(a)
    if axis is None: raise Unsupported("roll without axis")
    if isinstance(axis, (tuple, list)):
        r = a
        for s_, x in zip(shift, axis): r = roll(r, s_, x)
        return r
    ax = norm_axis(axis, len(a.shape_)); n = a.shape_[ax]; sh = b2n(val(shift)); g = a.getter()
    def content(idx):
        j = sub(idx[ax], sh)
        c1 = ent(and_(ge(neg(sh), ZERO), le(neg(sh), n)))
        if c1:      # -n <= shift <= 0
            t = ite(lt(j, n), j, sub(j, n)) if ctx.known(lt(j, n)) is not True else j
        elif ent(and_(ge(sh, ZERO), le(sh, n))): t = ite(ge(j, ZERO), j, add(j, n))
        else: t = vmod(j, n)
        return g(idx[:ax] + (t,) + idx[ax + 1:])
    return a.new(a.shape_, content)
def fftfreq(n, d=1, lib="np", **k):
    n = dimE(n); d = val(d)
    half = vfdiv(sub(n, ONE), const(2))
    def content(idx):
        j = idx[0]
        return div(ite(le(j, half), j, sub(j, n)), mul(n, d))
    return SArr((n,), content, "f", lib)
def rfftfreq(n, d=1, **k):
    n = dimE(n); d = val(d)
    return SArr((add(vfdiv(n, const(2)), ONE),), lambda idx: div(idx[0], mul(n, d)), "f")
def opaque_transform(name, x, axes=None, extra=(), outshape=None, real_out=False):
    """linear transform of a whole array over the given axes as an opaque operator applied pointwise to the rest"""
    x = asarr(x); nd = len(x.shape_); axs = tuple(range(nd)) if axes is None else tuple(norm_axis(a, nd) for a in axes)
    g = x.getter(); shape = list(x.shape_)
    osh = tuple(outshape) if outshape is not None else tuple(shape)
    cplx = x.kind == "c"
    cache = {}
    def content(idx):
        rest = tuple(e for i, e in enumerate(idx) if i not in axs)
        key = rest
        if key not in cache:
            bv = [fresh("t", "I") for _ in axs]; full = [None] * nd; it = iter(rest)
            for i in range(nd): full[i] = bv[axs.index(i)] if i in axs else next(it)
            v = g(tuple(full))
            cache[key] = (lam(bv, re_(b2n(v))), lam(bv, im_(v)))
        lr, li = cache[key]
        dims = tuple(shape[a] for a in axs)
        where = tuple(idx[a] for a in axs)
        r = uf(name + ".re", lr, li, *dims, *extra, *where)
        if real_out: return r
        return Cx(r, uf(name + ".im", lr, li, *dims, *extra, *where))
    return SArr(osh, content, "f" if real_out else "c", x.lib)
def fft2(x, s=None, axes=(-2, -1), norm=None, **k):
    if s is not None or norm is not None: raise Unsupported("fft2 options")
    return opaque_transform("fft", x, axes)
def ifft2(x, s=None, axes=(-2, -1), norm=None, **k):
    if s is not None or norm is not None: raise Unsupported("ifft2 options")
    return opaque_transform("ifft", x, axes)
def fftn(x, s=None, axes=None, norm=None, shape=None, **k):
    if s is not None or norm is not None or shape is not None: raise Unsupported("fftn options")
    return opaque_transform("fft", x, axes)
def ifftn(x, s=None, axes=None, norm=None, shape=None, **k):
    if s is not None or norm is not None or shape is not None: raise Unsupported("ifftn options")
    return opaque_transform("ifft", x, axes)
def fft1(x, n=None, axis=-1, norm=None, **k):
    if n is not None or norm is not None: raise Unsupported("fft options")
    return opaque_transform("fft", x, (axis,))
def ifft1(x, n=None, axis=-1, norm=None, **k):
    if n is not None or norm is not None: raise Unsupported("ifft options")
    return opaque_transform("ifft", x, (axis,))
def gradient(f, *spacing, axis=None, edge_order=1):
    f = asarr(f); nd = len(f.shape_)
    if axis is None or len(spacing) > 1: raise Unsupported("gradient over several axes")
    if edge_order != 1: raise Unsupported("gradient edge order")
    ax = norm_axis(axis, nd); n = f.shape_[ax]; g = f.getter()
    h = spacing[0] if spacing else 1
    if isinstance(h, SArr) and h.shape_: raise Unsupported("gradient with coordinates")
    h = b2n(val(h))
    def content(idx):
        i = idx[ax]; at = lambda e: g(idx[:ax] + (e,) + idx[ax + 1:])
        mid = vdiv(vsub(at(add(i, ONE)), at(sub(i, ONE))), mul(const(2), h))
        lo = vdiv(vsub(at(ONE), at(ZERO)), h); m = sub(n, ONE)
        hi = vdiv(vsub(at(m), at(sub(n, const(2)))), h)
        return vite(eq(i, ZERO), lo, vite(eq(i, m), hi, mid))
    return f.new(f.shape_, content, "f" if f.kind != "c" else "c")
def trapz(y, x=None, dx=None, dim=-1, axis=None):
    y = asarr(y); nd = len(y.shape_); ax = norm_axis(dim if axis is None else axis, nd); n = y.shape_[ax]; gy = y.getter()
    if x is not None:
        x = asarr(x)
        if len(x.shape_) == 1 and nd > 1:
            g1 = x.getter(); gx = lambda idx: g1((idx[ax],))
        else:
            bshape(y.shape_, x.shape_); gx = bget(x, nd)
    else:
        d = ONE if dx is None else val(dx); gx = lambda idx: mul(d, idx[ax])
    def content(idx):
        def term(j):
            a = idx[:ax] + (j,) + idx[ax:]; b = idx[:ax] + (add(j, ONE),) + idx[ax:]
            return vmul(vmul(vsub(gx(b), gx(a)), vadd(gy(a), gy(b))), const(Fr(1, 2)))
        m = sub(n, ONE)
        if m.op == "const" and m.args[0] <= 64:
            r = ZERO
            for j in range(int(m.args[0])): r = vadd(r, term(const(j)))
            return r
        bv = fresh("s", "I")
        return vsum(bv, m, term(bv))
    sh = y.shape_[:ax] + y.shape_[ax + 1:]
    if not sh and y.lib == "np": return S(content(()), "f")
    return SArr(sh, content, promote(y.kind, "f"), y.lib)
def einsum(spec, *ops, **k):
    ops = [asarr(o) for o in ops]
    spec = spec.replace(" ", "")
    if "->" not in spec: raise Unsupported("implicit einsum output")
    ins, out = spec.split("->"); ins = ins.split(",")
    if len(ins) != len(ops): raise ValueError("einsum: operand count mismatch")
    subs = []; ell = 0
    for s_, o in zip(ins, ops):
        if "..." in s_:
            n = len(o.shape_) - (len(s_) - 3)
            if n < 0: raise ValueError("einsum: too many subscripts")
            ell = max(ell, n)
        elif len(s_) != len(o.shape_): raise ValueError("einsum: subscripts do not match dimensions")
    dims = {}
    plans = []
    for s_, o in zip(ins, ops):
        n = len(o.shape_) - (len(s_.replace("...", "")))
        labs = []
        pre, _, post = s_.partition("...") if "..." in s_ else (s_, "", "")
        labs = list(pre) + ([("e", ell - n + q) for q in range(n)] if "..." in s_ else []) + list(post)
        for l, d in zip(labs, o.shape_):
            if l in dims:
                if dims[l] is ONE: dims[l] = d
                elif d is not ONE and not same_dim(dims[l], d): raise ValueError("einsum: dimension mismatch for %s" % (l,))
            else: dims[l] = d
        plans.append((labs, o.getter(), o.shape_))
    pre, _, post = out.partition("...") if "..." in out else (out, "", "")
    outl = list(pre) + ([("e", q) for q in range(ell)] if "..." in out else []) + list(post)
    if ell and "..." not in out: raise Unsupported("einsum summing over ellipsis")
    suml = [l for l in dims if l not in outl]
    def content(idx):
        env = dict(zip(outl, idx))
        def go(j):
            if j == len(suml):
                r = None
                for labs, g, sh in plans:
                    v = g(tuple(ZERO if d is ONE else env[l] for l, d in zip(labs, sh)))
                    r = v if r is None else vmul(r, v)
                return r
            n = dims[suml[j]]
            if n.op == "const" and n.args[0] <= 64:
                r = ZERO
                for q in range(int(n.args[0])):
                    env[suml[j]] = const(q); r = vadd(r, go(j + 1))
                return r
            bv = fresh("s", "I"); env[suml[j]] = bv
            return vsum(bv, n, go(j + 1))
        return go(0)
    sh = tuple(dims[l] for l in outl)
    lib = ops[0].lib; kd = promote(*[o.kind for o in ops])
    if not sh and lib == "np": return S(content(()), kd)
    return SArr(sh, content, kd, lib)
def isclose(a, b, rtol=None, atol=None, equal_nan=False):
    rt = const(Fr(1, 10**5)) if rtol is None else val(rtol); at = const(Fr(1, 10**8)) if atol is None else val(atol)
    return elementwise(lambda x, y: le(vabs(vsub(x, y)), add(at, mul(rt, vabs(y)))), (a, b), "np", B_)
def random_normal(stream):
    def normal(loc=0, scale=1, size=None):
        k = W.draw(stream[0] if isinstance(stream, list) else stream)
        nm = "rng_%s_%d" % (str(stream[0] if isinstance(stream, list) else stream), k)
        l = val(loc); s_ = val(scale)
        W.calls.append(("draw", nm, size))
        if size is None: return S(add(l, mul(s_, uf(nm))), "f")
        sh = shape_of(size)
        for d in sh:
            if not ent(ge(d, ZERO)):
                if not decide(ge(d, ZERO)): raise ValueError("negative dimensions are not allowed")
        return SArr(sh, lambda idx: add(l, mul(s_, uf(nm, *idx))), "f")
    return normal
class RandomState:
    def __init__(self, seed=None):
        n = W.draw("_objs"); self.stream = ["o%d" % n]; self.seeded = seed
        self.normal = random_normal(self.stream)
    def seed(self, seed=None):
        W.calls.append(("seed", self, seed))
        self.seeded = seed
        n = W.draw("_reseed"); self.stream[0] = "s%d" % n
    def standard_normal(self, size=None): return self.normal(0, 1, size)
    def randn(self, *sh): return self.normal(0, 1, sh)
class NDArrayMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, SArr) and x.lib == "np"
    def __or__(cls, o): return cls
    def __ror__(cls, o): return cls
class ndarray(metaclass=NDArrayMeta): pass
class NpNum(type):
    def __instancecheck__(cls, x): return isinstance(x, S)
class _np_number(metaclass=NpNum): pass
class errstate:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __call__(self, f): return f
class UReduce:
    @staticmethod
    def reduce(op, xs, *a, **k):
        xs = list(xs); r = xs[0]
        for x in xs[1:]: r = op(r, x)
        return r
class UFunc:
    def __init__(self, f): self.f = f
    def __call__(self, *a, **k): return self.f(*a, **k)
    def reduce(self, x, axis=0, **k):
        if isinstance(x, SArr):
            if self.f is np_add: return reduce_sum(x, axis)
            raise Unsupported("ufunc.reduce")
        xs = list(x); r = xs[0]
        for y in xs[1:]: r = self.f(r, y)
        return r
np_add = el2(vadd)
def isscalar(x): return isinstance(x, (S, int, float, complex, str)) and not isinstance(x, SArr)
def np_array(x, dtype=None, copy=True, order=None, ndmin=0, **k):
    if isinstance(x, SArr): r = x.copy_as("np")
    else: r = SArr.from_list(x, lib="np")
    if dtype is not None and todt(dtype).kind != r.kind: r = r.astype(dtype)
    return r
def np_asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and (dtype is None or todt(dtype).kind == x.kind): return x if x.lib == "np" else x.alias("np")
    return np_array(x, dtype)
def kd(dtype, dflt="f"): return dflt if dtype is None else todt(dtype).kind
def np_prod(x, axis=None, **k): return asarr(x).prod(axis)
def np_sum(x, axis=None, keepdims=False, **k):
    if isinstance(x, (S, int)): return x
    return reduce_sum(asarr(x), axis, keepdims)
def np_mean(x, axis=None, keepdims=False, **k): return asarr(x).mean(axis=axis, keepdims=keepdims)
def np_anyall(which):
    def f(x, axis=None, **k):
        if isinstance(x, (S, bool, int)): return wrap(tob(val(x)))
        return reduce_bool(asarr(x), which, axis)
    return f
def np_unique(x, **k):
    if k: raise Unsupported("unique options")
    x = asarr(x)
    if len(x.shape_) != 1: raise Unsupported("unique of non-vector")
    if "unique" in ctx.State.hooks: return ctx.State.hooks["unique"](x)
    bv = fresh("u", "I"); l = lam([bv], b2n(x.elem((bv,)))); n = x.shape_[0]
    cnt = uf("ucount", l, n, sort="I"); ctx.assume(ge(cnt, ZERO)); ctx.assume(le(cnt, n))
    return SArr((cnt,), lambda idx: uf("unique", l, n, idx[0]), x.kind)
def np_sort(x, axis=-1, **k):
    x = asarr(x)
    if "sort" in ctx.State.hooks: return ctx.State.hooks["sort"](x)
    bv = fresh("u", "I"); l = lam([bv], b2n(x.elem((bv,)))); n = x.shape_[0]
    if len(x.shape_) != 1: raise Unsupported("sort of non-vector")
    return SArr((n,), lambda idx: uf("sorted", l, n, idx[0]), x.kind)
def log10(v): return mul(app("log", b2n(v)), powc(mk("app", ("log", const(10)), "R", nan=False), -1) if False else invlog10())
def invlog10():
    e = powc(mk("app", ("log", const(10)), "R", nan=False), -1)
    return mk(e.op, e.args, "R", nan=False)
def like(v):
    def f(x, dtype=None, shape=None, **k):
        if not isinstance(x, SArr):
            x = asarr(x)
        return zeros(x.shape_ if shape is None else shape, x.kind if dtype is None else todt(dtype).kind, x.lib, v)
    return f
def empty_like(x, dtype=None, **k):
    x = asarr(x); nm = "uninit%d" % W.draw("_empty")
    return SArr(x.shape_, lambda idx: uf(nm, *idx), x.kind if dtype is None else todt(dtype).kind, x.lib)
def empty(shape, dtype=None, **k):
    nm = "uninit%d" % W.draw("_empty"); kk = kd(dtype)
    return SArr(shape_of(shape), (lambda idx: uf(nm, *idx)) if kk != "c" else (lambda idx: Cx(uf(nm + "r", *idx), uf(nm + "i", *idx))), kk)
def np_copyto(d, s_, **k): d.assign_all(s_)
def ravel_(x): return asarr(x).ravel()
def cumsum(*a, **k): raise Unsupported("cumsum")
def broadcast_to(x, shape):
    x = asarr(x); sh = shape_of(shape); full = bshape(x.shape_, sh)
    return x.new(sh, bget(x, len(sh)))
def np_maximum(a, b): return max_(b2n(a), b2n(b))
def np_minimum(a, b): return min_(b2n(a), b2n(b))
def np_norm(x, ord=None, axis=None, keepdims=False):
    return asarr(x).norm(p=ord, dim=axis, keepdim=keepdims)
def outer(a, b):
    a = asarr(a); b = asarr(b); return a.reshape(-1)[:, None] * b.reshape(-1)[None, :]
def np_cross(a, b, **k): raise Unsupported("cross")
def aspart(xs):
    xs = parts_of(xs)
    return xs.map(asarr) if isinstance(xs, SList) else [asarr(x) for x in xs]
def vstack(xs, **k): return concat([x if len(x.shape_) > 1 else x[None, :] for x in map(asarr, xs)], 0)

class FreqMod(Mod): pass
def make_numpy():
    m = Mod("numpy")
    m.pi = S(PI, "f"); m.inf = S(INF, "f"); m.nan = S(NAN, "f"); m.newaxis = None; m.e = S(app("exp", ONE), "f")
    m.ndarray = ndarray; m.number = m.floating = m.generic = _np_number
    m.integer = int_
    for n in ("float64", "float32", "float16", "double", "single", "float_"): setattr(m, n, DT(n, "f"))
    for n in ("int64", "int32", "int16", "int8", "intp", "uint8", "int_"): setattr(m, n, DT(n, "i"))
    m.bool_ = DT("bool", "b"); m.complex128 = m.complex64 = DT("complex128", "c")
    m.array = np_array; m.asarray = np_asarray; m.ascontiguousarray = np_asarray; m.asanyarray = np_asarray
    m.copy = lambda x, order=None, **k: asarr(x).copy_as()
    m.zeros = lambda sh, dtype=None, **k: zeros(sh, kd(dtype)); m.ones = lambda sh, dtype=None, **k: zeros(sh, kd(dtype), v=ONE)
    m.full = lambda sh, v, dtype=None, **k: SArr(shape_of(sh), (lambda idx, v=val(v): v), kd(dtype, skind(v)))
    m.empty = empty; m.zeros_like = like(ZERO); m.ones_like = like(ONE); m.empty_like = empty_like
    m.full_like = lambda x, v, dtype=None, **k: zeros(x.shape_, kd(dtype, x.kind), x.lib, val(v))
    m.linspace = linspace; m.logspace = logspace; m.arange = arange; m.meshgrid = meshgrid; m.tile = tile; m.roll = roll
    m.geomspace = Missing("numpy.geomspace")
    m.sqrt = el1(sqrt_, F_); m.exp = el1(lambda v: vexp(b2n(v)), lambda k: "c" if k == "c" else "f"); m.log = el1(vlog, F_); m.log10 = el1(log10, F_)
    m.log2 = el1(lambda v: div(app("log", b2n(v)), mk("app", ("log", const(2)), "R", nan=False)), F_)
    m.log1p = el1(lambda v: app("log", add(ONE, b2n(v))), F_); m.expm1 = el1(lambda v: sub(app("exp", b2n(v)), ONE), F_)
    m.sin = el1(lambda v: app("sin", b2n(v)), F_); m.cos = el1(lambda v: app("cos", b2n(v)), F_)
    m.tan = el1(lambda v: div(app("sin", b2n(v)), app("cos", b2n(v))), F_)
    m.abs = m.absolute = m.fabs = el1(lambda v: vabs(b2n(v)), lambda k: "f" if k == "c" else k)
    m.square = el1(lambda v: vmul(v, v)); m.sign = el1(lambda v: app("sign", b2n(v))); m.negative = el1(vneg)
    m.reciprocal = el1(lambda v: vdiv(ONE, v), F_); m.cbrt = el1(lambda v: powc(b2n(v), Fr(1, 3)), F_)
    fin = lambda nm: (lambda v: app(nm, b2n(v)) if not b2n(v).nan else ite(app("isfinite", b2n(v)), app(nm, b2n(v)), b2n(v)))
    m.ceil = el1(fin("ceil"), F_); m.floor = el1(fin("floor"), F_); m.rint = Missing("numpy.rint")
    m.real = el1(re_, lambda k: "f" if k == "c" else k); m.imag = el1(im_, lambda k: "f" if k == "c" else k); m.conj = m.conjugate = el1(vconj)
    m.deg2rad = m.radians = el1(lambda v: mul(PI, const(Fr(1, 180)), b2n(v)), F_)
    m.isnan = el1(visnan, B_); m.isfinite = el1(visfin, B_); m.isinf = el1(lambda v: and_(not_(visfin(v)), not_(visnan(v))), B_)
    m.nan_to_num = nan_to_num; m.where = where3; m.nonzero = lambda c: where3(c)
    m.arctan2 = el2(lambda a, b: app("atan2", b2n(a), b2n(b)), F_); m.arctan = el1(lambda a: app("atan", b2n(a)), F_)
    m.add = UFunc(np_add); m.subtract = el2(vsub); m.multiply = UFunc(el2(vmul)); m.divide = m.true_divide = el2(vdiv, F_); m.power = el2(vpow2); m.float_power = el2(vpow2, F_)
    m.maximum = el2(np_maximum); m.minimum = el2(np_minimum); m.mod = el2(vmod); m.floor_divide = el2(vfdiv)
    m.hypot = el2(lambda a, b: sqrt(add(mul(b2n(a), b2n(a)), mul(b2n(b), b2n(b)))), F_)
    m.logical_and = el2(lambda a, b: and_(tob(a), tob(b)), B_); m.logical_or = el2(lambda a, b: or_(tob(a), tob(b)), B_); m.logical_not = el1(lambda a: not_(tob(a)), B_)
    m.equal = el2(lambda a, b: vcmp("eq", a, b), B_); m.less = el2(lambda a, b: vcmp("lt", a, b), B_); m.greater = el2(lambda a, b: vcmp("gt", a, b), B_)
    m.sum = np_sum; m.mean = m.average = np_mean; m.prod = np_prod; m.any = np_anyall("any"); m.all = np_anyall("all")
    m.min = m.amin = lambda x, **k: asarr(x).min(**k); m.max = m.amax = lambda x, **k: asarr(x).max(**k)
    m.einsum = einsum; m.moveaxis = moveaxis; m.transpose = lambda x, axes=None: asarr(x).transpose(*(axes or ())); m.swapaxes = lambda x, a, b: asarr(x).swapaxes(a, b)
    m.stack = lambda xs, axis=0, **k: stack(aspart(xs), axis); m.concatenate = lambda xs, axis=0, **k: concat(aspart(xs), axis)
    m.vstack = vstack; m.hstack = lambda xs: concat([asarr(x) for x in xs], 0 if len(asarr(list(xs)[0]).shape_) == 1 else 1)
    m.append = lambda a, b, axis=None: concat([asarr(a), asarr(b)], axis) if axis is not None else concat([asarr(a).ravel(), asarr(b).ravel()], 0)
    m.reshape = lambda x, sh, **k: reshape(asarr(x), sh); m.ravel = ravel_; m.squeeze = lambda x, axis=None: asarr(x).squeeze(axis=axis); m.expand_dims = lambda x, axis: asarr(x).unsqueeze(axis)
    m.flip = lambda x, axis=None: flip(asarr(x), range(len(asarr(x).shape_)) if axis is None else (axis if isinstance(axis, (tuple, list)) else (axis,)))
    m.diff = lambda x, n=1, axis=-1: diff(asarr(x), axis) if n == 1 else diff(diff(asarr(x), axis), axis)
    m.gradient = gradient; m.trapz = m.trapezoid = lambda y, x=None, dx=None, axis=-1: trapz(y, x, dx, axis)
    m.errstate = errstate; m.isclose = isclose; m.isscalar = isscalar; m.ufunc = UReduce; m.unique = np_unique; m.sort = np_sort
    m.allclose = Missing("numpy.allclose"); m.broadcast_to = broadcast_to; m.dot = m.matmul = matmul; m.outer = outer; m.copyto = np_copyto
    m.size = lambda x, axis=None: asarr(x).size if axis is None else asarr(x).shape[axis]; m.shape = lambda x: asarr(x).shape; m.ndim = lambda x: asarr(x).ndim
    m.seterr = lambda **k: {}
    m.clip = lambda x, a, b: asarr(x).clamp(a, b) if isinstance(x, SArr) else S(min_(max_(val(x), val(a)), val(b)), skind(x))
    m.fft = Mod("numpy.fft", fft2=fft2, ifft2=ifft2, fftn=fftn, ifftn=ifftn, fft=fft1, ifft=ifft1, fftfreq=fftfreq, rfftfreq=rfftfreq)
    m.random = Mod("numpy.random", RandomState=RandomState, normal=lambda *a, **k: random_normal("global")(*a, **k), randn=lambda *sh: random_normal("global")(0, 1, sh),
                   standard_normal=lambda size=None: random_normal("global")(0, 1, size), seed=lambda s=None: W.calls.append(("npseed", s)))
    m.linalg = Mod("numpy.linalg", norm=np_norm)
    m.lib = Missing("numpy.lib"); m.typing = Mod("numpy.typing", NDArray=Missing("NDArray"), ArrayLike=Missing("ArrayLike"))
    return m

# ------------------------------------------------------------------ scipy
def hyp2f1(a, b, c, x): return elementwise(lambda p, q, r, s_: app("hyp2f1", p, q, r, s_), (a, b, c, x), "np", F_)
def lam1(f, args=()):
    """functional argument -> lam term (branches merged)"""
    bv = fresh("q")
    paths = ctx.sub(lambda: f(S(bv, "f"), *args), [])
    return lam([bv], b2n(val(loops.merge_results(paths))))
def quad(f, a, b, args=(), **k):
    if "quad" in ctx.State.hooks: return ctx.State.hooks["quad"](f, a, b, args)
    l = lam1(f, args)
    W.calls.append(("quad", k))
    bnd = lambda x: val(x)
    ax, bx = bnd(a), bnd(b)
    q = lambda e: {"inf": uf("INF"), "ninf": uf("NINF")}.get(e.op, e)
    return (S(uf("quad", l, q(ax), q(bx)), "f"), S(uf("quaderr", l, q(ax), q(bx)), "f"))
class RegularGridInterpolator:
    def __init__(self, points, values, method="linear", bounds_error=True, fill_value=S(NAN), **k):
        self.points = [asarr(p) for p in points]; self.values = asarr(values)
        if len(self.points) != len(self.values.shape_): raise ValueError("There are %d point arrays, but values has %d dimensions" % (len(self.points), len(self.values.shape_)))
        for p, d in zip(self.points, self.values.shape_):
            if not same_dim(p.shape_[0], d): raise ValueError("There are %s points and %s values on dimension" % (show(p.shape_[0]), show(d)))
        self.method = str(method); self.be = bool(bounds_error); self.fill = fill_value
        if k: raise Unsupported("interpolator options")
        bv = fresh("g", "I")
        self.lams = [lam([bv], b2n(p.elem((bv,)))) for p in self.points]
        bvs = [fresh("g", "I") for _ in self.points]
        self.vlam = lam(bvs, b2n(self.values.elem(tuple(bvs))))
        self.dims = self.values.shape_
        fv = None if fill_value is None else val(fill_value)
        self.tag = "interp_%s_%s_%s" % (self.method, self.be, "extrap" if fv is None else ("nan" if fv is NAN else show(fv)))
    def __call__(self, pts, method=None, **k):
        if method is not None and method != self.method: raise Unsupported("interpolator method override")
        if isinstance(pts, tuple): pts = stack([asarr(p) for p in pts], -1)
        pts = asarr(pts); g = pts.getter(); nd = len(self.points)
        if not same_dim(pts.shape_[-1], const(nd)): raise ValueError("dimension mismatch of sample points")
        sh = pts.shape_[:-1]
        def content(idx): return uf(self.tag, *self.lams, self.vlam, *self.dims, *[b2n(g(idx + (const(j),))) for j in range(nd)])
        return SArr(sh, content, "f")
def dxt(name):
    def f(x, type=2, n=None, axis=-1, norm=None, **k):
        if n is not None or norm is not None: raise Unsupported("dct options")
        return opaque_transform("%s%s" % (name, type), x, (axis,), real_out=True)
    return f
def make_scipy():
    m = Mod("scipy")
    fp = Mod("scipy.fftpack", fftfreq=fftfreq, fftn=fftn, ifftn=ifftn, dst=dxt("dst"), dct=dxt("dct"), fft2=fft2, ifft2=ifft2, fft=fft1, ifft=ifft1)
    m.fftpack = fp; m.fft = fp
    m.special = Mod("scipy.special", hyp2f1=hyp2f1)
    m.integrate = Mod("scipy.integrate", quad=quad, trapezoid=lambda y, x=None, dx=None, axis=-1: trapz(y, x, dx, axis))
    m.interpolate = Mod("scipy.interpolate", RegularGridInterpolator=RegularGridInterpolator)
    return m

# ------------------------------------------------------------------ pyfftw
class FFTWPlan:
    def __init__(self, inp, out, axes=(-1,), direction="FFTW_FORWARD", flags=(), threads=1, **k):
        self.inp = inp; self.out = out; self.axes = [int(S(val(a)).__index__()) for a in axes]; self.dir = direction
        self.destroy = "FFTW_DESTROY_INPUT" in flags or direction == "FFTW_BACKWARD"
        self.count = 0
    def __call__(self, input_array=None, output_array=None, normalise_idft=True, **k):
        if output_array is not None: raise Unsupported("plan call options")
        if input_array is not None: self.inp.assign_all(input_array)
        if not normalise_idft: raise Unsupported("unnormalised inverse")
        self.execute()
        return self.out
    def execute(self):
        nd = len(self.inp.shape_); axes = [a % nd for a in self.axes]
        if sorted(axes) != list(range(nd)): raise Unsupported("partial-axis plan")
        if self.dir == "FFTW_FORWARD":
            r = opaque_transform("rfftn" if self.inp.kind != "c" else "fftn", self.inp, axes, outshape=self.out.shape_)
        else:
            r = opaque_transform("irfftn" if self.out.kind != "c" else "ifftn", self.inp, axes, extra=tuple(self.out.shape_), outshape=self.out.shape_, real_out=self.out.kind != "c")
        self.out.assign_all(r)
        # the multi-dimensional real transforms may destroy their input
        nm = "junk%d" % W.draw("_junk")
        j = (lambda idx: Cx(uf(nm + "r", *idx), uf(nm + "i", *idx))) if self.inp.kind == "c" else (lambda idx: uf(nm, *idx))
        self.inp.assign_all(SArr(self.inp.shape_, j, self.inp.kind))
def make_pyfftw():
    return Mod("pyfftw", empty_aligned=lambda sh, dtype="float64", **k: empty(sh, dtype), zeros_aligned=lambda sh, dtype="float64", **k: zeros(sh, kd(dtype)), FFTW=FFTWPlan)

# ------------------------------------------------------------------ torch
class TensorMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, SArr) and x.lib == "t"
    def __or__(cls, o): return cls
    def __ror__(cls, o): return cls
class Tensor(metaclass=TensorMeta): pass
class Parameter(SArr):
    def __init__(self, t, requires_grad=True):
        t = asarr(t, "t")
        SArr.__init__(self, t.shape_, None, t.kind, "t", t.buf, t.axes)
        self.requires_grad = requires_grad
    def __deepcopy__(self, memo):
        p = Parameter(self.copy_as()); memo[id(self)] = p; return p
class ParamIter(PList):
    """Module.parameters(): a generator in torch; also accepts next()"""
    def __next__(self):
        if not len(self): raise StopIteration
        return self.pop(0)
class Module:
    def __init__(self, *a, **k):
        object.__setattr__(self, "_parameters", {}); object.__setattr__(self, "_modules", {}); object.__setattr__(self, "training", True)
    def __setattr__(self, n, v):
        d = self.__dict__
        if isinstance(v, Parameter):
            if "_parameters" not in d: raise AttributeError("cannot assign parameters before Module.__init__() call")
            d.pop(n, None); d["_modules"].pop(n, None); d["_parameters"][n] = v
        elif isinstance(v, Module):
            if "_modules" not in d: raise AttributeError("cannot assign module before Module.__init__() call")
            d.pop(n, None); d["_parameters"].pop(n, None); d["_modules"][n] = v
        else:
            if n in d.get("_parameters", {}):
                if v is not None: raise TypeError("cannot assign object as parameter %r (torch.nn.Parameter or None expected)" % n)
                d["_parameters"][n] = None; return
            if n in d.get("_modules", {}) and v is not None: raise TypeError("cannot assign as child module %r" % n)
            object.__setattr__(self, n, v)
    def __getattr__(self, n):
        d = self.__dict__
        if n in d.get("_parameters", {}): return d["_parameters"][n]
        if n in d.get("_modules", {}): return d["_modules"][n]
        raise AttributeError("%r object has no attribute %r" % (type(self).__name__, n))
    def __delattr__(self, n):
        d = self.__dict__
        if n in d.get("_parameters", {}): del d["_parameters"][n]
        elif n in d.get("_modules", {}): del d["_modules"][n]
        else: object.__delattr__(self, n)
    def register_parameter(self, n, p): self.__dict__["_parameters"][n] = p
    def register_buffer(self, n, p, persistent=True): object.__setattr__(self, n, p)
    def add_module(self, n, m): self.__dict__["_modules"][n] = m
    def modules(self):
        out = [self]
        for m in self.__dict__["_modules"].values(): out += m.modules()
        return out
    def children(self): return PList(self.__dict__["_modules"].values())
    def parameters(self, recurse=True):
        seen = set(); out = []
        for m in self.modules():
            for p in m.__dict__["_parameters"].values():
                if p is not None and id(p) not in seen: seen.add(id(p)); out.append(p)
        return ParamIter(out)
    def named_parameters(self, prefix="", recurse=True):
        out = []
        for n, p in self.__dict__["_parameters"].items(): out.append(((prefix + "." if prefix else "") + n, p))
        for n, m in self.__dict__["_modules"].items(): out += m.named_parameters((prefix + "." if prefix else "") + n)
        return PList(out)
    def state_dict(self): return dict(self.named_parameters())
    def zero_grad(self, *a, **k): pass
    def train(self, mode=True): object.__setattr__(self, "training", mode); return self
    def eval(self): return self.train(False)
    def to(self, *a, **k): return self
    def double(self): return self
    def float(self): return self
    def cpu(self): return self
    def requires_grad_(self, v=True): return self
    def __call__(self, *a, **k): return self.forward(*a, **k)
    def __or__(self, o): return self
class Linear(Module):
    def __init__(self, fin, fout, bias=True, device=None, dtype=None):
        super().__init__()
        k = W.draw("_linear"); self.in_features = fin; self.out_features = fout
        i, o = dimE(fin), dimE(fout)
        self.weight = Parameter(SArr((o, i), lambda idx: uf("W%d" % k, *idx), "f", "t"))
        if bias: self.bias = Parameter(SArr((o,), lambda idx: uf("b%d" % k, *idx), "f", "t"))
        else: self.__dict__["_parameters"]["bias"] = None
    def forward(self, x):
        if not same_dim(x.shape_[-1], self.weight.shape_[1]): raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
        r = matmul(x, self.weight.t())
        b = self.__dict__["_parameters"].get("bias")
        return r if b is None else r + b
class ReLU(Module):
    def __init__(self, inplace=False): super().__init__()
    def forward(self, x): return x.relu()
class OpaqueAct(Module):
    """an arbitrary element-wise activation"""
    def __init__(self, name="act"): super().__init__(); object.__setattr__(self, "nm", name)
    def forward(self, x): return elementwise(lambda v: uf(self.nm, b2n(v)), (x,), "t", F_)
class Tanh(Module):
    def forward(self, x): return elementwise(lambda v: app("tanh", b2n(v)), (x,), "t", F_)
class ModuleList(Module):
    def __init__(self, mods=()):
        super().__init__(); object.__setattr__(self, "_l", list(mods))
        for i, m in enumerate(mods): self.__dict__["_modules"][str(i)] = m
    def __getitem__(self, k):
        if isinstance(k, S): k = k.__index__()
        if isinstance(k, slice): return ModuleList(self._l[k])
        return self._l[k]
    def __iter__(self): return iter(self._l)
    def __len__(self): return len(self._l)
    def append(self, m): self.__dict__["_modules"][str(len(self._l))] = m; self._l.append(m); return self
class Sequential(Module):
    def __init__(self, *mods):
        super().__init__(); object.__setattr__(self, "_l", list(mods))
        for i, m in enumerate(mods): self.__dict__["_modules"][str(i)] = m
    def forward(self, x):
        for m in self._l: x = m(x)
        return x
    __getitem__ = ModuleList.__getitem__; __iter__ = ModuleList.__iter__; __len__ = ModuleList.__len__
def parameters_to_vector(ps):
    ps = list(ps)
    return concat([reshape(asarr(p, "t"), (-1,), copy=True) for p in ps], 0, "t")
def vector_to_parameters(vec, ps):
    off = ZERO
    for p in list(ps):
        n = mul(ONE, *p.shape_)
        seg = vec[S(off):S(add(off, n))]
        p.assign_all(reshape(seg, tuple(dimS(d) for d in p.shape_), copy=True) if p.shape_ else seg[0])
        off = add(off, n)
def t_tensor(x, dtype=None, device=None, requires_grad=False, **k):
    r = x.copy_as("t") if isinstance(x, SArr) else SArr.from_list(x, lib="t")
    if r.lib != "t": r = r.copy_as("t")
    if dtype is not None and todt(dtype).kind != r.kind: r = r.astype(dtype)
    return r
class _NoGrad:
    def __init__(self, *a): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __call__(self, f=None): return f if f is not None else self
def havoc_params(groups):
    k = W.draw("_havoc")
    for q, p in enumerate(groups):
        nm = "theta%d_%d" % (k, q)
        p.assign_all(SArr(p.shape_, (lambda idx, nm=nm: uf(nm, *idx)), "f", "t"))
class Optimizer:
    def __init__(self, params, lr=S(const(Fr(1, 100))), **k):
        self.params = list(params); self.param_groups = PList([{"lr": lr, "params": self.params}]); self.kw = k
        W.calls.append(("optimizer", self))
    def zero_grad(self, *a, **k): pass
    def step(self, closure=None):
        """contract: parameters may change arbitrarily; the closure is called at least once"""
        havoc_params(self.params)
        r = closure() if closure is not None else None
        W.calls.append(("step", self))
        havoc_params(self.params)
        return r
class LBFGS(Optimizer): pass
class Adam(Optimizer): pass
class Sched:
    def __init__(self, opt, *a, **k): self.opt = opt; W.calls.append(("sched", k))
    def step(self, *a): 
        n = W.draw("_lr")
        for g in self.opt.param_groups: g["lr"] = S(uf("lr%d" % n), "f")
class SummaryWriter:
    def __init__(self, *a, **k): pass
    def add_scalar(self, tag, v, step=None, *a, **k): W.calls.append(("scalar", tag, v, step))
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return lambda *a, **k: None
def t_mean(x, dim=None, keepdim=False, **k): return x.mean(dim=dim, keepdim=keepdim)
def t_norm(x, p=None, dim=None, keepdim=False, **k): return x.norm(p=p, dim=dim, keepdim=keepdim)
def t_relu(x): return x.relu()
def t_where(c, a=None, b=None): return where3(c, a, b)
def t_shape(a): return _sa(a)
def _sa(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)): return tuple(a[0])
    return tuple(a)
def t_zeros(*sh, dtype=None, device=None, **k): return zeros(_sa(sh), kd(dtype), "t")
def t_ones(*sh, dtype=None, device=None, **k): return zeros(_sa(sh), kd(dtype), "t", ONE)
def t_randn(*sh, **k):
    nm = "trandn%d" % W.draw("_trandn")
    sh = _sa(sh); sh = sh[0] if len(sh) == 1 and isinstance(sh[0], tuple) else sh
    return SArr(shape_of(sh), lambda idx: uf(nm, *idx), "f", "t")
def lift_t(f):
    def g(x, *a, **k):
        r = f(x if isinstance(x, SArr) else asarr(x, "t"), *a, **k)
        return r if isinstance(r, SArr) else SArr.from_list(r, lib="t")
    return g
def make_torch():
    np_ = make_numpy()
    m = Mod("torch")
    m.Tensor = Tensor; m.FloatTensor = Tensor
    m.pi = S(PI, "f"); m.inf = S(INF, "f"); m.nan = S(NAN, "f")
    for n in ("float64", "float32", "float16", "double", "float"): setattr(m, n, DT("torch." + n, "f"))
    for n in ("int64", "int32", "long", "int"): setattr(m, n, DT("torch." + n, "i"))
    m.bool = DT("torch.bool", "b"); m.complex64 = m.complex128 = m.cfloat = DT("torch.complex", "c")
    m.tensor = t_tensor; m.as_tensor = lambda x, dtype=None, device=None: x if isinstance(x, SArr) and x.lib == "t" else (x.alias("t") if isinstance(x, SArr) else t_tensor(x, dtype))
    m.from_numpy = lambda x: x.alias("t")
    m.is_tensor = lambda x: isinstance(x, SArr) and x.lib == "t"
    m.zeros = t_zeros; m.ones = t_ones; m.full = lambda sh, v, dtype=None, **k: SArr(shape_of(sh), (lambda idx, v=val(v): v), kd(dtype, skind(v)), "t")
    m.zeros_like = like(ZERO); m.ones_like = like(ONE); m.empty_like = empty_like
    m.full_like = lambda x, v, dtype=None, **k: zeros(x.shape_, kd(dtype, x.kind), "t", val(v))
    m.stack = lambda xs, dim=0: stack(xs, dim, "t"); m.cat = m.concat = m.concatenate = lambda xs, dim=0, axis=None: concat(xs, dim if axis is None else axis, "t")
    m.unbind = lambda x, dim=0: x.unbind(dim)
    m.hstack = lambda xs: concat(list(xs), 0 if len(list(xs)[0].shape_) == 1 else 1, "t")
    m.meshgrid = lambda *xs, indexing=None: meshgrid(*xs, indexing=indexing, lib="t")
    m.logspace = lambda a, b, steps=100, base=10, dtype=None, device=None, **k: logspace(a, b, steps, base=base, lib="t")
    m.linspace = lambda a, b, steps=100, dtype=None, device=None, **k: linspace(a, b, steps, lib="t")
    m.arange = lambda *a, dtype=None, **k: arange(*a, dtype=dtype, lib="t")
    m.flip = lambda x, dims, **k: flip(x, dims if isinstance(dims, (tuple, list)) else (dims,))
    m.where = t_where
    for n in ("sqrt", "exp", "log", "abs", "sign", "square", "sin", "cos", "relu", "isnan", "isfinite", "reciprocal", "rsqrt", "neg", "conj"):
        setattr(m, n, lift_t(lambda x, n=n: getattr(x, n)()))
    m.absolute = m.abs; m.clone = lift_t(lambda x: x.clone()); m.log10 = lift_t(el1(log10, F_))
    m.real = lambda x: x.real; m.imag = lambda x: x.imag
    m.clamp = lift_t(lambda x, min=None, max=None: x.clamp(min, max)); m.clip = m.clamp
    m.atan2 = m.arctan2 = lambda a, b: elementwise(lambda x, y: app("atan2", b2n(x), b2n(y)), (a, b), "t", F_)
    m.pow = lambda a, b: a ** b; m.mul = m.multiply = lambda a, b: a * b; m.add = lambda a, b: a + b; m.sub = lambda a, b: a - b; m.div = m.divide = lambda a, b: a / b
    m.maximum = lambda a, b: elementwise(np_maximum, (a, b), "t"); m.minimum = lambda a, b: elementwise(np_minimum, (a, b), "t")
    m.mean = t_mean; m.sum = lambda x, dim=None, keepdim=False, **k: x.sum(dim=dim, keepdim=keepdim); m.norm = t_norm
    m.any = lambda x, **k: x.any(); m.all = lambda x, **k: x.all()
    m.diff = lambda x, n=1, dim=-1: diff(x, dim); m.trapz = m.trapezoid = lambda y, x=None, dx=None, dim=-1: trapz(y, x, dx, dim)
    m.einsum = einsum; m.matmul = matmul; m.moveaxis = m.movedim = moveaxis; m.reshape = lambda x, sh: reshape(x, sh); m.squeeze = lambda x, dim=None: x.squeeze(dim); m.unsqueeze = lambda x, dim: x.unsqueeze(dim)
    m.flatten = lambda x, *a, **k: x.flatten(); m.ravel = lambda x: x.ravel(); m.transpose = lambda x, a, b: x.transpose(a, b); m.permute = lambda x, d: x.permute(*d)
    m.complex = lambda a, b: elementwise(lambda x, y: Cx(b2n(x), b2n(y)), (a, b), "t", lambda k: "c")
    m.polar = lambda a, b: elementwise(lambda x, y: Cx(mul(x, app("cos", y)), mul(x, app("sin", y))), (a, b), "t", lambda k: "c")
    m.is_complex = lambda x: x.kind == "c"; m.isclose = isclose
    m.randn = t_randn; m.manual_seed = lambda s: None; m.randn_like = lambda x, **k: t_randn(*x.shape)
    m.no_grad = _NoGrad; m.enable_grad = _NoGrad; m.inference_mode = _NoGrad; m.set_grad_enabled = _NoGrad
    m.get_default_dtype = lambda: m.float64; m.set_default_dtype = lambda d: None; m.set_default_tensor_type = lambda d: None
    m.device = lambda d="cpu": d
    m.load = Missing("torch.load")
    m.numel = lambda x: x.numel()
    m.linalg = Mod("torch.linalg", norm=lambda x, ord=None, dim=None, keepdim=False: x.norm(p=ord, dim=dim, keepdim=keepdim), vector_norm=lambda x, ord=2, dim=None, keepdim=False: x.norm(p=ord, dim=dim, keepdim=keepdim))
    m.cuda = Mod("torch.cuda", is_available=lambda: False)
    ident = lambda f=None, **k: f if f is not None else (lambda g: g)
    m.jit = Mod("torch.jit", script=ident, export=ident, ignore=ident, unused=ident)
    utils = Mod("torch.nn.utils", parameters_to_vector=parameters_to_vector, vector_to_parameters=vector_to_parameters, clip_grad_norm_=lambda *a, **k: None)
    fun = Mod("torch.nn.functional", relu=t_relu, linear=lambda x, w, b=None: matmul(x, w.t()) if b is None else matmul(x, w.t()) + b)
    m.nn = Mod("torch.nn", Module=Module, Parameter=Parameter, Linear=Linear, ReLU=ReLU, ModuleList=ModuleList, Sequential=Sequential, Tanh=Tanh, Identity=Missing("Identity"), utils=utils, functional=fun)
    m.optim = Mod("torch.optim", Optimizer=Optimizer, LBFGS=LBFGS, Adam=Adam, lr_scheduler=Mod("lr_scheduler", CosineAnnealingLR=Sched, LambdaLR=Sched))
    m.utils = Mod("torch.utils", tensorboard=Mod("tensorboard", SummaryWriter=SummaryWriter))
    m.utils_ = utils
    return m

class LinearRegression:
    def __init__(self, **k): self.id = W.draw("_linreg")
    def fit(self, X, y):
        bv = fresh("g", "I"); X = asarr(X); y = asarr(y)
        lx = lam([bv], b2n(X.elem((bv,) + (ZERO,) * (len(X.shape_) - 1)))); ly = lam([bv], b2n(y.elem((bv,) + (ZERO,) * (len(y.shape_) - 1))))
        n = X.shape_[0]
        c = uf("lr_coef", lx, ly, n); i = uf("lr_int", lx, ly, n)
        self.coef_ = SArr((ONE, ONE), lambda idx: c, "f"); self.intercept_ = SArr((ONE,), lambda idx: i, "f")
        return self
    def score(self, X, y): return S(uf("lr_score%d" % self.id), "f")
    def predict(self, X): raise Unsupported("predict")

class Pickle:
    @staticmethod
    def dump(obj, f, *a, **k): W.files[f.path] = _copy.deepcopy(obj)
    @staticmethod
    def load(f, *a, **k): return _copy.deepcopy(f.read())
    class Unpickler:
        def __init__(self, f): self.f = f
        def load(self): return _copy.deepcopy(self.f.read())
        def find_class(self, m, n): raise Unsupported("find_class")
def _read_csv(*a, **k):
    if "read_csv" in ctx.State.hooks: return ctx.State.hooks["read_csv"](*a, **k)
    raise Unsupported("pandas.read_csv")
def make_shims():
    np_ = make_numpy()
    osm = Mod("os", environ={}, makedirs=lambda *a, **k: None, path=_os.path, PathLike=_os.PathLike, listdir=Missing("os.listdir"), getcwd=lambda: "/", sep="/", fspath=_os.fspath)
    mth = Mod("math", ceil=lambda x: S(app("ceil", need_finite(b2n(val(x))))) if isinstance(x, (S, SArr)) else _math.ceil(x), floor=lambda x: S(app("floor", need_finite(b2n(val(x))))) if isinstance(x, (S, SArr)) else _math.floor(x),
              pi=S(PI, "f"), sqrt=lambda x: S(sqrt(val(x)), "f"), exp=lambda x: S(app("exp", val(x)), "f"), log=lambda x, b=None: S(app("log", val(x)) if b is None else div(app("log", val(x)), app("log", val(b))), "f"),
              log10=lambda x: S(log10(val(x)), "f"), sin=lambda x: S(app("sin", val(x)), "f"), cos=lambda x: S(app("cos", val(x)), "f"), inf=S(INF, "f"), nan=S(NAN, "f"), fabs=lambda x: S(app("abs", val(x)), "f"),
              isnan=lambda x: wrap(visnan(val(x))), isfinite=lambda x: wrap(visfin(val(x))), pow=lambda a, b: a ** b, prod=lambda xs: _prod(xs), hypot=Missing("math.hypot"),
              radians=lambda x: S(mul(PI, const(Fr(1, 180)), val(x)), "f"), atan2=lambda a, b: S(app("atan2", val(a), val(b)), "f"))
    tm = Mod("time", time=lambda: S(uf("time%d" % W.draw("_time")), "f"), perf_counter=lambda: S(uf("time%d" % W.draw("_time")), "f"), sleep=lambda *a: None)
    wr = Mod("warnings", warn=lambda *a, **k: W.calls.append(("warn", a)), simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None, catch_warnings=_NoGrad)
    nb = Mod("numba", njit=lambda f=None, **k: f if f is not None else (lambda g: g), jit=lambda f=None, **k: f if f is not None else (lambda g: g), prange=loops.rng)
    def image_to_vtk(*a, **k):
        if "imageToVTK" in ctx.State.hooks: return ctx.State.hooks["imageToVTK"](*a, **k)
        W.calls.append(("imageToVTK", a, k))
    return {"numpy": np_, "scipy": make_scipy(), "torch": make_torch(), "math": mth, "os": osm, "time": tm, "warnings": wr, "pickle": Mod("pickle", dump=Pickle.dump, load=Pickle.load, Unpickler=Pickle.Unpickler),
            "numba": nb, "pyfftw": make_pyfftw(), "sklearn": Mod("sklearn", linear_model=Mod("sklearn.linear_model", LinearRegression=LinearRegression)),
            "pyevtk": Mod("pyevtk", hl=Mod("pyevtk.hl", imageToVTK=image_to_vtk)),
            "tensorboard": Stub("tensorboard"), "matplotlib": Stub("matplotlib"), "plotly": Stub("plotly"), "polars": Stub("polars"), "pandas": Mod("pandas", read_csv=_read_csv), "tqdm": Stub("tqdm"), "logging": Stub("logging")}
def _prod(xs):
    r = 1
    for x in xs: r = r * x
    return r
