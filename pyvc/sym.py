"""Symbolic scalars, arrays and lists with operator overloading."""
from fractions import Fraction as Fr
import numbers, itertools
from .ir import *
from . import ctx
from .ctx import decide, ent, known, State

def lit(x):
    """exact constant from a Python number"""
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, int): return const(x)
    if isinstance(x, Fr): return const(x)
    if isinstance(x, float):
        if x != x: return NAN
        if x in (float("inf"), float("-inf")): return INF if x > 0 else NINF
        return const(Fr(repr(x)))
    if isinstance(x, complex): return Cx(lit(x.real), lit(x.imag))
    raise Unsupported("literal %r" % (x,))

def val(x):
    """element value (E or Cx) of a scalar-like object"""
    if isinstance(x, S): return x.v
    if isinstance(x, (E, Cx)): return x
    if isinstance(x, SArr):
        if all(d is ONE for d in x.shape_): return x.elem((ZERO,) * len(x.shape_))
        raise Unsupported("array used as scalar")
    if isinstance(x, (bool, int, float, complex, Fr)): return lit(x)
    if x is None: raise TypeError("unsupported operand type(s): 'NoneType'")
    raise Unsupported("value %r" % (type(x),))

def isnum(x): return isinstance(x, (S, int, float, complex, Fr)) or isinstance(x, SArr)

def wrap(v):
    """element value -> python-level scalar: concrete ints/bools stay concrete"""
    if isinstance(v, E):
        if v.op == "const" and v.args[0].denominator == 1: return S(v)
        if v is TRUE: return True
        if v is FALSE: return False
    return S(v)

def _bin(f, a, b): return f(val(a), val(b))

class S:
    """scalar (python float/int/complex/bool or numpy scalar)"""
    __slots__ = ("v", "kind", "meta")
    __array_priority__ = 50
    def __init__(self, v, kind=None): self.v = v; self.kind = "f" if kind == "f" else None; self.meta = None
    # arithmetic
    def _op(self, o, f, r=False):
        if isinstance(o, SArr) or not isnum(o): return NotImplemented
        a, b = (o, self) if r else (self, o)
        x = S(f(val(a), val(b)))
        if self.kind == "f" or f is sdiv or (isinstance(o, S) and o.kind == "f") or isinstance(o, float): x.kind = "f"
        return x
    def __add__(s, o): return s._op(o, vadd)
    def __radd__(s, o): return s._op(o, vadd, True)
    def __sub__(s, o): return s._op(o, vsub)
    def __rsub__(s, o): return s._op(o, vsub, True)
    def __mul__(s, o):
        if isinstance(o, (list, tuple, str)):
            k = s.concrete_int()
            if k is None: raise Unsupported("sequence repetition by a symbolic count")
            return o * k
        return s._op(o, vmul)
    def __rmul__(s, o):
        if isinstance(o, (list, tuple, str)): return s.__mul__(o)
        return s._op(o, vmul, True)
    def __truediv__(s, o): return s._op(o, sdiv)
    def __rtruediv__(s, o): return s._op(o, sdiv, True)
    def __pow__(s, o): return s._op(o, vpow2)
    def __rpow__(s, o): return s._op(o, vpow2, True)
    def __floordiv__(s, o): return s._op(o, vfdiv)
    def __rfloordiv__(s, o): return s._op(o, vfdiv, True)
    def __mod__(s, o): return s._op(o, vmod)
    def __rmod__(s, o): return s._op(o, vmod, True)
    def __divmod__(s, o): return (s // o, s % o)
    def __neg__(s): return S(vneg(s.v), s.kind)
    def __pos__(s): return s
    def __abs__(s): return S(vabs(b2n(s.v)), s.kind)
    # comparison
    def _cmp(s, o, f):
        if isinstance(o, SArr): return NotImplemented
        if not isnum(o): return NotImplemented
        return wrap(vcmp(f, s.v, val(o)))
    def __lt__(s, o): return s._cmp(o, "lt")
    def __le__(s, o): return s._cmp(o, "le")
    def __gt__(s, o): return s._cmp(o, "gt")
    def __ge__(s, o): return s._cmp(o, "ge")
    def __eq__(s, o):
        if not isnum(o): return False
        return s._cmp(o, "eq")
    def __ne__(s, o):
        if not isnum(o): return True
        return s._cmp(o, "ne")
    def __hash__(s):
        if isinstance(s.v, E) and s.v.op == "const":
            return hash(s.v.args[0])
        return hash(s.v.id) if isinstance(s.v, E) else id(s)
    def __bool__(s):
        v = s.v
        if isinstance(v, Cx): v = or_(ne(v.re, ZERO), ne(v.im, ZERO))
        if v.sort != "B": v = ne(v, ZERO)
        return decide(v)
    # bitwise on booleans
    def __and__(s, o): return wrap(and_(tob(s.v), tob(val(o))))
    def __rand__(s, o): return s & o
    def __or__(s, o): return wrap(or_(tob(s.v), tob(val(o))))
    def __ror__(s, o): return s | o
    def __invert__(s):
        if isinstance(s.v, E) and s.v.sort == "B": return wrap(not_(s.v))
        return S(sub(const(-1), s.v))
    def __lshift__(s, o): return S(mul(val(s), app("ipow", const(2), val(o), sort="I")))
    def __rlshift__(s, o): return S(mul(val(o), app("ipow", const(2), s.v, sort="I")))
    def concrete_int(s):
        v = b2n(s.v)
        if isinstance(v, E) and v.op == "const" and v.args[0].denominator == 1: return int(v.args[0])
        return None
    def __index__(s):
        k = s.concrete_int()
        if k is None: raise Unsupported("symbolic integer needed concretely: %s" % (show(s.v)[:120] if isinstance(s.v, E) else "complex"))
        return k
    def __float__(s): raise Unsupported("conversion of a symbolic value to a machine float")
    def __int__(s): raise Unsupported("conversion of a symbolic value to a machine int")
    def __complex__(s): raise Unsupported("conversion to machine complex")
    def __format__(s, spec): return "<sym>"
    def __repr__(s): return "S(%s)" % (show(s.v) if isinstance(s.v, E) else s.v)
    def __str__(s): return "<sym>"
    def __round__(s, n=None): raise Unsupported("round")
    def __floor__(s): return S(app("floor", s.v))
    def __ceil__(s): return S(app("ceil", s.v))
    # numpy-scalar / python-float attributes
    def item(s): return s
    def is_integer(s): return wrap(eq(s.v, app("floor", s.v)))
    @property
    def real(s): return S(re_(s.v))
    @property
    def imag(s): return S(im_(s.v))
    def conjugate(s): return S(vconj(s.v))
    conj = conjugate
    @property
    def shape(s): return ()
    @property
    def ndim(s): return 0
    @property
    def size(s): return 1
    @property
    def dtype(s): return DT_F if s.kind == "f" else DT_C if isinstance(s.v, Cx) else (DT_B if s.v.sort == "B" else (DT_I if s.v.sort == "I" else DT_F))
    def astype(s, dt, **k): return cast_scalar(s, dt)
    def copy(s): return s
    def tolist(s): return s
    def any(s): return s != 0 if not (isinstance(s.v, E) and s.v.sort == "B") else s
    all = any
    def isnan(s): return wrap(visnan(s.v))
    def sum(s, *a, **k): return s
    mean = sum
    def flatten(s): return SArr.from_list([s])
    ravel = flatten

def tob(v):
    if isinstance(v, Cx): return or_(ne(v.re, ZERO), ne(v.im, ZERO))
    return v if v.sort == "B" else ne(v, ZERO)
def visnan(v):
    if isinstance(v, Cx): return or_(app("isnan", v.re), app("isnan", v.im))
    return app("isnan", b2n(v))
def visfin(v):
    if isinstance(v, Cx): return and_(app("isfinite", v.re), app("isfinite", v.im))
    return app("isfinite", b2n(v))
def vcmp(op, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        if op in ("eq", "ne"):
            r = and_(eq(re_(b2n(a)), re_(b2n(b))), eq(im_(a), im_(b)))
            return r if op == "eq" else not_(r)
        raise TypeError("'<' not supported between complex values")
    if op in ("eq", "ne") and a.sort == "B" and b.sort == "B":
        r = iff(a, b); return r if op == "eq" else not_(r)
    a = b2n(a); b = b2n(b)
    return {"lt": lt, "le": le, "gt": gt, "ge": ge, "eq": eq, "ne": ne}[op](a, b)
def sdiv(a, b):
    """python scalar division (division by a constant zero raises)"""
    b = b2n(b)
    if isinstance(b, E) and b is ZERO: raise ZeroDivisionError("division by zero")
    return vdiv(a, b)
def vpow2(a, b):
    a = b2n(a); b = b2n(b)
    if isinstance(b, Cx): raise Unsupported("complex exponent")
    return vpow(a, b)
def vfdiv(a, b):
    a = b2n(a); b = b2n(b)
    if isinstance(a, Cx) or isinstance(b, Cx): raise TypeError("can't take floor of complex number.")
    if a.sort == "I" and b.sort == "I":
        if b.op == "const" and b.args[0] != 0:
            # (c*x) // b with b | c
            parts = a.args if a.op == "add" else (a,)
            q = []; r = []
            for t in parts:
                c = t.args[0] if t.op == "const" else (t.args[0].args[0] if t.op == "mul" and t.args[0].op == "const" else Fr(1))
                c = c if isinstance(c, Fr) else c
                if (c / b.args[0]).denominator == 1: q.append(mul(const(1 / b.args[0]), t))
                else: r.append(t)
            if q: return add(*q, app("fdiv", add(*r), b)) if r else add(*q)
        else:
            if a.op == "mul" and b in a.args and b.op != "const":
                l = list(a.args); l.remove(b)
                return mul(*l)       # (b*x)//b, b != 0
            if a is b: return ONE
        return app("fdiv", a, b)
    return app("floor", div(a, b))
def vmod(a, b):
    a = b2n(a); b = b2n(b)
    if a.sort == "I" and b.sort == "I": return sub(a, mul(b, vfdiv(a, b)))
    return sub(a, mul(b, app("floor", div(a, b))))
def trunc(e):
    if e.sort == "I": return e
    if e.sort == "B": return b2n(e)
    if e.op == "const":
        v = e.args[0]; k = int(v); return const(k)
    if ent(ge(e, ZERO)): return app("floor", e)
    return ite(ge(e, ZERO), app("floor", e), app("ceil", e))

# ---- dtypes
class DT:
    def __init__(s, name, kind, lib=None): s.name = name; s.kind = kind; s.itemsize = 8
    def __eq__(s, o):
        if isinstance(o, DT): return s.kind == o.kind
        if isinstance(o, str): return s.name == o
        return False
    def __ne__(s, o): return not s == o
    def __hash__(s): return hash(s.kind)
    def __repr__(s): return "dtype(%s)" % s.name
    __str__ = __repr__
    def __call__(s, x=0):
        if isinstance(x, SArr): return x.astype(s)
        if isinstance(x, (list, tuple)): return SArr.from_list(x).astype(s)
        return cast_scalar(x if isinstance(x, S) else S(val(x)), s)
    @property
    def type(s): return s
    @property
    def is_floating_point(s): return s.kind == "f"
    @property
    def is_complex(s): return s.kind == "c"
    # usable in annotations
    def __or__(s, o): return s
    def __ror__(s, o): return s
DT_F = DT("float64", "f"); DT_I = DT("int64", "i"); DT_B = DT("bool", "b"); DT_C = DT("complex128", "c")
def todt(d):
    if d is None: return None
    if isinstance(d, DT): return d
    if isinstance(d, str):
        if d.startswith(("float", "double", "f")): return DT_F
        if d.startswith(("complex", "c")): return DT_C
        if d.startswith(("int", "uint", "long", "i", "u")): return DT_I
        if d.startswith(("bool", "?")): return DT_B
    n = getattr(d, "__name__", "")
    if n in ("float", "Float"): return DT_F
    if n == "int": return DT_I
    if n == "bool": return DT_B
    if n == "complex": return DT_C
    raise Unsupported("dtype %r" % (d,))
def cast_val(v, dt):
    k = dt.kind
    if k == "c": return v if isinstance(v, Cx) else Cx(b2n(v), ZERO)
    if k == "f":
        if isinstance(v, Cx): return v.re
        return b2n(v)
    if k == "i":
        if isinstance(v, Cx): v = v.re
        return trunc(b2n(v))
    if k == "b": return tob(v)
    raise Unsupported("cast")
def cast_scalar(s, dt):
    dt = todt(dt)
    return S(cast_val(val(s), dt), dt.kind)

def kind_of_val(v):
    if isinstance(v, Cx): return "c"
    return {"B": "b", "I": "i", "R": "f"}[v.sort]
def skind(x):
    if isinstance(x, SArr): return x.kind
    if isinstance(x, S): return "f" if x.kind == "f" and not isinstance(x.v, Cx) else kind_of_val(x.v)
    if isinstance(x, bool): return "b"
    if isinstance(x, int): return "i"
    if isinstance(x, complex): return "c"
    if isinstance(x, float) or isinstance(x, Fr): return "f"
    return kind_of_val(val(x))
_ORD = {"b": 0, "i": 1, "f": 2, "c": 3}
_KD = {"b": DT_B, "i": DT_I, "f": DT_F, "c": DT_C}
def promote(*ks): return max(ks, key=lambda k: _ORD[k])

def dimE(d):
    if isinstance(d, E): return d
    if skind(d) in ("f", "c"): raise TypeError("'float' object cannot be interpreted as an integer")
    v = val(d)
    if isinstance(v, Cx): raise Unsupported("complex dimension")
    v = b2n(v)
    if v.sort != "I":
        raise TypeError("'float' object cannot be interpreted as an integer")
    return v
def dimS(e): return int(e.args[0]) if e.op == "const" else S(e)

class Buffer:
    __slots__ = ("shape", "content", "depth", "name", "aliased")
    def __init__(self, shape, content):
        self.shape = shape; self.content = content; self.depth = len(State.journals); self.name = None; self.aliased = False
        for j in State.journals[-1:]: j.created.add(id(self))
    def set(self, content, view=None):
        for j in State.journals:
            pass
        if State.journals:
            j = State.journals[-1]
            if self not in j.old: j.old[self] = self.content
            j.writes.append((self, view))
        self.content = content

def memo_content(f):
    cache = {}
    def g(idx):
        r = cache.get(idx)
        if r is None:
            r = f(idx); cache[idx] = r
        return r
    return g

class WhereIdx:
    """result of np.where(mask) / nonzero(): used as an index"""
    def __init__(self, mask): self.mask = mask
    def __iter__(self):
        raise Unsupported("iteration over np.where result")
    def __getitem__(self, i):
        if len(self.mask.shape_) == 1 and (i == 0): return MaskSel(self.mask)
        raise Unsupported("np.where()[...]")
    def __len__(self): return len(self.mask.shape_)

class MaskSel:
    def __init__(self, mask): self.mask = mask

def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        d = ONE
        for s in shapes:
            j = i - (n - len(s))
            if j < 0: continue
            x = s[j]
            if x is ONE or x is d: continue
            if d is ONE: d = x; continue
            if x.op == "const" and d.op == "const":
                raise ValueError("operands could not be broadcast together with shapes %s" % (tuple(tuple(map(show, s)) for s in shapes),))
            if ent(eq(x, d)): continue
            # a symbolic dimension that might be 1 is not supported; different symbolic sizes are an error
            if ent(ne(x, d)) and ent(ne(x, ONE)) and ent(ne(d, ONE)):
                raise ValueError("operands could not be broadcast together")
            raise Unsupported("broadcast of dimensions %s and %s" % (show(x), show(d)))
        out.append(d)
    return tuple(out)

def same_dim(a, b):
    if a is b: return True
    if a.op == "const" and b.op == "const": return False
    if ent(eq(a, b)): return True
    if ent(ne(a, b)): return False
    return decide(eq(a, b))

class SArr:
    """array (numpy or torch) with symbolic shape; element access is a pure function of the index"""
    __array_priority__ = 100
    def __init__(self, shape, content, kind="f", lib="np", buf=None, axes=None, view=False):
        self.shape_ = tuple(shape)
        self.kind = kind; self.lib = lib
        if buf is None:
            buf = Buffer(self.shape_, memo_content(content))
            axes = tuple(("a", i, ZERO, 1) for i in range(len(self.shape_)))
        self.buf = buf; self.axes = axes
        self.requires_grad = False
        self.grad = None
    # ---- construction helpers
    @staticmethod
    def from_list(l, kind=None, lib="np"):
        """nested (P)list / tuple / SList of scalars or arrays"""
        if isinstance(l, SArr): return l.copy_as(lib)
        if isinstance(l, SList): return l.to_array(lib)
        if isinstance(l, (S, int, float, complex, Fr, bool)):
            v = val(l); return SArr((), lambda idx: v, kind or skind(l), lib)
        if isinstance(l, PList) and l.tail: return l.as_slist().to_array(lib)
        l = list(l)
        if not l: return SArr((ZERO,), lambda idx: NAN, kind or "f", lib)
        parts = [x if isinstance(x, SArr) else SArr.from_list(x, lib=lib) for x in l]
        sh = parts[0].shape_
        for p in parts[1:]:
            if len(p.shape_) != len(sh) or not all(same_dim(a, b) for a, b in zip(sh, p.shape_)):
                raise ValueError("setting an array element with a sequence: inhomogeneous shape")
        k = kind or promote(*[p.kind for p in parts])
        gs = [p.getter() for p in parts]
        n = len(l)
        def content(idx):
            i = idx[0]
            return pick(i, [g(idx[1:]) if True else None for g in gs]) if i.op != "const" else gs[int(i.args[0])](idx[1:])
        return SArr((const(n),) + sh, content, k, lib)
    def getter(self):
        """snapshot reader of the current contents through this view"""
        b = self.buf; content = b.content; axes = self.axes
        if State.journals: State.journals[-1].reads.append((b, axes))
        ident = all(a[0] == "a" and a[1] == i and a[2] is ZERO and a[3] == 1 for i, a in enumerate(axes)) and len(axes) == len(self.shape_)
        if ident: return content
        def g(idx):
            bi = []
            for a in axes:
                if a[0] == "f": bi.append(a[1])
                else:
                    e = idx[a[1]]
                    if a[3] != 1: e = mul(const(a[3]), e)
                    bi.append(add(a[2], e))
            return content(tuple(bi))
        return g
    def elem(self, idx): return self.getter()(tuple(idx))
    def sub_at(self, i):
        """element/subarray i of axis 0, no bounds check"""
        if len(self.shape_) == 1:
            v = self.elem((i,))
            if self.lib == "np": return S(v, self.kind)
        amap = []
        for a in self.axes:
            if a[0] == "f": amap.append(a)
            elif a[1] == 0: amap.append(("f", add(a[2], mul(const(a[3]), i))))
            else: amap.append(("a", a[1] - 1, a[2], a[3]))
        return SArr(self.shape_[1:], None, self.kind, self.lib, self.buf, tuple(amap))
    def at(self, *idx): return self.elem(tuple(i if isinstance(i, E) else val(i) for i in idx))
    def new(self, shape, content, kind=None): return SArr(shape, content, kind or self.kind, self.lib)
    def copy_as(self, lib=None, kind=None):
        g = self.getter()
        k = kind or self.kind
        if kind and kind != self.kind:
            dt = _KD[kind]; g0 = g; g = lambda idx: cast_val(g0(idx), dt)
        return SArr(self.shape_, g, k, lib or self.lib)
    def alias(self, lib=None):
        r = SArr(self.shape_, None, self.kind, lib or self.lib, self.buf, self.axes); return r
    # ---- properties
    @property
    def shape(self):
        t = tuple(dimS(d) for d in self.shape_)
        return t
    @property
    def ndim(self): return len(self.shape_)
    def dim(self): return len(self.shape_)
    @property
    def size(self):
        if self.lib == "t":
            def f(d=None): return self.shape if d is None else self.shape[d]
            return f
        return dimS(mul(*self.shape_)) if self.shape_ else 1
    def numel(self): return dimS(mul(*self.shape_)) if self.shape_ else 1
    nelement = numel
    @property
    def dtype(self): return _KD[self.kind]
    device = "cpu"
    is_cuda = False
    @property
    def T(self): return self.transpose()
    def __len__(self):
        if not self.shape_: raise TypeError("len() of unsized object")
        k = self.shape_[0]
        if k.op == "const": return int(k.args[0])
        raise Unsupported("native len() of symbolic array")
    def __iter__(self):
        if not self.shape_: raise TypeError("iteration over a 0-d array")
        k = self.shape_[0]
        if k.op == "const": return iter([self[i] for i in range(int(k.args[0]))])
        raise Unsupported("iteration over an array of symbolic length")
    def __bool__(self):
        if not all(d is ONE for d in self.shape_): raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return decide(tob(self.elem((ZERO,) * len(self.shape_))))
    def __hash__(self): return id(self)
    def __index__(self): return S(val(self)).__index__()
    def __float__(self): raise Unsupported("float(array)")
    def __format__(self, spec): return "<arr>"
    def __repr__(self): return "SArr%s" % (tuple(show(d) for d in self.shape_),)
    __str__ = __repr__
    def item(self): return S(val(self), self.kind)
    def tolist(self):
        if not self.shape_: return S(val(self))
        if all(d.op == "const" for d in self.shape_): return PList([x.tolist() if isinstance(x, SArr) else x for x in self])
        if len(self.shape_) == 1:
            g = self.getter(); return SList(self.shape_[0], lambda i: S(g((i,))))
        raise Unsupported("tolist")
    # ---- indexing
    def _norm_index(self, key):
        if not isinstance(key, tuple): key = (key,)
        key = list(key)
        def cost(k):
            if k is None or k is Ellipsis: return 0
            if isinstance(k, SArr) and k.kind == "b": return len(k.shape_)
            if isinstance(k, WhereIdx): return len(k.mask.shape_)
            return 1
        n = sum(cost(k) for k in key)
        if any(k is Ellipsis for k in key):
            i = next(i for i, k in enumerate(key) if k is Ellipsis)
            key[i:i + 1] = [slice(None)] * (len(self.shape_) - n)
        else: key += [slice(None)] * (len(self.shape_) - n)
        if sum(cost(k) for k in key) != len(self.shape_): raise IndexError("too many indices for array")
        return key
    def _basic(self, key):
        return all(k is None or isinstance(k, (slice, int, S)) or (isinstance(k, SArr) and k.shape_ == () and k.kind == "i") for k in key) and \
            not any(isinstance(k, bool) for k in key)
    def _slice(self, sl, n):
        """(start, length, step) for a slice over dimension n"""
        step = 1 if sl.step is None else S(val(sl.step)).__index__()
        if step <= 0:
            if step == -1 and sl.start is None and sl.stop is None: return sub(n, ONE), n, -1
            raise Unsupported("negative slice step")
        def bound(x, dflt):
            if x is None: return dflt
            e = b2n(val(x))
            if e.sort != "I": raise TypeError("slice indices must be integers")
            if e.op == "const":
                if e.args[0] < 0:
                    r = add(n, e)
                    if r.op == "const": return const(max(0, r.args[0]))
                    if ent(ge(r, ZERO)): return r
                    return ite(ge(r, ZERO), r, ZERO)
                if n.op == "const": return const(min(e.args[0], n.args[0]))
                if e is ZERO: return e
                if ent(le(e, n)): return e
                return ite(le(e, n), e, n)
            if ent(ge(e, ZERO)):
                return e if (e is n or ent(le(e, n))) else ite(le(e, n), e, n)
            if ent(lt(e, ZERO)):
                r = add(n, e)
                return r if ent(ge(r, ZERO)) else ite(ge(r, ZERO), r, ZERO)
            # sign unknown: decide (a zero or negative bound means something different)
            if decide(ge(e, ZERO)): return e if ent(le(e, n)) else ite(le(e, n), e, n)
            r = add(n, e)
            return r if ent(ge(r, ZERO)) else ite(ge(r, ZERO), r, ZERO)
        a = bound(sl.start, ZERO); b = bound(sl.stop, n)
        d = sub(b, a)
        if d.op == "const": ln = const(max(0, d.args[0]))
        elif a is ZERO or ent(ge(d, ZERO)): ln = d
        else: ln = ite(ge(d, ZERO), d, ZERO)
        if step != 1: ln = vfdiv(add(ln, const(step - 1)), const(step))
        return a, ln, step
    def _intidx(self, k, n):
        e = b2n(val(k))
        if e.sort != "I": raise IndexError("only integers, slices are valid indices")
        if e.op == "const":
            if e.args[0] < 0:
                if n.op == "const" and -e.args[0] > n.args[0]: raise IndexError("index out of bounds")
                return add(n, e)
            if n.op == "const" and e.args[0] >= n.args[0]: raise IndexError("index %s is out of bounds for axis with size %s" % (e.args[0], n.args[0]))
            if n.op != "const" and not ent(lt(e, n)):
                if not decide(lt(e, n)): raise IndexError("index out of bounds")
            return e
        if ent(and_(ge(e, ZERO), lt(e, n))): return e
        if decide(lt(e, ZERO)): e = add(n, e)
        if not ent(and_(ge(e, ZERO), lt(e, n))):
            if not decide(and_(ge(e, ZERO), lt(e, n))): raise IndexError("index out of bounds")
        return e
    def _view(self, key):
        """basic indexing -> (shape, axes)"""
        newshape = []; amap = {}      # old array axis -> ('f', e) or ('a', newaxis, start, step)
        ax = 0
        for k in key:
            if k is None: newshape.append(ONE); continue
            n = self.shape_[ax]
            if isinstance(k, slice):
                a, ln, st = self._slice(k, n)
                amap[ax] = ("a", len(newshape), a, st); newshape.append(ln)
            else: amap[ax] = ("f", self._intidx(k, n))
            ax += 1
        axes = []
        for a in self.axes:
            if a[0] == "f": axes.append(a); continue
            _, old, st, sp = a
            m = amap[old]
            if m[0] == "f": axes.append(("f", add(st, mul(const(sp), m[1]))))
            else: axes.append(("a", m[1], add(st, mul(const(sp), m[2])), sp * m[3]))
        return tuple(newshape), tuple(axes)
    def __getitem__(self, key):
        if isinstance(key, (list,)): key = SArr.from_list(key, lib=self.lib)
        key = self._norm_index(key)
        key = [SArr.from_list(k, lib=self.lib) if isinstance(k, list) else (SArr.from_list(list(k), lib=self.lib) if isinstance(k, (range, tuple)) else k) for k in key]
        key = [int(k) if isinstance(k, bool) else k for k in key]
        if self._basic(key):
            sh, axes = self._view(key)
            r = SArr(sh, None, self.kind, self.lib, self.buf, axes)
            if not sh and self.lib == "np": return S(r.elem(()), self.kind)
            return r
        return self._adv_get(key)
    def _adv_get(self, key):
        # one advanced index (array of ints / mask), rest basic
        adv = [i for i, k in enumerate(key) if isinstance(k, (SArr, WhereIdx, MaskSel))]
        if len(adv) != 1:
            return self._multi_adv_get(key, adv)
        i = adv[0]; k = key[i]
        ax_before = sum(1 for q in key[:i] if q is not None)
        rest = list(key)
        if isinstance(k, WhereIdx): k = k.mask
        if isinstance(k, MaskSel): k = k.mask
        if k.kind == "b":
            if len(k.shape_) != 1: raise Unsupported("multi-dimensional boolean read")
            if not same_dim(k.shape_[0], self.shape_[ax_before]): raise IndexError("boolean index did not match indexed array")
            n, sel, _ = mask_select(k)
            idxshape = (n,); idxf = lambda ii: sel(ii[0])
        else:
            g = k.getter(); idxshape = k.shape_
            dimn = self.shape_[ax_before]
            def idxf(ii):
                e = b2n(g(ii))
                if e.op == "const": return add(dimn, e) if e.args[0] < 0 else e
                return e if ent(ge(e, ZERO)) else ite(ge(e, ZERO), e, add(dimn, e))
        rest[i] = slice(None)
        base = self[tuple(rest)] if any(not (isinstance(q, slice) and q == slice(None)) for q in rest) else self
        # position of the advanced axis among result axes
        pos = sum(1 for q in key[:i] if q is None or isinstance(q, slice))
        if isinstance(base, S): raise Unsupported("index")
        g0 = base.getter(); na = len(idxshape)
        sh = base.shape_[:pos] + tuple(idxshape) + base.shape_[pos + 1:]
        def content(idx): return g0(idx[:pos] + (idxf(idx[pos:pos + na]),) + idx[pos + na:])
        return self.new(sh, content)
    def _multi_adv_get(self, key, adv):
        if not adv: raise Unsupported("index")
        ks = [key[i] for i in adv]
        if any(not isinstance(k, SArr) or k.kind == "b" for k in ks) or len(key) != len(self.shape_): raise Unsupported("advanced indexing")
        if adv != list(range(adv[0], adv[0] + len(adv))): raise Unsupported("separated advanced indices")
        sh = bshape(*[k.shape_ for k in ks]); gs = [bget(k, len(sh)) for k in ks]
        rest = list(key)
        for i in adv: rest[i] = slice(None)
        if any(k is None or not isinstance(k, slice) for k in rest): raise Unsupported("advanced indexing")
        base = self[tuple(rest)]; g0 = base.getter(); p = adv[0]; na = len(sh); m = len(adv)
        out = base.shape_[:p] + sh + base.shape_[p + m:]
        def content(idx):
            ii = tuple(b2n(g(idx[p:p + na])) for g in gs)
            return g0(idx[:p] + ii + idx[p + na:])
        return self.new(out, content)
    def __setitem__(self, key, value):
        if isinstance(key, list): key = SArr.from_list(key, lib=self.lib)
        key = self._norm_index(key)
        key = [SArr.from_list(k, lib=self.lib) if isinstance(k, list) else (SArr.from_list(list(k), lib=self.lib) if isinstance(k, (range, tuple)) else k) for k in key]
        key = [int(k) if isinstance(k, bool) else k for k in key]
        if not isinstance(value, (SArr,)):
            if isinstance(value, (list, tuple, SList)): value = SArr.from_list(value, lib=self.lib)
        if self._basic(key):
            sh, axes = self._view(key)
            self._write(sh, axes, value); return
        adv = [i for i, k in enumerate(key) if isinstance(k, (SArr, WhereIdx, MaskSel))]
        if len(adv) == 1:
            i = adv[0]; k = key[i]
            if isinstance(k, (WhereIdx, MaskSel)): k = k.mask
            if k.kind == "b":
                nb = len(k.shape_)
                rest = list(key); rest[i:i + 1] = [slice(None)] * nb
                if any(q is None for q in rest): raise Unsupported("mask with newaxis")
                sh, axes = self._view(rest)
                pos = sum(1 for q in key[:i] if isinstance(q, slice))
                for d, e in zip(k.shape_, sh[pos:pos + nb]):
                    if not same_dim(d, e): raise IndexError("boolean index did not match indexed array")
                mg = k.getter()
                def cond(idx): return tob(mg(idx[pos:pos + nb]))
                if isinstance(value, SArr) and value.shape_ and not all(d is ONE for d in value.shape_):
                    if nb != 1: raise Unsupported("masked write of an array")
                    n, sel, rank = mask_select(k)
                    vsh = sh[:pos] + (n,) + sh[pos + nb:]
                    bshape(vsh, value.shape_)
                    vg = bget(value, len(vsh))
                    vf = lambda idx: vg(idx[:pos] + (rank(idx[pos]),) + idx[pos + nb:])
                else:
                    vv = val(value); vf = lambda idx: vv
                self._write(sh, axes, None, vf, cond)
                return
            if len(k.shape_) == 1 and k.shape_[0].op == "const":
                # integer list: sequence of single writes
                n = int(k.shape_[0].args[0])
                pos = sum(1 for q in key[:i] if isinstance(q, slice))
                for j in range(n):
                    kk = list(key); kk[i] = S(k.elem((const(j),)))
                    v = value
                    if isinstance(value, SArr):
                        tgt = self[tuple(kk)]; nd = len(tgt.shape_) + 1 if isinstance(tgt, SArr) else 1
                        if len(value.shape_) == nd: v = value[tuple([slice(None)] * pos + [j])] if value.shape_[pos] is not ONE else value[tuple([slice(None)] * pos + [0])]
                    self[tuple(kk)] = v
                return
        raise Unsupported("advanced assignment")
    def _write(self, sh, axes, value, vf=None, cond=None):
        b = self.buf; old = b.content
        if getattr(self, "setitem_forbidden", False) or b.aliased:
            raise Unsupported("write through (or under) a reshaped view")
        if vf is None:
            if isinstance(value, SArr):
                # broadcasting value onto sh; leading ones dropped
                vs = value.shape_
                while len(vs) > len(sh) and vs[0] is ONE: value = value[0]; vs = value.shape_
                full = bshape(sh, vs)
                if len(full) > len(sh) or not all(a is b_ or same_dim(a, b_) for a, b_ in zip(full, sh)):
                    raise ValueError("could not broadcast input array from shape %s into shape %s" % (tuple(map(show, vs)), tuple(map(show, sh))))
                vf = bget(value, len(sh))
            else:
                vv = val(value); vf = lambda idx: vv
        dt = _KD[self.kind]
        conv = lambda v: cast_val(v, dt)
        nd = len(sh)
        bs = b.shape
        def content(bi):
            conds = []; idx = [ZERO] * nd
            for ax, a in enumerate(axes):
                x = bi[ax]
                if a[0] == "f":
                    conds.append(eq(x, a[1]))
                    if conds[-1] is FALSE: return old(bi)
                else:
                    _, na, st, sp = a
                    n = sh[na]
                    d = sub(x, st)
                    if sp != 1:
                        if sp == -1: i = neg(d)
                        else:
                            i = vfdiv(d, const(sp)); conds.append(eq(vmod(d, const(sp)), ZERO))
                    else: i = d
                    if not (st is ZERO and sp == 1 and (n is bs[ax])):
                        c1 = ge(i, ZERO); c2 = lt(i, n)
                        for c_ in (c1, c2):
                            if c_ is TRUE: continue
                            if c_ is FALSE: return old(bi)
                            k = known(c_)
                            if k is None: conds.append(c_)
                            elif k is False: return old(bi)
                    idx[na] = i
            idx = tuple(idx)
            if cond is not None: conds.append(cond(idx))
            c = and_(*conds) if conds else TRUE
            if c is FALSE: return old(bi)
            v = conv(vf(idx))
            if c is TRUE: return v
            return vite(c, v, old(bi))
        b.set(memo_content(content), (axes, sh))
    def assign_all(self, value):
        self._write(self.shape_, self.axes, value)
    # ---- arithmetic
    def _op(self, o, f, r=False, kindf=None):
        if isinstance(o, (list, tuple, SList)): o = SArr.from_list(o, lib=self.lib)
        if not isnum(o): return NotImplemented
        return elementwise(f, (o, self) if r else (self, o), self.lib, kindf)
    def _iop(self, o, f):
        if isinstance(o, (list, tuple, SList)): o = SArr.from_list(o, lib=self.lib)
        r = elementwise(f, (self, o), self.lib)
        if _ORD[r.kind] > _ORD[self.kind] and not (self.kind == "f" and r.kind == "f"):
            if not (self.kind == "i" and r.kind == "f" and False):
                raise TypeError("Cannot cast ufunc output from dtype %s to %s" % (r.kind, self.kind))
        if len(r.shape_) != len(self.shape_): raise ValueError("non-broadcastable output operand")
        self.assign_all(r); return self
    def __add__(s, o): return s._op(o, vadd)
    def __radd__(s, o): return s._op(o, vadd, True)
    def __iadd__(s, o): return s._iop(o, vadd)
    def __sub__(s, o): return s._op(o, vsub)
    def __rsub__(s, o): return s._op(o, vsub, True)
    def __isub__(s, o): return s._iop(o, vsub)
    def __mul__(s, o): return s._op(o, vmul)
    def __rmul__(s, o): return s._op(o, vmul, True)
    def __imul__(s, o): return s._iop(o, vmul)
    def __truediv__(s, o): return s._op(o, vdiv, kindf=lambda k: k if k == "c" else "f")
    def __rtruediv__(s, o): return s._op(o, vdiv, True, kindf=lambda k: k if k == "c" else "f")
    def __itruediv__(s, o): return s._iop(o, vdiv)
    def __pow__(s, o): return s._op(o, vpow2)
    def __rpow__(s, o): return s._op(o, vpow2, True)
    def __ipow__(s, o): return s._iop(o, vpow2)
    def __floordiv__(s, o): return s._op(o, vfdiv)
    def __rfloordiv__(s, o): return s._op(o, vfdiv, True)
    def __mod__(s, o): return s._op(o, vmod)
    def __neg__(s): return elementwise(vneg, (s,), s.lib)
    def __pos__(s): return s
    def __abs__(s): return s.abs()
    def __matmul__(s, o): return matmul(s, o)
    def __lt__(s, o): return s._cmp(o, "lt")
    def __le__(s, o): return s._cmp(o, "le")
    def __gt__(s, o): return s._cmp(o, "gt")
    def __ge__(s, o): return s._cmp(o, "ge")
    def __eq__(s, o):
        if not isnum(o) and not isinstance(o, (list, tuple)): return False
        return s._cmp(o, "eq")
    def __ne__(s, o):
        if not isnum(o) and not isinstance(o, (list, tuple)): return True
        return s._cmp(o, "ne")
    def _cmp(s, o, op):
        if isinstance(o, (list, tuple)): o = SArr.from_list(o)
        return elementwise(lambda a, b: vcmp(op, a, b), (s, o), s.lib, lambda k: "b")
    def __and__(s, o): return elementwise(lambda a, b: and_(tob(a), tob(b)), (s, o), s.lib, lambda k: "b")
    __rand__ = __and__
    def __or__(s, o): return elementwise(lambda a, b: or_(tob(a), tob(b)), (s, o), s.lib, lambda k: "b")
    __ror__ = __or__
    def __invert__(s): return elementwise(lambda a: not_(tob(a)), (s,), s.lib, lambda k: "b")
    # ---- unary methods
    def abs(s): return elementwise(vabs, (s,), s.lib, lambda k: "f" if k == "c" else k)
    absolute = abs
    def square(s): return s * s
    def sqrt(s): return elementwise(lambda v: sqrt_(v), (s,), s.lib, lambda k: "f")
    def exp(s): return elementwise(lambda v: vexp(b2n(v)), (s,), s.lib, lambda k: "c" if k == "c" else "f")
    def log(s): return elementwise(lambda v: vlog(v), (s,), s.lib, lambda k: "f")
    def sin(s): return elementwise(lambda v: app("sin", b2n(v)), (s,), s.lib, lambda k: "f")
    def cos(s): return elementwise(lambda v: app("cos", b2n(v)), (s,), s.lib, lambda k: "f")
    def relu(s): return elementwise(lambda v: max_(v, ZERO), (s,), s.lib)
    def sign(s): return elementwise(lambda v: app("sign", v), (s,), s.lib)
    def pow(s, o): return s ** o
    def isnan(s): return elementwise(visnan, (s,), s.lib, lambda k: "b")
    def isfinite(s): return elementwise(visfin, (s,), s.lib, lambda k: "b")
    def reciprocal(s): return 1 / s
    def rsqrt(s): return 1 / s.sqrt()
    def neg(s): return -s
    def mul(s, o): return s * o
    def div(s, o): return s / o
    def add(s, o, alpha=1): return s + o * alpha
    def sub(s, o): return s - o
    def conj(s): return elementwise(vconj, (s,), s.lib)
    conjugate = conj
    @property
    def real(s): return elementwise(re_, (s,), s.lib, lambda k: "f" if k == "c" else k)
    @property
    def imag(s): return elementwise(im_, (s,), s.lib, lambda k: "f" if k == "c" else k)
    def clamp(s, min=None, max=None):
        r = s
        if min is not None: r = elementwise(lambda a, b: max_(b2n(a), b2n(b)), (r, min), s.lib)
        if max is not None: r = elementwise(lambda a, b: min_(b2n(a), b2n(b)), (r, max), s.lib)
        return r
    clip = clamp
    # ---- in place torch
    def add_(s, o, alpha=1): s.assign_all(s + o * alpha); return s
    def mul_(s, o): s.assign_all(s * o); return s
    def div_(s, o): s.assign_all(s / o); return s
    def sub_(s, o): s.assign_all(s - o); return s
    def copy_(s, o): s.assign_all(o); return s
    def fill_(s, o): s.assign_all(o); return s
    def zero_(s): s.assign_all(0); return s
    def abs_(s): s.assign_all(s.abs()); return s
    def fill(s, o): s.assign_all(o)
    def sort(s, *a, **k): raise Unsupported("sort")
    # ---- copies / casts
    def copy(s, order=None): return s.copy_as()
    def clone(s, **k): return s.copy_as()
    __copy__ = copy
    def __deepcopy__(s, memo): return s.copy_as()
    def detach(s): return s.alias()
    def cpu(s): return s
    def cuda(s, *a): return s
    def contiguous(s, **k): return s
    def requires_grad_(s, v=True): s.requires_grad = v; return s
    def numpy(s, **k): return s.alias("np")
    def __array__(s, *a, **k): raise Unsupported("conversion of a symbolic array to a machine array")
    def to(s, *a, dtype=None, device=None, **k):
        for x in a:
            if isinstance(x, DT): dtype = x
        if dtype is not None and todt(dtype).kind != s.kind: return s.astype(dtype)
        return s
    def astype(s, dt, copy=True, **k): return s.copy_as(kind=todt(dt).kind)
    def float(s): return s.astype(DT_F) if s.kind != "f" else s
    double = float
    def half(s): return s.float()
    def int(s): return s.astype(DT_I)
    long = int
    def bool(s): return s.astype(DT_B)
    def type(s, dt=None): return s.astype(dt) if dt is not None else s.dtype
    def type_as(s, o): return s.astype(o.dtype)
    def new_zeros(s, *sh, **k): return zeros(_shape_args(sh), "f", s.lib)
    def new_tensor(s, x, **k): return SArr.from_list(x, lib=s.lib)
    def backward(s, *a, **k): ctx_event("backward", s)
    def retain_grad(s): pass
    @property
    def data(s): return s.alias()
    @data.setter
    def data(s, v): s.assign_all(v)
    def setflags(s, *a, **k): pass
    def unbind(s, dim=0):
        ax = norm_axis(dim, len(s.shape_)); n = s.shape_[ax]
        if n.op != "const": raise Unsupported("unbind along a symbolic axis")
        return tuple(s[(slice(None),) * ax + (i,)] for i in range(int(n.args[0])))
    # ---- reductions
    def sum(s, axis=None, dim=None, keepdims=False, keepdim=False, dtype=None):
        return reduce_sum(s, axis if dim is None else dim, keepdims or keepdim)
    def mean(s, axis=None, dim=None, keepdims=False, keepdim=False, dtype=None):
        a = axis if dim is None else dim
        t = reduce_sum(s, a, keepdims or keepdim)
        n = count_axes(s, a)
        r = t / S(n) if isinstance(t, SArr) else S(vdiv(val(t), n))
        return r
    def prod(s, axis=None, dim=None):
        if axis is None and dim is None:
            if all(d.op == "const" for d in s.shape_):
                r = ONE
                for idx in itertools.product(*[range(int(d.args[0])) for d in s.shape_]): r = vmul(r, s.elem(tuple(const(i) for i in idx)))
                return S(r) if s.lib == "np" else SArr((), lambda i: r, s.kind, s.lib)
        raise Unsupported("prod")
    def norm(s, p=None, dim=None, keepdim=False, ord=None, axis=None):
        if p not in (None, 2, "fro") and not (isinstance(p, S) and p.concrete_int() == 2): raise Unsupported("norm %r" % (p,))
        d = dim if dim is not None else axis
        return unary_any(sqrt_, reduce_sum(elementwise(vabs2, (s,), s.lib, lambda k: "f" if k == "c" else k), d, keepdim), "f")
    def var(s, *a, **k): raise Unsupported("var")
    def std(s, *a, **k): raise Unsupported("std")
    def min(s, *a, **k):
        return reduce_minmax(s, "min", *a, **k)
    def max(s, *a, **k): return reduce_minmax(s, "max", *a, **k)
    def any(s, axis=None, dim=None): return reduce_bool(s, "any", axis if dim is None else dim)
    def all(s, axis=None, dim=None): return reduce_bool(s, "all", axis if dim is None else dim)
    def nonzero(s): return WhereIdx(s if s.kind == "b" else s != 0)
    def cumsum(s, *a, **k): raise Unsupported("cumsum")
    def dot(s, o): return matmul(s, o)
    # ---- shape
    def reshape(s, *sh, order=None): return reshape(s, _shape_args(sh))
    def view(s, *sh):
        if len(sh) == 1 and isinstance(sh[0], (DT, str)): raise Unsupported("view(dtype)")
        return reshape(s, _shape_args(sh))
    def view_as(s, o): return reshape(s, o.shape)
    def flatten(s, *a, **k): return reshape(s, (-1,), copy=True)
    def ravel(s, *a, **k): return reshape(s, (-1,))
    def squeeze(s, dim=None, axis=None):
        d = dim if dim is not None else axis
        nd = len(s.shape_)
        if d is None: drop = [i for i in range(nd) if s.shape_[i] is ONE]
        else:
            ds = d if isinstance(d, (tuple, list)) else (d,)
            drop = [int(x) % nd for x in ds if s.shape_[int(x) % nd] is ONE]
        return s[tuple(0 if i in drop else slice(None) for i in range(nd))] if drop else s
    def unsqueeze(s, dim):
        nd = len(s.shape_) + 1; dim = int(dim) % nd
        key = [slice(None)] * (nd - 1); key.insert(dim, None)
        return s[tuple(key)]
    def transpose(s, *axes):
        nd = len(s.shape_)
        if s.lib == "t" and len(axes) == 2:
            p = list(range(nd)); a, b = int(axes[0]) % nd, int(axes[1]) % nd; p[a], p[b] = p[b], p[a]
        else:
            if len(axes) == 1 and isinstance(axes[0], (tuple, list)): axes = axes[0]
            if len(axes) == 1 and axes[0] is None: axes = ()
            p = [int(a) % nd for a in axes] if axes else list(range(nd))[::-1]
        inv = {old: new for new, old in enumerate(p)}
        ax = tuple(a if a[0] == "f" else ("a", inv[a[1]], a[2], a[3]) for a in s.axes)
        return SArr(tuple(s.shape_[i] for i in p), None, s.kind, s.lib, s.buf, ax)
    def permute(s, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)): axes = axes[0]
        old = s.lib
        s2 = s.alias("np"); r = s2.transpose(*axes); r.lib = old; return r
    def t(s): return s.transpose(0, 1) if len(s.shape_) == 2 else s
    def swapaxes(s, a, b):
        nd = len(s.shape_); p = list(range(nd)); a, b = int(a) % nd, int(b) % nd; p[a], p[b] = p[b], p[a]
        return s.permute(*p)
    def movedim(s, a, b): return moveaxis(s, a, b)
    def expand(s, *sh):
        sh = _shape_args(sh); nd = len(sh)
        out = []
        for i, d in enumerate(sh):
            j = i - (nd - len(s.shape_))
            if isinstance(d, int) and d == -1: out.append(s.shape_[j])
            else: out.append(dimE(d))
        g = bget(s, nd)
        return s.new(tuple(out), g)
    def expand_as(s, o): return s.expand(*o.shape)
    def repeat(s, *r): raise Unsupported("repeat")
    def flip(s, dims):
        dims = dims if isinstance(dims, (tuple, list)) else (dims,)
        return flip(s, dims)
    def diff(s, n=1, dim=-1): return diff(s, dim)
    def view_real(s): raise Unsupported("view_real")

def ctx_event(kind, *a): pass

def sqrt_(v):
    if isinstance(v, Cx): raise Unsupported("complex sqrt")
    return sqrt(b2n(v))
def vlog(v):
    if isinstance(v, Cx): raise Unsupported("complex log")
    return app("log", b2n(v))
def unary_any(f, x, kind=None):
    if isinstance(x, SArr): return elementwise(f, (x,), x.lib, (lambda k: kind) if kind else None)
    return S(f(val(x)))

def bget(a, nd):
    """getter of a broadcast to nd axes"""
    g = a.getter(); sh = a.shape_; off = nd - len(sh)
    ones = tuple(d is ONE for d in sh)
    if off == 0 and not any(ones): return g
    def h(idx): return g(tuple(ZERO if o else i for i, o in zip(idx[off:], ones)))
    return h

def elementwise(f, args, lib="np", kindf=None):
    arrs = [a for a in args if isinstance(a, SArr)]
    libs = {a.lib for a in arrs}
    if "t" in libs: lib = "t"
    sh = bshape(*[a.shape_ for a in arrs]) if arrs else ()
    gs = []; kinds = []
    for a in args:
        if isinstance(a, SArr): gs.append(bget(a, len(sh))); kinds.append(a.kind)
        else:
            v = val(a); gs.append(lambda idx, v=v: v); kinds.append(skind(a))
    k = promote(*kinds)
    if kindf: k = kindf(k)
    elif k == "b": k = "i"
    if f is vpow2 and k == "i":
        # integer powers: negative exponents give floats
        if any(isinstance(a, (int, S)) and isinstance(val(a), E) and val(a).op == "const" and val(a).args[0] < 0 for a in args[1:]): k = "f"
    if len(gs) == 1:
        g0 = gs[0]; content = lambda idx: f(g0(idx))
    elif len(gs) == 2:
        g0, g1 = gs; content = lambda idx: f(g0(idx), g1(idx))
    else: content = lambda idx: f(*[g(idx) for g in gs])
    if not sh and lib == "np": return S(content(()), k)
    return SArr(sh, content, k, lib)

def pick(i, vals):
    """vals[i] for a symbolic i"""
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1): r = vite(eq(i, const(k)), vals[k], r)
    return r

def norm_axis(ax, nd):
    a = int(S(val(ax)).__index__()) if not isinstance(ax, int) else ax
    if not -nd <= a < nd: raise IndexError("axis %d out of range" % a)
    return a % nd

def reduce_sum(s, axis=None, keep=False):
    nd = len(s.shape_)
    if axis is None: axs = list(range(nd))
    elif isinstance(axis, (tuple, list)): axs = [norm_axis(a, nd) for a in axis]
    else: axs = [norm_axis(axis, nd)]
    g = s.getter(); rest = [i for i in range(nd) if i not in axs]
    sh = tuple(s.shape_[i] if i in rest else ONE for i in range(nd)) if keep else tuple(s.shape_[i] for i in rest)
    dims = [s.shape_[a] for a in axs]
    def content(idx):
        full = [None] * nd
        if keep:
            for i in rest: full[i] = idx[i]
        else:
            for i, e in zip(rest, idx): full[i] = e
        def go(j):
            if j == len(axs): return b2n(g(tuple(full)))
            n = dims[j]
            if n.op == "const" and n.args[0] <= 64:
                r = ZERO
                for k in range(int(n.args[0])):
                    full[axs[j]] = const(k); r = vadd(r, go(j + 1))
                return r
            bv = fresh("s", "I"); full[axs[j]] = bv
            return vsum(bv, n, go(j + 1))
        return go(0)
    kind = s.kind if s.kind != "b" else "i"
    if not sh and s.lib == "np": return S(content(()), kind)
    return SArr(sh, content, kind, s.lib)

def count_axes(s, axis):
    nd = len(s.shape_)
    axs = range(nd) if axis is None else ([norm_axis(a, nd) for a in axis] if isinstance(axis, (tuple, list)) else [norm_axis(axis, nd)])
    return mul(ONE, *[s.shape_[a] for a in axs])

def reduce_minmax(s, which, axis=None, dim=None, **k):
    a = axis if dim is None else dim
    if a is not None: raise Unsupported("min/max along an axis")
    if s.shape_ and all(d.op == "const" for d in s.shape_):
        vs = [s.elem(tuple(const(i) for i in idx)) for idx in itertools.product(*[range(int(d.args[0])) for d in s.shape_])]
        r = vs[0]
        for v in vs[1:]: r = (min_ if which == "min" else max_)(r, v)
        return S(r) if s.lib == "np" else SArr((), lambda i: r, s.kind, s.lib)
    fs = [fresh("m", "I") for _ in s.shape_]
    e = uf("arr" + which, lam(fs, s.elem(tuple(fs))), *s.shape_)
    return S(e) if s.lib == "np" else SArr((), lambda i: e, s.kind, s.lib)

def reduce_bool(s, which, axis=None):
    if axis is not None: raise Unsupported("any/all along an axis")
    if all(d.op == "const" for d in s.shape_):
        vs = [tob(s.elem(tuple(const(i) for i in idx))) for idx in itertools.product(*[range(int(d.args[0])) for d in s.shape_])]
        r = (or_ if which == "any" else and_)(*vs)
    elif any(d.op == "const" and d.args[0] <= 0 for d in s.shape_): r = FALSE if which == "any" else TRUE
    else:
        fs = [fresh("m", "I") for _ in s.shape_]
        b = tob(s.elem(tuple(fs)))
        if which == "all": b = not_(b)
        if b is FALSE: r = FALSE
        else: r = mk("app", ("exists", lam(fs, b)) + tuple(s.shape_), "B", nan=False)
        if which == "all": r = not_(r)
    if s.lib == "np": return wrap(r)
    return SArr((), lambda i: r, "b", s.lib)

_FLAT = {}
def _shape_args(sh):
    if len(sh) == 1 and isinstance(sh[0], (tuple, list, SArr)): sh = tuple(sh[0])
    return tuple(sh)
def shape_of(sh):
    """argument of zeros/ones/...: int, tuple, list, array"""
    if isinstance(sh, (int, S)): return (dimE(sh),)
    if isinstance(sh, SArr):
        if not sh.shape_: return (dimE(sh),)
        return tuple(dimE(x) for x in sh)
    return tuple(dimE(x) for x in sh)
def ravel_index(idx, dims):
    r = ZERO
    for i, d in zip(idx, dims): r = add(mul(r, d), i)
    if len(dims) > 1: _FLAT.setdefault(r.id, []).append((tuple(dims), tuple(idx)))
    return r
def unravel_index(f, dims):
    if len(dims) == 0: return ()
    if len(dims) == 1: return (f,)
    for ds, ix in _FLAT.get(f.id, ()):
        if ds == tuple(dims): return ix
    out = []
    for d in reversed(dims[1:]):
        if d is ONE: out.append(ZERO); continue
        q = vfdiv(f, d); out.append(sub(f, mul(d, q))); f = q
    out.append(f)
    return tuple(reversed(out))
def reshape(s, sh, copy=False):
    sh = _shape_args((sh,)) if isinstance(sh, (tuple, list)) else (sh,)
    known_ = []; hole = None
    for i, d in enumerate(sh):
        if isinstance(d, int) and d == -1 or (isinstance(d, S) and d.concrete_int() == -1): hole = i; known_.append(None)
        else: known_.append(dimE(d))
    total = mul(ONE, *s.shape_)
    if hole is not None:
        rest = mul(ONE, *[d for d in known_ if d is not None])
        if rest is ONE: known_[hole] = total
        else:
            q = vfdiv(total, rest)
            if not ent(eq(mul(q, rest), total)): raise Unsupported("reshape(-1) with unknown divisibility")
            known_[hole] = q
    dims = tuple(known_)
    if dims == s.shape_ and not copy: return s.alias()
    tot2 = mul(ONE, *dims)
    if tot2 is not total:
        if tot2.op == "const" and total.op == "const": raise ValueError("cannot reshape array of size %s into shape %s" % (show(total), tuple(map(show, dims))))
        if not ent(eq(tot2, total)):
            if not decide(eq(tot2, total)): raise ValueError("cannot reshape array")
    g = s.getter(); old = s.shape_
    # common leading/trailing dimensions stay as they are
    o = list(old); n = list(dims); lead = 0
    while o and n and o[0] is n[0]: o.pop(0); n.pop(0); lead += 1
    tail = 0
    while o and n and o[-1] is n[-1]: o.pop(); n.pop(); tail += 1
    o1 = [d for d in o if d is not ONE]; n1 = [d for d in n if d is not ONE]
    def content(idx):
        mid = idx[lead:len(idx) - tail] if tail else idx[lead:]
        midn = [i for i, d in zip(mid, n) if d is not ONE]
        if o1 == n1: un = tuple(midn)
        else: un = unravel_index(ravel_index(midn, n1) if len(n1) != 1 else midn[0], o1)
        it = iter(un)
        full = tuple(ZERO if d is ONE else next(it) for d in o)
        return g(idx[:lead] + full + (idx[len(idx) - tail:] if tail else ()))
    r = s.new(dims, content)
    # pure insertion/removal of unit axes is a view
    if o1 == n1 and not copy:
        om = [i for i, d in enumerate(old) if d is not ONE]; nm = [i for i, d in enumerate(dims) if d is not ONE]
        mp = dict(zip(om, nm))
        axes = []
        for a in s.axes:
            if a[0] == "f": axes.append(a)
            elif a[1] in mp: axes.append(("a", mp[a[1]], a[2], a[3]))
            else: axes.append(("f", a[2]))
        r = SArr(dims, None, s.kind, s.lib, s.buf, tuple(axes))
    elif not copy:
        r.shared_with = s           # numpy would give a view: writes through it are rejected
        r.setitem_forbidden = True
        s.buf.aliased = True
    return r
def moveaxis(s, a, b):
    nd = len(s.shape_); a = norm_axis(a, nd); b = norm_axis(b, nd)
    p = [i for i in range(nd) if i != a]; p.insert(b, a)
    return s.permute(*p)
def flip(s, dims):
    dims = [norm_axis(d, len(s.shape_)) for d in dims]
    g = s.getter(); sh = s.shape_
    return s.new(sh, lambda idx: g(tuple(sub(sub(sh[i], ONE), e) if i in dims else e for i, e in enumerate(idx))))
def diff(s, dim=-1):
    nd = len(s.shape_); d = norm_axis(dim, nd); g = s.getter()
    sh = tuple(sub(n, ONE) if i == d else n for i, n in enumerate(s.shape_))
    return s.new(sh, lambda idx: vsub(g(idx[:d] + (add(idx[d], ONE),) + idx[d + 1:]), g(idx)))
def zeros(shape, kind="f", lib="np", v=ZERO):
    dt = _KD[kind]; vv = cast_val(v, dt)
    return SArr(shape_of(shape), lambda idx: vv, kind, lib)
def stack(parts, axis=0, lib=None):
    parts = parts_of(parts)
    if isinstance(parts, SList): return stack_slist(parts, axis, lib)
    parts = [p if isinstance(p, SArr) else SArr.from_list(p) for p in parts]
    if not parts: raise ValueError("need at least one array to stack")
    nd = len(parts[0].shape_) + 1; ax = norm_axis(axis, nd)
    for p in parts[1:]:
        if len(p.shape_) != nd - 1 or not all(same_dim(a, b) for a, b in zip(p.shape_, parts[0].shape_)):
            raise ValueError("all input arrays must have the same shape")
    gs = [p.getter() for p in parts]
    def content(idx):
        i = idx[ax]; rest = idx[:ax] + idx[ax + 1:]
        if i.op == "const": return gs[int(i.args[0])](rest)
        return pick(i, [g(rest) for g in gs])
    sh = parts[0].shape_
    return SArr(sh[:ax] + (const(len(parts)),) + sh[ax:], content, promote(*[p.kind for p in parts]), lib or parts[0].lib)
def parts_of(xs):
    """a list of known length, or an SList"""
    if isinstance(xs, PList) and xs.tail: xs = xs.as_slist()
    if not isinstance(xs, (list, tuple, SArr)) and hasattr(xs, "get") and hasattr(xs, "n") and isinstance(getattr(xs, "n"), E): xs = SList(xs.n, xs.get)
    if isinstance(xs, SArr): xs = xs if xs.shape_[0].op == "const" else SList(xs.shape_[0], xs.sub_at)
    if isinstance(xs, SList): return xs if xs.n.op != "const" else list(xs)
    return list(xs)
def stack_slist(xs, axis, lib):
    """stack of a symbolic number of arrays of one shape"""
    if not decide(gt(xs.n, ZERO)): raise ValueError("need at least one array to stack")
    v = fresh("p", "I"); x = xs.get(v)
    if not isinstance(x, SArr): raise Unsupported("stack of a symbolic list of non-arrays")
    if any(v.args[0] in d.fv if hasattr(d, "fv") else True for d in x.shape_): raise Unsupported("stack of arrays of varying shape")
    ax = norm_axis(axis, len(x.shape_) + 1); sh = x.shape_; g = xs.get
    return SArr(sh[:ax] + (xs.n,) + sh[ax:], lambda idx: g(idx[ax]).elem(tuple(idx[:ax]) + tuple(idx[ax + 1:])), x.kind, lib or x.lib)
def concat_slist(xs, axis, lib):
    if not decide(gt(xs.n, ZERO)): raise ValueError("need at least one array to concatenate")
    v = fresh("p", "I"); x = xs.get(v)
    if not isinstance(x, SArr): raise Unsupported("concatenation of a symbolic list of non-arrays")
    if any(v.args[0] in d.fv if hasattr(d, "fv") else True for d in x.shape_): raise Unsupported("concatenation of arrays of varying shape")
    ax = norm_axis(axis, len(x.shape_)); sh = x.shape_; g = xs.get; m = sh[ax]
    return SArr(sh[:ax] + (mul(xs.n, m),) + sh[ax + 1:], lambda idx: g(app("fdiv", idx[ax], m)).elem(tuple(idx[:ax]) + (app("mod", idx[ax], m),) + tuple(idx[ax + 1:])), x.kind, lib or x.lib)
def concat(parts, axis=0, lib=None):
    parts = parts_of(parts)
    if isinstance(parts, SList): return concat_slist(parts, axis, lib)
    parts = [p if isinstance(p, SArr) else SArr.from_list(p) for p in parts]
    nd = len(parts[0].shape_); ax = norm_axis(axis, nd)
    for p in parts[1:]:
        if len(p.shape_) != nd: raise ValueError("all the input array dimensions must match")
        for i in range(nd):
            if i != ax and not same_dim(p.shape_[i], parts[0].shape_[i]): raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    gs = [p.getter() for p in parts]
    offs = [ZERO]
    for p in parts: offs.append(add(offs[-1], p.shape_[ax]))
    def content(idx):
        i = idx[ax]
        r = None
        for k in range(len(parts) - 1, -1, -1):
            if r is not None or k < len(parts) - 1:
                c = lt(i, offs[k + 1])
                kn = known(c)
                if kn is False: continue
            v = gs[k](idx[:ax] + (sub(i, offs[k]),) + idx[ax + 1:])
            if r is None: r = v
            else:
                c = lt(i, offs[k + 1])
                r = v if known(c) is True else vite(c, v, r)
        return r
    sh = parts[0].shape_
    return SArr(sh[:ax] + (offs[-1],) + sh[ax + 1:], content, promote(*[p.kind for p in parts]), lib or parts[0].lib)
def matmul(a, b):
    a = a if isinstance(a, SArr) else SArr.from_list(a); b = b if isinstance(b, SArr) else SArr.from_list(b)
    if len(a.shape_) == 1 and len(b.shape_) == 1: return reduce_sum(a * b)
    if len(b.shape_) == 1: return reduce_sum(a * b, -1)
    if len(b.shape_) == 2:
        ga, gb = a.getter(), b.getter(); n = a.shape_[-1]
        if not same_dim(n, b.shape_[0]): raise ValueError("matmul: dimension mismatch")
        def content(idx):
            bv = fresh("s", "I")
            f = lambda k: vmul(ga(idx[:-1] + (k,)), gb((k, idx[-1])))
            if n.op == "const" and n.args[0] <= 64:
                r = ZERO
                for k in range(int(n.args[0])): r = vadd(r, f(const(k)))
                return r
            return vsum(bv, n, f(bv))
        return a.new(a.shape_[:-1] + (b.shape_[1],), content, promote(a.kind, b.kind))
    raise Unsupported("matmul")
def mask_select(mask):
    """compressed 1-D selection: (count, sel, rank)"""
    if "select" in State.hooks:
        r = State.hooks["select"](mask)
        if r is not None: return r
    n = mask.shape_[0]; f = fresh("m", "I")
    l = lam([f], b2n(tob(mask.elem((f,)))))
    cnt = uf("count", l, n, sort="I")
    ctx.assume(ge(cnt, ZERO)); ctx.assume(le(cnt, n))
    def sel(j):
        if j.op == "app" and j.args[0] == "rank" and j.args[1] is l: return j.args[3]
        return uf("sel", l, n, j, sort="I")
    def rank(i): return uf("rank", l, n, i, sort="I")
    return cnt, sel, rank

# ---- lists
class SList:
    """list of symbolic length"""
    def __init__(self, n, get):
        self.n = n; self.get = get
    def __len__(self):
        if self.n.op == "const": return int(self.n.args[0])
        raise Unsupported("native len() of symbolic list")
    def __bool__(self): return decide(gt(self.n, ZERO))
    def __iter__(self):
        if self.n.op == "const": return iter([self.get(const(i)) for i in range(int(self.n.args[0]))])
        raise Unsupported("iteration over a list of symbolic length")
    def __getitem__(self, k):
        if isinstance(k, slice):
            tmp = SArr((self.n,), lambda idx: ZERO)
            a, ln, st = tmp._slice(k, self.n)
            get = self.get
            return SList(ln, lambda i: get(add(a, mul(const(st), i))))
        e = SArr((self.n,), lambda idx: ZERO)._intidx(k, self.n)
        return self.get(e)
    def map(self, f): return SList(self.n, lambda i, g=self.get: f(g(i)))
    def append(self, x):
        if State.journals: raise Unsupported("append to a symbolic list inside a symbolic loop")
        n0, g0 = self.n, self.get
        self.n = add(n0, ONE)
        def get(i):
            c = eq(i, n0)
            if known(c) is True: return x
            if known(c) is False or ent(lt(i, n0)): return g0(i)
            return S(vite(c, val(x), val(g0(i))))
        self.get = get
    def copy(self): return SList(self.n, self.get)
    def to_array(self, lib="np"):
        g = self.get
        x = g(fresh("p", "I"))
        if isinstance(x, SArr):
            return SArr((self.n,) + x.shape_, lambda idx: g(idx[0]).elem(idx[1:]), x.kind, lib)
        k = skind(x)
        return SArr((self.n,), lambda idx: val(g(idx[0])), k, lib)
    def sum(self, start=0):
        bv = fresh("s", "I")
        x = self.get(bv)
        if isinstance(x, SArr): raise Unsupported("sum of a symbolic list of arrays")
        return S(vadd(val(start), vsum(bv, self.n, b2n(val(x)))))
    def __add__(self, o):
        if isinstance(o, list): o = PList(o).as_slist()
        n0, g0, g1 = self.n, self.get, o.get
        return SList(add(n0, o.n), lambda i: S(vite(lt(i, n0), val(g0(i)), val(g1(sub(i, n0))))))

class PList(list):
    """python list of the program; may get a symbolic tail from a summarised loop"""
    __slots__ = ("tail", "depth")
    def __init__(self, *a):
        list.__init__(self, *a); self.tail = None; self.depth = len(State.journals)
    def _mut(self):
        if self.depth < len(State.journals): raise Unsupported("list mutated inside a symbolic loop")
        if self.tail: raise Unsupported("mutation of a partly symbolic list")
    def append(self, x):
        if self.depth < len(State.journals):
            j = State.journals[-1]
            if len(State.journals) == self.depth + 1:
                ap = j.__dict__.setdefault("appends", [])
                ap.append((self, x)); return
            raise Unsupported("list mutated inside nested symbolic loops")
        if self.tail: self.tail.append(x)
        else: list.append(self, x)
    def extend(self, x): self._mut(); list.extend(self, x)
    def insert(self, *a): self._mut(); list.insert(self, *a)
    def pop(self, *a): self._mut(); return list.pop(self, *a)
    def clear(self): self._mut(); list.clear(self)
    def remove(self, x): self._mut(); list.remove(self, x)
    def reverse(self): self._mut(); list.reverse(self)
    def sort(self, **k): raise Unsupported("sort")
    def __setitem__(self, k, v): self._mut(); list.__setitem__(self, k, v)
    def __iadd__(self, o): self._mut(); list.extend(self, o); return self
    def __getitem__(self, k):
        if self.tail: return self.as_slist()[k]
        if isinstance(k, slice):
            f = lambda x: None if x is None else (x.__index__() if isinstance(x, S) else x)
            return PList(list.__getitem__(self, slice(f(k.start), f(k.stop), f(k.step))))
        if isinstance(k, S) and k.concrete_int() is None:
            n = list.__len__(self)
            for i in range(n):
                if decide(eq(k.v, const(i))): return list.__getitem__(self, i)
            for i in range(1, n + 1):
                if decide(eq(k.v, const(-i))): return list.__getitem__(self, -i)
            raise IndexError("list index out of range")
        return list.__getitem__(self, k)
    def __iter__(self):
        if self.tail: return iter(self.as_slist())
        return list.__iter__(self)
    def __len__(self):
        if self.tail: return len(self.as_slist())
        return list.__len__(self)
    def __bool__(self):
        if self.tail: return bool(self.as_slist())
        return list.__len__(self) > 0
    def __add__(self, o): return PList(list(self) + list(o))
    def __radd__(self, o): return PList(list(o) + list(self))
    def __mul__(self, k):
        k = k.__index__() if isinstance(k, S) else k
        return PList(list.__mul__(self, k))
    __rmul__ = __mul__
    def copy(self): return PList(list(self))
    def __deepcopy__(self, memo):
        import copy
        return PList([copy.deepcopy(x, memo) for x in self])
    def __hash__(self): raise TypeError("unhashable type: 'list'")
    def __eq__(self, o):
        if not isinstance(o, list): return False
        if len(self) != len(o): return False
        return all(bool(a == b) for a, b in zip(self, o))
    def __ne__(self, o): return not self == o
    def as_slist(self):
        items = [list.__getitem__(self, i) for i in range(list.__len__(self))]
        base = len(items)
        if not self.tail:
            def get(i):
                if i.op == "const": return items[int(i.args[0])]
                return S(pick(i, [val(x) for x in items]))
            return SList(const(base), get)
        t = self.tail
        if base == 0: return t
        def get(i):
            if i.op == "const" and i.args[0] < base: return items[int(i.args[0])]
            r = val(t.get(sub(i, const(base))))
            for k in range(base - 1, -1, -1): r = vite(eq(i, const(k)), val(items[k]), r)
            return S(r)
        return SList(add(const(base), t.n), get)
