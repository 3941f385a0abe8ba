"""Iteration: concrete iterables natively; symbolic ones by summarisation or by an invariant (LoopSpec)."""
from .ir import *
from . import ctx
from .ctx import State, decide, ent, PathEnd
from .sym import *

class Break(BaseException): pass
class Continue(BaseException): pass

class SIter:
    """iterable of symbolic length n; get(i) for i in [0,n)"""
    def __init__(self, n, get, lo=ZERO, bound=None): self.n = n; self.get = get; self.lo = lo; self.bound = bound
    def __iter__(self):
        if self.n.op == "const": return iter([self.get(const(i)) for i in range(int(self.n.args[0]))])
        raise Unsupported("native iteration over a symbolic range")
    def __len__(self):
        if self.n.op == "const": return int(self.n.args[0])
        raise Unsupported("len of symbolic range")
    def __getitem__(self, k): return SList(self.n, self.get)[k]

class Poison:
    def __init__(self, why): object.__setattr__(self, "_why", why)
    def _bad(self, *a, **k): raise Unsupported(object.__getattribute__(self, "_why"))
    def __getattr__(self, n): self._bad()
    __call__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __getitem__ = __bool__ = __iter__ = __len__ = __truediv__ = __lt__ = __gt__ = __eq__ = _bad
    __hash__ = None

def to_siter(x):
    """SIter if x has symbolic length, else None"""
    if isinstance(x, SIter): return x if x.n.op != "const" else None
    if isinstance(x, SList): return SIter(x.n, x.get) if x.n.op != "const" else None
    if isinstance(x, PList) and x.tail: l = x.as_slist(); return SIter(l.n, l.get)
    if isinstance(x, SArr) and x.shape_ and x.shape_[0].op != "const":
        return SIter(x.shape_[0], x.sub_at)
    return None

def rng(*a):
    vs = [val(x) for x in a]
    for v in vs:
        if isinstance(v, Cx) or v.sort == "R": raise TypeError("'float' object cannot be interpreted as an integer")
    if all(v.op == "const" for v in vs): return range(*[int(v.args[0]) for v in vs])
    lo, hi, st = (ZERO, vs[0], ONE) if len(vs) == 1 else (vs[0], vs[1], vs[2] if len(vs) > 2 else ONE)
    if st is not ONE:
        if st.op == "const" and st.args[0] == -1:
            d = sub(lo, hi); n = d if ent(ge(d, ZERO)) else ite(ge(d, ZERO), d, ZERO)
            return SIter(n, lambda i: S(sub(lo, i)))
        if st.op == "const" and st.args[0] > 1:
            d = sub(hi, lo); n = vfdiv(add(d, const(st.args[0] - 1)), st); n = n if ent(ge(d, ZERO)) else ite(ge(d, ZERO), n, ZERO)
            return SIter(n, lambda i: S(add(lo, mul(st, i))))
        raise Unsupported("symbolic range step")
    d = sub(hi, lo)
    n = d if ent(ge(d, ZERO)) else ite(ge(d, ZERO), d, ZERO)
    return SIter(n, lambda i: S(add(lo, i)), lo, hi)

def enum(x, start=0):
    s = to_siter(x)
    if s is None: return list(enumerate(list(x), start if isinstance(start, int) else start.__index__()))
    st = val(start)
    r = SIter(s.n, lambda i: (S(add(st, i)), s.get(i)), s.lo, s.bound)
    return r
def zip_(*xs, strict=False):
    ss = [to_siter(x) for x in xs]
    if all(s is None for s in ss): return list(zip(*[list(x) for x in xs]))
    if any(s is None for s in ss):
        # concrete with symbolic: length is the minimum
        raise Unsupported("zip of concrete and symbolic iterables")
    n = ss[0].n
    for s in ss[1:]:
        if s.n is not n and not ent(eq(s.n, n)):
            n = min_(n, s.n)
    return SIter(n, lambda i: tuple(s.get(i) for s in ss))
def reversed_(x):
    s = to_siter(x)
    if s is None: return list(reversed(list(x)))
    return SIter(s.n, lambda i: s.get(sub(sub(s.n, ONE), i)))
def map_(f, *xs):
    ss = [to_siter(x) for x in xs]
    if all(s is None for s in ss): return PList([f(*t) for t in zip(*[list(x) for x in xs])])
    z = zip_(*xs)
    return SList(z.n, lambda i: f(*z.get(i)))

SPECS = []      # (variable name, LoopSpec) active invariants
class LoopSpec:
    """contract invariant for a loop whose bound mentions a given symbolic variable"""
    def establish(self, lo, vars): pass
    def havoc(self, i, vars): pass
    def preserve(self, i, vars): pass
    def exit(self, hi, vars): self.havoc(hi, vars)

class Loop:
    def __init__(self, it):
        self.sym = it if hasattr(it, "_loop_run") else to_siter(it)
        self.concrete = self.sym is None
        self.items = it if self.concrete else None
    def run(self, body, vars):
        s = self.sym
        if hasattr(s, "_loop_run"): return s._loop_run(body, vars)
        if SPECS:
            for nm, spec in SPECS:
                if nm in (s.n if s.bound is None else s.bound).fv: return self.run_spec(body, vars, spec)
        return summarise(s, body, vars)
    def run_spec(self, body, vars, spec):
        s = self.sym
        spec.establish(s.lo, vars)
        skip = getattr(spec, "keep", ())
        if decide(var("step!%d" % [x for _, x in SPECS].index(spec), "B")):
            i = fresh("it", "I")
            ctx.assume(ge(i, ZERO)); ctx.assume(lt(i, s.n))
            self.poison(vars, skip)
            spec.havoc(add(s.lo, i), vars)
            try: body(s.get(i))
            except Continue: pass
            except Break: return
            spec.preserve(add(s.lo, i, ONE), vars)
            raise PathEnd()
        self.poison(vars, skip)
        spec.exit(add(s.lo, s.n), vars)
    def poison(self, vars, skip):
        for nm, (g, st) in vars.items():
            if nm in skip: continue
            try: g()
            except NameError: continue
            st(Poison("value of %s after an invariant-cut loop" % nm))

MISSING = object()
def getv(g):
    try: return g()
    except NameError: return MISSING

def is_scalar(x): return isinstance(x, (S, int, float, Fr)) and not isinstance(x, bool)

def summarise(s, body, vars):
    """map / accumulate / last-value summarisation of   for i in [0,n): body(get(i))"""
    i = fresh("i", "I")
    pre = {nm: getv(g) for nm, (g, st) in vars.items()}
    phi = {}
    for nm, x in pre.items():
        if is_scalar(x):
            v = val(x)
            if isinstance(v, Cx): phi[nm] = Cx(fresh("phr_" + nm), fresh("phi_" + nm))
            else: phi[nm] = fresh("ph_" + nm)
    def reset():
        for nm, (g, st) in vars.items():
            if nm in phi: st(S(phi[nm]))
            elif pre[nm] is not MISSING: st(pre[nm])
    # 0-d / small accumulators held in tensors are handled through buffers below
    def once():
        reset()
        try: body(s.get(i))
        except Continue: pass
        except Break: raise Unsupported("break in a symbolic loop")
        return {nm: getv(g) for nm, (g, st) in vars.items()}
    paths = ctx.sub(once, [ge(i, ZERO), lt(i, s.n)])
    if not paths: raise Unsupported("symbolic loop body has no feasible path")
    for pc, res, exc, news, j in paths:
        if exc is not None:
            raise Unsupported("exception %s: %s in symbolic loop body" % (type(exc).__name__, exc))
    # ---- scalars
    out = {}
    for nm in vars:
        posts = [p[1][nm] for p in paths]
        if nm in phi:
            if not all(is_scalar(x) for x in posts): out[nm] = Poison("loop variable " + nm); continue
            r = val(posts[-1])
            for (pc, *_), x in list(zip(paths, posts))[-2::-1]: r = vite(ctx.pc_and(pc), val(x), r)
            out[nm] = acc_scalar(phi[nm], r, val(pre[nm]), i, s.n, phi, nm)
        else:
            if all(x is pre[nm] for x in posts): continue
            if all(is_scalar(x) for x in posts):
                r = val(posts[-1])
                for (pc, *_), x in list(zip(paths, posts))[-2::-1]: r = vite(ctx.pc_and(pc), val(x), r)
                fv = set().union(*[e.fv for e in (([r.re, r.im]) if isinstance(r, Cx) else [r])])
                if any(n in fv for n in phinames(phi)): out[nm] = Poison("loop variable " + nm)
                else: out[nm] = S(vsubst(r, {i: sub(s.n, ONE)}))
            else: out[nm] = Poison("loop variable %s (last iteration value)" % nm)
    # accumulators referring to other phis are rejected in acc_scalar
    # ---- buffers
    allnames = phinames(phi)
    bufs = []
    for p in paths:
        for b in p[3]:
            if b not in bufs and b.depth <= len(State.journals): bufs.append(b)
    newc = {}
    for b in bufs:
        newc[b] = summarise_buffer(b, paths, i, s.n, phi, out, pre)
    for b, (c, views) in newc.items():
        for v in views: b.set(c, v)
    # ---- list appends
    aps = {}
    for k, p in enumerate(paths):
        for (l, x) in getattr(p[4], "appends", ()):
            aps.setdefault(id(l), (l, {}))[1].setdefault(k, []).append(x)
    for l, per in aps.values():
        if len(per) != len(paths) or any(len(v) != 1 for v in per.values()): raise Unsupported("irregular append in a symbolic loop")
        if l.tail: raise Unsupported("append to symbolic tail")
        xs = [per[k][0] for k in range(len(paths))]
        if not all(is_scalar(x) for x in xs):
            if len(xs) == 1 and isinstance(xs[0], SArr):
                a = xs[0]
                if a.buf in newc: raise Unsupported("append of an array that the loop modifies")
                pr = a.elem(tuple(fresh("p", "I") for _ in a.shape_))
                if any(n in e.fv for n in allnames for e in ([pr.re, pr.im] if isinstance(pr, Cx) else [pr])): raise Unsupported("append of an accumulating value")
                l.tail = SList(s.n, lambda q, a=a, g0=a.getter(): SArr(a.shape_, lambda idx: vsubst(g0(idx), {i: q}), a.kind, a.lib)); continue
            raise Unsupported("append of non-scalars in a symbolic loop")
        r = val(xs[-1])
        for (pc, *_), x in list(zip(paths, xs))[-2::-1]: r = vite(ctx.pc_and(pc), val(x), r)
        if any(n in e.fv for n in allnames for e in ([r.re, r.im] if isinstance(r, Cx) else [r])): raise Unsupported("append of an accumulating value")
        l.tail = SList(s.n, lambda q, r=r: S(vsubst(r, {i: q})))
    for nm, (g, st) in vars.items():
        if nm in out: st(out[nm])
        elif pre[nm] is not MISSING: st(pre[nm])

def phinames(phi):
    r = set()
    for v in phi.values():
        for e in ([v.re, v.im] if isinstance(v, Cx) else [v]): r |= e.fv
    return r

def acc_scalar(ph, post, pre, i, n, phi, nm):
    if isinstance(post, E) and post is ph: return S(pre)
    names = phinames(phi)
    def one(ph, post, pre):
        d = linear_in(post, ph)
        if d is not None:
            if d.fv & names: return Poison("accumulator %s depends on another accumulator" % nm)
            return add(pre, sum_(i, n, d))
        if not (post.fv & names):
            last = subst(post, {i: sub(n, ONE)})
            return last if ent(gt(n, ZERO)) else ite(gt(n, ZERO), last, pre)
        return Poison("loop variable %s is not an accumulator" % nm)
    if isinstance(ph, Cx) or isinstance(post, Cx):
        phr, phi_ = (ph.re, ph.im) if isinstance(ph, Cx) else (ph, ZERO)
        a = one(phr, re_(post), re_(pre)); b = one(phi_, im_(post), im_(pre)) if isinstance(ph, Cx) else \
            (add(ZERO, sum_(i, n, im_(post))) if not (im_(post).fv & names) else Poison("complex accumulator"))
        if isinstance(a, Poison) or isinstance(b, Poison): return Poison("complex accumulator " + nm)
        return S(Cx(a, b))
    r = one(ph, post, pre)
    return r if isinstance(r, Poison) else S(r)

def linear_in(post, ph):
    """post == ph + d  ->  d   (pushing through ite); None otherwise"""
    if post is ph: return ZERO
    if post.op == "ite":
        c, a, b = post.args
        if c.fv & ph.fv: return None
        da, db = linear_in(a, ph), linear_in(b, ph)
        if da is None or db is None: return None
        return ite(c, da, db)
    d = sub(post, ph)
    if d.fv & ph.fv: return None
    return d

def summarise_buffer(b, paths, i, n, phi, out, pre):
    axisoff = None
    names = phinames(phi)
    for pc, res, exc, news, j in paths:
        for (bb, view) in j.writes:
            if bb is not b: continue
            if view is None: raise Unsupported("nested loop write")
            axes, sh = view
            cand = None
            for ax, a in enumerate(axes):
                if a[0] == "f" and i.args[0] in a[1].fv:
                    off = sub(a[1], i)
                    if i.args[0] not in off.fv: cand = (ax, off, 1); break
                    off = add(a[1], i)
                    if i.args[0] not in off.fv: cand = (ax, off, -1); break
            if cand is None:
                return accumulate_buffer(b, paths, i, n, phi)
            if axisoff is None: axisoff = cand
            elif axisoff != cand: raise Unsupported("writes at different positions per iteration")
    ax, off, sg = axisoff
    # the whole loop writes, along this axis, anywhere (for an enclosing loop: positions along the other axes)
    views = []
    for pc, res, exc, news, j in paths:
        for (bb, view) in j.writes:
            if bb is b:
                v = (tuple(a if k != ax else ("*",) for k, a in enumerate(view[0])), None)
                if any(a[0] == "f" and i.args[0] in a[1].fv for a in v[0]): raise Unsupported("loop writes along two axes at once")
                if v not in views: views.append(v)
    for pc, res, exc, news, j in paths:
        for (bb, axes) in j.reads:
            if bb is not b: continue
            a = axes[ax]
            if not (a[0] == "f" and (sub(a[1], off) is i if sg == 1 else sub(off, a[1]) is i)):
                raise Unsupported("loop-carried array dependence")
    base = b.content
    conts = [(ctx.pc_and(pc), news.get(b, base)) for pc, res, exc, news, j in paths]
    def content(idx):
        ii = sub(idx[ax], off) if sg == 1 else sub(off, idx[ax])
        c = and_(ge(ii, ZERO), lt(ii, n))
        if not c is TRUE:
            k = and_(*[x for x in (ge(ii, ZERO), lt(ii, n)) if ctx.known(x) is not True])
            if any(ctx.known(x) is False for x in (ge(ii, ZERO), lt(ii, n))): return base(idx)
            c = k
        # evaluate the per-iteration content at the slot written in iteration i
        slot = tuple((add(off, i) if sg == 1 else sub(off, i)) if k == ax else e for k, e in enumerate(idx))
        r = conts[-1][1](slot)
        for pc, f in conts[-2::-1]: r = vite(pc, f(slot), r)
        fvs = r.re.fv | r.im.fv if isinstance(r, Cx) else r.fv
        if fvs & names: raise Unsupported("array element depends on a running accumulator")
        r = vsubst(r, {i: ii})
        if c is TRUE: return r
        return vite(c, r, base(idx))
    return memo_content(content), views

def accumulate_buffer(b, paths, i, n, phi):
    """buffer updated as a whole every iteration:  B = B + g(i)"""
    base = b.content
    # re-evaluate symbolically: contents are functions of the base contents; only the pattern
    # new(idx) = base(idx) + d(idx, i) with d independent of base is accepted (checked by substituting a marker)
    raise Unsupported("whole-array update in a symbolic loop")

# ---- comprehensions
def listcomp(it, f, conds=(), star=False):
    s = to_siter(it)
    ff = (lambda x: f(*x)) if star else f
    cc = [(lambda x, c=c: c(*x)) if star else c for c in conds]
    if s is None:
        return PList([ff(x) for x in it if all(bool(c(x)) for c in cc)])
    if cc: raise Unsupported("filtered comprehension over a symbolic list")
    return SList(s.n, lambda i: call_at(ff, s, i))

def call_at(ff, s, i):
    """evaluate the element function at a (possibly bound) index, merging internal branches"""
    paths = ctx.sub(lambda: ff(s.get(i)), [ge(i, ZERO), lt(i, s.n)])
    return merge_results(paths)

def merge_results(paths):
    if not paths: raise Unsupported("no feasible path")
    for pc, res, exc, news, j in paths:
        if exc is not None: raise Unsupported("exception %r in element function" % (exc,))
    if any(b.depth <= len(State.journals) for p in paths for b in p[3]): raise Unsupported("side effect in element function")
    if len(paths) == 1: return paths[0][1]
    if all(is_scalar(p[1]) or isinstance(p[1], bool) for p in paths):
        r = val(paths[-1][1])
        for pc, res, *_ in paths[-2::-1]: r = vite(ctx.pc_and(pc), val(res), r)
        return S(r)
    raise Unsupported("branching element function with non-scalar result")
