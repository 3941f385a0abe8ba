"""Normal form / zero test for terms: generalised polynomials (rational exponents) over generators.

zero(P) is a sufficient test: True means the difference is identically zero on the region where all
denominators are non-zero and all bases of fractional powers are non-negative.
"""
from fractions import Fraction as Fr
from .ir import *
import time

class TooBig(Exception): pass
MAXT = 40000

class Gen:
    __slots__ = ("id", "kind", "key", "args", "expr", "poly", "head", "bound")
    def __repr__(s): return "g%d:%s" % (s.id, show(s.expr) if s.expr is not None else s.kind)

class NF:
    def __init__(self, sign):
        """sign(E) -> 'pos' | 'nonneg' | None"""
        self.sign = sign
        self.gens = []; self.gtab = {}
        self.memo = {}
        self.deadline = None
    # --- polynomials: dict mono -> coef ; mono: tuple((gid, exp),...) sorted
    @staticmethod
    def padd(p, q, c=1):
        if len(p) < len(q) and c == 1: p, q = q, p
        r = dict(p)
        for m, v in q.items():
            w = r.get(m, 0) + c * v
            if w == 0: r.pop(m, None)
            else: r[m] = w
        return r
    @staticmethod
    def mmul(a, b):
        if not a: return b
        if not b: return a
        d = dict(a)
        for g, e in b:
            n = d.get(g, 0) + e
            if n == 0: d.pop(g, None)
            else: d[g] = n
        return tuple(sorted(d.items()))
    def pmul(self, p, q):
        if len(p) * len(q) > MAXT * 10: raise TooBig()
        if self.deadline and time.time() > self.deadline: raise TooBig()
        r = {}
        mm = self.mmul
        for a, x in p.items():
            for b, y in q.items():
                m = mm(a, b)
                w = r.get(m, 0) + x * y
                if w == 0: r.pop(m, None)
                else: r[m] = w
        if len(r) > MAXT: raise TooBig()
        return r
    def ppow(self, p, n):
        r = {(): Fr(1)}
        b = p
        while n:
            if n & 1: r = self.pmul(r, b)
            n >>= 1
            if n: b = self.pmul(b, b)
        return r
    @staticmethod
    def key(p): return tuple(sorted(p.items()))
    # --- generators
    def gen(self, kind, key, expr=None, args=(), poly=None, head=None, bound=0):
        k = (kind, key)
        g = self.gtab.get(k)
        if g is None:
            g = Gen(); g.id = len(self.gens); g.kind = kind; g.key = key; g.expr = expr
            g.args = args; g.poly = poly; g.head = head; g.bound = bound
            self.gens.append(g); self.gtab[k] = g
        return g
    def mono1(self, g, e=1): return {((g.id, Fr(e)),): Fr(1)}
    # --- normal form
    def nf(self, e, depth=0):
        k = (e, depth if e.h else 0)
        r = self.memo.get(k)
        if r is None:
            r = self._nf(e, depth); self.memo[k] = r
        return r
    def _nf(self, e, depth):
        o = e.op
        if o == "const":
            v = e.args[0]
            return {(): v} if v != 0 else {}
        if o == "var": return self.mono1(self.gen("var", e.args[0], e))
        if o == "pi": return self.mono1(self.gen("pi", (), e))
        if o == "add":
            r = {}
            for a in e.args: r = self.padd(self.nf(a, depth), r) if len(r) < 5 else self.padd(r, self.nf(a, depth))
            return r
        if o == "mul":
            r = {(): Fr(1)}
            for a in sorted(e.args, key=lambda a: len(self.nf(a, depth))): r = self.pmul(r, self.nf(a, depth))
            return r
        if o == "pow": return self.nfpow(e.args[0], e.args[1].args[0], depth)
        if o == "ite":
            c, a, b = e.args
            pa, pb = self.nf(a, depth), self.nf(b, depth)
            if pa == pb: return pa
            ck = self.condkey(c, depth)
            neg_, ck = ck
            if neg_: pa, pb = pb, pa
            g = self.gen("ite", (ck, self.key(pa), self.key(pb)), e, args=((c, neg_), pa, pb), head="ite", bound=depth)
            return self.mono1(g)
        if o == "app": return self.nfapp(e, depth)
        if o == "sum": return self.nfsum(e, depth)
        if o in ("nan", "inf", "ninf", "uinf"): return self.mono1(self.gen("special", o, e))
        if e.sort == "B":
            n, ck = self.condkey(e, depth)
            g = self.mono1(self.gen("bool", ck, e))
            return self.padd({(): Fr(1)}, g, -1) if n else g
        raise Unsupported("nf of " + o)
    def condkey(self, c, depth):
        """(negated, key)"""
        o = c.op
        if o in ("lt", "le", "eq"):
            p = self.nf(c.args[0], depth)
            if p:
                lead = max(p.items(), key=lambda t: t[0])
                s = abs(lead[1])
                p = {m: v / s for m, v in p.items()}
                if o == "eq" and lead[1] < 0: p = {m: -v for m, v in p.items()}
                # le0(d) == not lt0(-d): canonical form uses lt only
                if o == "le": return (True, ("lt", self.key({m: -v for m, v in p.items()})))
            return (False, (o, self.key(p)))
        if o == "not":
            n, k = self.condkey(c.args[0], depth); return (not n, k)
        if o == "and": return (False, ("and", tuple(sorted((self.condkey(a, depth) for a in c.args), key=repr))))
        if o == "or": return (True, ("and", tuple(sorted(((not n, k) for n, k in (self.condkey(a, depth) for a in c.args)), key=repr))))
        if o == "var": return (False, ("bvar", c.args[0]))
        if o == "app": return (False, ("app", c.args[0]) + tuple(self.key(self.nf(a, depth)) if a.sort != "B" else self.condkey(a, depth) for a in c.args[1:]))
        return (False, ("id", c.id))
    def constpow(self, c, q):
        """c > 0 rational, q rational"""
        if q.denominator == 1: return {(): c ** int(q)}
        r = {(): Fr(1)}
        for v, s in ((c.numerator, 1), (c.denominator, -1)):
            for p_, k in _factor(v).items():
                ex = q * k * s
                i = ex.numerator // ex.denominator
                r = {m: co * Fr(p_) ** i for m, co in r.items()}
                f = ex - i
                if f: r = self.pmul(r, self.mono1(self.gen("prime", p_, const(p_)), f))
        return r
    def gsign(self, g):
        if g.kind == "prime" or g.kind == "pi": return "pos"
        if g.kind in ("exp",): return "pos"
        if g.kind == "abs": return "nonneg"
        if g.expr is not None: return self.sign(g.expr)
        return None
    def abs_gen(self, g):
        return self.gen("abs", ((((g.id, Fr(1)),), Fr(1)),), app("abs", g.expr) if g.expr is not None else None, args=({((g.id, Fr(1)),): Fr(1)},), head="abs")
    def monopow(self, m, q):
        """m^q for a monomial whose total value is >= 0 (or q integer); None if not distributable"""
        out = {(): Fr(1)}
        bad = []
        for gid, ex in m:
            g = self.gens[gid]
            n = ex * q
            if q.denominator == 1 or self.gsign(g): out = self.pmul(out, self.mono1(g, n)); continue
            if ex.denominator == 1 and ex % 2 == 0:
                if n.denominator == 1 and n % 2 == 0: out = self.pmul(out, self.mono1(g, n))
                else: out = self.pmul(out, self.mono1(self.abs_gen(g), n))
                continue
            bad.append((gid, ex))
        return out, tuple(bad)
    def nfpow(self, b, q, depth):
        # structural distribution first (keeps factors unexpanded)
        if b.op == "pow":
            n = b.args[1].args[0]
            inner = b.args[0]
            if q.denominator == 1: return self.nfpow(inner, n * q, depth)
            if n.denominator != 1 or n.numerator % 2 != 0:
                # value >= 0 and odd/fractional power -> inner >= 0
                return self.nfpow(inner, n * q, depth)
            if self.sign(inner): return self.nfpow(inner, n * q, depth)
            if (n * q).denominator == 1 and (n * q) % 2 == 0: return self.nfpow(inner, n * q, depth)
            return self.nfpow(app("abs", inner), n * q, depth)
        if b.op == "mul" and (q.denominator == 1 or all(self.sign(a) or (a.op == "pow" and a.args[1].args[0] % 2 == 0) for a in b.args)):
            r = {(): Fr(1)}
            for a in b.args: r = self.pmul(r, self.nfpow(a, q, depth) if a.op != "const" else self._cpow(a.args[0], q))
            return r
        P = self.nf(b, depth)
        return self.ppowq(P, q, b)
    def _cpow(self, c, q):
        if q.denominator == 1: return {(): c ** int(q)}
        if c <= 0: raise Unsupported("fractional power of non-positive constant")
        return self.constpow(c, q)
    def ppowq(self, P, q, b=None):
        if not P:
            if q > 0: return {}
            return self.mono1(self.gen("special", "inf", INF))
        if len(P) == 1:
            (m, c), = P.items()
            if q.denominator == 1 or c > 0:
                out, bad = self.monopow(m, q)
                if not bad:
                    return self.pmul(self._cpow(c, q), out)
            # opaque
            return self.mono1(self.polygen(P, b), q)
        if q.denominator == 1 and q > 0 and len(P) ** int(q) <= 3000:
            return self.ppow(P, int(q))
        P = self.expand_pos(P)
        if len(P) == 1: return self.ppowq(P, q, b)
        # content
        cont = None
        for m in P:
            d = dict(m)
            if cont is None: cont = d
            else: cont = {g: min(e, d[g]) for g, e in cont.items() if g in d}
        # gens absent in some monomial but negative elsewhere: clear negative exponents too
        negs = {}
        for m in P:
            for g, ex in m:
                if ex < 0 and self.gens[g].kind != "prime": negs[g] = min(negs.get(g, 0), ex)
        for g, ex in negs.items(): cont[g] = min(cont.get(g, Fr(0)), ex)
        contm = []
        for g, ex in cont.items():
            if ex == 0: continue
            gg = self.gens[g]
            if q.denominator == 1 or self.gsign(gg): contm.append((g, ex))
            elif ex.denominator == 1:
                e2 = ex - (ex % 2)
                if e2: contm.append((g, e2))
        contm = tuple(sorted(contm))
        inv = tuple((g, -ex) for g, ex in contm)
        P2 = {}
        for m, v in P.items(): P2[self.mmul(m, inv)] = v
        lead = max(P2.items(), key=lambda t: t[0])[1]
        c = abs(lead)
        P2 = {m: v / c for m, v in P2.items()}
        sgn = 1
        if q.denominator == 1 and lead < 0:
            P2 = {m: -v for m, v in P2.items()}; sgn = -1
        res = self._cpow(c, q)
        if sgn < 0 and q % 2: res = {m: -v for m, v in res.items()}
        out, bad = self.monopow(contm, q)
        assert not bad
        res = self.pmul(res, out)
        facs = self.factor(P2, q)
        for F, k in facs:
            res = self.pmul(res, self.mono1(self.polygen(F), q * k))
        return res
    def factor(self, P, q):
        """try to factor a polynomial base (sympy), only when cheap"""
        key = ("fac", self.key(P))
        r = self.memo.get(key)
        if r is not None: return r
        r = [(P, 1)]
        gids = sorted({g for m in P for g, _ in m})
        ok = len(P) <= 40 and len(gids) <= 6 and all(ex.denominator == 1 and 0 < ex <= 8 for m in P for _, ex in m)
        if ok:
            try:
                import sympy
                xs = sympy.symbols("x0:%d" % len(gids)) if gids else ()
                ix = {g: i for i, g in enumerate(gids)}
                ring, *gs = sympy.ring(xs, sympy.QQ)
                pol = ring.zero
                for m, v in P.items():
                    t = ring.one * sympy.QQ(v.numerator, v.denominator)
                    for g, ex in m: t = t * gs[ix[g]] ** int(ex)
                    pol = pol + t
                c, fl = pol.factor_list()
                if len(fl) > 1 or (fl and fl[0][1] > 1):
                    out = []; tot = Fr(int(c.numerator), int(c.denominator)) if hasattr(c, "numerator") else Fr(c)
                    good = True
                    for f, k in fl:
                        F = {}
                        for mon, co in f.terms():
                            F[tuple((gids[i], Fr(int(x))) for i, x in enumerate(mon) if x)] = Fr(int(co.numerator), int(co.denominator))
                        l = max(F.items(), key=lambda t: t[0])[1]
                        tot *= l ** k
                        F = {m: v / l for m, v in F.items()}
                        if q.denominator != 1:
                            s = self.sign(self.toexpr(F))
                            if not s:
                                if k % 2 == 0: good = False
                                else: good = False
                        out.append((F, k))
                    if good and tot == 1: r = out
            except Unsupported: pass
            except (Exception, Unsupported): pass
        self.memo[key] = r
        return r
    def toexpr(self, P):
        ts = []
        for m, v in P.items():
            fs = [const(v)]
            for g, ex in m:
                gg = self.gens[g]
                if gg.expr is None: raise Unsupported("no expr for generator")
                fs.append(powc(gg.expr, ex))
            ts.append(mul(*fs))
        return add(*ts) if ts else ZERO
    def polygen(self, P, b=None):
        if len(P) == 1:
            (m, c), = P.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1: return self.gens[m[0][0]]
        try: ex = self.toexpr(P)
        except Unsupported: ex = b
        return self.gen("poly", self.key(P), ex, poly=P)
    def expand_pos(self, P):
        """expand polynomial generators with positive integer exponents"""
        for _ in range(50):
            tgt = None
            for m in P:
                for g, ex in m:
                    if self.gens[g].kind == "poly" and ex.denominator == 1 and ex > 0: tgt = (m, g, ex); break
                if tgt: break
            if not tgt: return P
            m, g, ex = tgt
            v = P[m]; P = dict(P); del P[m]
            rest = tuple((a, x) for a, x in m if a != g)
            P = self.padd(P, self.pmul({rest: v}, self.ppow(self.gens[g].poly, int(ex))))
        return P
    def nfapp(self, e, depth):
        nm = e.args[0]; args = e.args[1:]
        if nm == "abs":
            if self.sign(args[0]): return self.nf(args[0], depth)
            return self.nfabs(self.nf(args[0], depth))
        if nm == "exp": return self.nfexp(self.nf(args[0], depth))
        if nm == "log": return self.nflog(args[0], depth)
        if nm == "rpow":
            L = self.nflog(args[0], depth)
            return self.nfexp(self.pmul(self.nf(args[1], depth), L))
        if nm == "cos" or nm == "sin":
            P = self.nf(args[0], depth)
            if P and max(P.items(), key=lambda t: t[0])[1] < 0:
                Q = {m: -v for m, v in P.items()}; s = -1 if nm == "sin" else 1
            else: Q, s = P, 1
            if not Q: return {(): Fr(1)} if nm == "cos" else {}
            g = self.gen(nm, self.key(Q), e if s == 1 else app(nm, self._tryexpr(Q, neg(args[0]))), args=(Q,), head=nm, bound=depth)
            return {((g.id, Fr(1)),): Fr(s)}
        aa = []; keys = []
        for a in args:
            if a.op == "lam":
                bvs = a.args[:-1]
                nv = [var("@%d" % (depth + i), v.sort) for i, v in enumerate(bvs)]
                body = subst(a.args[-1], dict(zip(bvs, nv)))
                p = self.nf(body, depth + len(bvs))
                aa.append(("lam", len(bvs), p)); keys.append(("lam", len(bvs), self.key(p)))
            elif a.sort == "B":
                k = self.condkey(a, depth); aa.append(("b", k)); keys.append(k)
            else:
                p = self.nf(a, depth); aa.append(("s", p)); keys.append(self.key(p))
        if nm == "isnan" or nm == "isfinite": pass
        g = self.gen("app", (nm,) + tuple(keys), e, args=tuple(aa), head=nm, bound=depth)
        return self.mono1(g)
    def _tryexpr(self, P, dflt):
        try: return self.toexpr(P)
        except Unsupported: return dflt
    def nfabs(self, P):
        if not P: return {}
        if len(P) == 1:
            (m, c), = P.items()
            out = {(): abs(c)}
            for gid, ex in m:
                g = self.gens[gid]
                if self.gsign(g) or (ex.denominator == 1 and ex % 2 == 0) or ex.denominator != 1: out = self.pmul(out, self.mono1(g, ex))
                else: out = self.pmul(out, self.mono1(self.abs_gen(g), ex))
            return out
        lead = max(P.items(), key=lambda t: t[0])[1]
        P2 = {m: v / lead for m, v in P.items()}
        g = self.gen("abs", self.key(P2), app("abs", self._tryexpr(P2, ONE)), args=(P2,), head="abs")
        return {((g.id, Fr(1)),): abs(lead)}
    def nfexp(self, P):
        r = {(): Fr(1)}
        for m, c in P.items():
            # exp(c*log g) = g^c
            if len(m) == 1 and m[0][1] == 1 and self.gens[m[0][0]].kind == "log":
                lg = self.gens[m[0][0]]
                if len(lg.args) and len(lg.args[0]) >= 1:
                    r = self.pmul(r, self.ppowq(lg.args[0], c)); continue
            g = self.gen("exp", m, app("exp", self._tryexpr({m: Fr(1)}, ONE)), args=({m: Fr(1)},), head="exp")
            r = self.pmul(r, self.mono1(g, c))
        return r
    def nflog(self, a, depth):
        P = self.nf(a, depth)
        if len(P) == 1:
            (m, c), = P.items()
            if c > 0:
                r = {}; ok = True
                if c != 1:
                    for v, s in ((c.numerator, 1), (c.denominator, -1)):
                        for p_, k in _factor(v).items():
                            g = self.gen("log", ((((("prime", p_), 1),), 1),), app("log", const(p_)), args=({(): Fr(p_)},), head="log")
                            r = self.padd(r, self.mono1(g), Fr(k * s))
                for gid, ex in m:
                    g = self.gens[gid]
                    if g.kind == "exp":
                        r = self.padd(r, g.args[0], ex); continue
                    # log of a product splits when every factor is >= 0 (zero: both sides undefined)
                    if self.gsign(g) or len(m) == 1 and ex == 1:
                        lg = self.gen("log", ((((gid, Fr(1)),), Fr(1)),), app("log", g.expr) if g.expr is not None else None, args=({((gid, Fr(1)),): Fr(1)},), head="log")
                        r = self.padd(r, self.mono1(lg), ex)
                    else: ok = False
                if ok: return r
        g = self.gen("log", self.key(P), app("log", a), args=(P,), head="log")
        return self.mono1(g)
    def nfsum(self, e, depth):
        bv, n, body = e.args
        nv = var("@%d" % depth, bv.sort)
        body = subst(body, {bv: nv})
        P = self.nf(body, depth + 1)
        pn = self.nf(n, depth)
        g0 = self.gen("var", nv.args[0], nv)
        res = {}
        for m, c in P.items():
            ind = []; dep = []
            for gid, ex in m:
                (dep if self.depends(gid, nv.args[0]) else ind).append((gid, ex))
            dep = tuple(dep); ind = tuple(ind)
            if not dep: t = self.pmul({ind: c}, pn)
            else:
                sg = self.gen("sum", (self.key(pn), dep), None, args=(pn, {dep: Fr(1)}), head="sum", bound=depth)
                if sg.expr is None:
                    try: sg.expr = sum_(nv, n, self.toexpr({dep: Fr(1)}))
                    except Unsupported: pass
                t = self.pmul({ind: c}, self.mono1(sg))
            res = self.padd(res, t)
        return res
    def depends(self, gid, name):
        k = ("dep", gid, name)
        r = self.memo.get(k)
        if r is None:
            g = self.gens[gid]
            if g.kind == "var": r = g.key == name
            elif g.expr is not None: r = name in g.expr.fv
            else:
                r = False
                for a in g.args:
                    p = a
                    if isinstance(a, tuple): p = a[-1] if isinstance(a[-1], dict) else None
                    if p is None: r = True; continue
                    if any(self.depends(x, name) for m in p for x, _ in m): r = True
            self.memo[k] = r
        return r
    # --- zero test
    def zero(self, P, budget=20.0, merge=None):
        self.deadline = time.time() + budget
        try: return self._zero(P, 0)
        finally: self.deadline = None
    def reduce_special(self, P):
        """abs(x)^2 = x^2 ; sin^2 = 1-cos^2"""
        ch = False; R = {}
        for m, c in P.items():
            t = {(): c}; rest = []
            for gid, ex in m:
                g = self.gens[gid]
                if g.kind == "abs" and (ex >= 2 or ex < 0):
                    k = ex.numerator // ex.denominator; k -= k % 2
                    if k:
                        ch = True
                        A = g.args[0]
                        t = self.pmul(t, self.ppowq(A, Fr(k)))
                        if ex != k: rest.append((gid, ex - k))
                        continue
                if g.kind == "sin" and ex >= 2 and ex.denominator == 1:
                    k = int(ex) // 2
                    cg = self.gen("cos", g.key, app("cos", g.expr.args[1]) if g.expr is not None else None, args=g.args, head="cos", bound=g.bound)
                    t = self.pmul(t, self.ppow({(): Fr(1), ((cg.id, Fr(2)),): Fr(-1)}, k))
                    if ex % 2: rest.append((gid, Fr(1)))
                    ch = True
                    continue
                rest.append((gid, ex))
            t = self.pmul(t, {tuple(sorted(rest)): Fr(1)})
            R = self.padd(R, t)
        return R, ch
    def _zero(self, P, lvl):
        if not P: return True
        for _ in range(10):
            P, ch = self.reduce_special(P)
            if not P: return True
            if not ch: break
        top = -1
        for m in P:
            for gid, ex in m:
                g = self.gens[gid]
                if g.kind == "poly" and gid > top: top = gid
        if top < 0: return not P
        Pg = self.gens[top].poly
        groups = {}
        for m, c in P.items():
            ex = Fr(0); rest = []
            for gid, x in m:
                if gid == top: ex = x
                else: rest.append((gid, x))
            fl = ex.numerator // ex.denominator
            groups.setdefault(ex - fl, []).append((tuple(rest), fl, c))
        for f, l in groups.items():
            e0 = min(x for _, x, _ in l)
            by = {}
            for rest, x, c in l:
                d = by.setdefault(x - e0, {})
                d[rest] = d.get(rest, 0) + c
            # Horner
            ks = sorted(by, reverse=True)
            acc = {}
            prev = None
            for k in ks:
                if prev is not None:
                    for _ in range(prev - k): acc = self.pmul(acc, Pg)
                acc = self.padd(acc, {m: v for m, v in by[k].items() if v != 0})
                prev = k
            for _ in range(prev): acc = self.pmul(acc, Pg)
            if not self._zero(acc, lvl + 1): return False
        return True
    # --- congruence: merge generators with provably equal arguments
    def gens_in(self, P):
        out = set(); st = [g for m in P for g, _ in m]
        while st:
            g = st.pop()
            if g in out: continue
            out.add(g)
            gg = self.gens[g]
            if gg.poly is not None: st.extend(x for m in gg.poly for x, _ in m)
        return out

def _factor(n):
    n = abs(n); r = {}; p = 2
    while p * p <= n and p < 10000:
        while n % p == 0: r[p] = r.get(p, 0) + 1; n //= p
        p += 1
    if n > 1: r[n] = r.get(n, 0) + 1
    return r
