"""Discharging obligations: case analysis + normal forms (exact rational arithmetic), Z3 for linear/integer facts,
numeric search for counterexamples."""
import itertools, time, signal
from fractions import Fraction as Fr
from .ir import *
from . import smt, numev
from .nf import NF, TooBig
from .ctx import State

STATS = {"nf": 0, "nf_time": 0.0, "cases": 0}
FMAX = var("FLTMAX")

class Split(Exception):
    def __init__(s, c): s.c = c
class Give(Exception): pass

def lead(d):
    t = d.args[0] if d.op == "add" else d
    if t.op == "const": return t.args[0]
    if t.op == "mul" and t.args[0].op == "const": return t.args[0].args[0]
    return Fr(1)
def prim(d):
    """(positive scale, sign, canonical term) with d = scale*sign*term"""
    c = lead(d)
    if c == 0: return 1, d
    s = 1 if c > 0 else -1
    k = const(1 / c)
    return s, mul(k, d)

CASES = {}
def case_of(A):
    k = tuple(f.id for f in A); c = CASES.get(k)
    if c is None:
        if len(CASES) > 400: CASES.clear()
        c = CASES[k] = Case(A)
    return c
class Case:
    def key(self):
        if not hasattr(self, "_key"): self._key = frozenset(f.id for f in self.A)
        return self._key
    def __init__(self, A, parent=None):
        self.parent = parent; self.dead = False; self.map = {}
        self.memo = {}; self.smemo = {}; self.kids = {}
        self.facts = {}
        self.A = []
        self.close(A)
    def close(self, A):
        work = list(A); done = []
        for _ in range(200):
            changed = False
            nxt = []
            self.A = done; self.facts = {}; self.smemo = {}
            cur = []
            for f in work:
                if f is FALSE: self.dead = True; return
                if f is TRUE: continue
                if f.op == "and": cur.extend(f.args)
                else: cur.append(f)
            work = list(dict.fromkeys(cur))
            self.A = work
            for f in work: self.note(f)
            if self.dead: return
            m = {}
            add_ = []
            for f in work:
                if f.op == "eq":
                    r = self.solve_eq(f.args[0])
                    if r is None: continue
                    kind, x = r
                    if kind == "sub":
                        if not (x[1].fv & x[0].fv and x[0].op == "var"):
                            m = {x[0]: x[1]}; break
                    else:
                        new = [y for y in x if y not in work]
                        if new: add_ += new; work = [g for g in work if g is not f]; break
                elif f.op == "or":
                    live = []
                    for x in f.args:
                        d = self.quick(x)
                        if d is True: live = None; break
                        if d is None: live.append(x)
                    if live is None: work = [g for g in work if g is not f]; add_ = [TRUE]; break
                    if len(live) < len(f.args):
                        work = [g for g in work if g is not f]; add_ = [or_(*live)] ; break
            if m:
                (k, v), = m.items()
                self.map = {a: subst(b, m) for a, b in self.map.items()}
                self.map[k] = v
                memo = {}
                work = [subst(f, m, memo) for f in work if not (f.op == "eq" and subst(f, m, memo) is TRUE)]
                continue
            if add_: work = work + add_; continue
            break
        self.A = work
    def note(self, f):
        o = f.op
        if o in ("lt", "le", "eq"):
            s, p = prim(f.args[0])
            old = self.facts.get(p, (False, False, False))
            if o == "eq": n = (True, True, False)
            elif o == "lt": n = (s > 0, s < 0, True)
            else: n = (s > 0, s < 0, False)
            r = tuple(a or b for a, b in zip(old, n))
            self.facts[p] = r
            if all(r): self.dead = True
        elif o == "not" and f.args[0].op == "eq":
            s, p = prim(f.args[0].args[0])
            old = self.facts.get(p, (False, False, False))
            self.facts[p] = (old[0], old[1], True)
            if all(self.facts[p]): self.dead = True
        elif o == "not" and f.args[0] in self.A: self.dead = True
    def solve_eq(self, d):
        """0 = d"""
        if d.op in ("var",): return ("sub", (d, ZERO))
        if d.op == "app" and d.args[0] not in ("abs", "exp"): return ("sub", (d, ZERO))
        if d.op == "app" and d.args[0] == "abs": return ("facts", [eq(d.args[1], ZERO)])
        if d.op == "pow" and d.args[1].args[0] > 0: return ("facts", [eq(d.args[0], ZERO)])
        if d.op == "mul":
            live = [a for a in d.args if not self.sgn(a)[2]]
            if len(live) == 0: return ("facts", [FALSE])
            if len(live) < len(d.args):
                return ("facts", [or_(*[eq(a, ZERO) for a in live])])
            if len(live) == 1: return ("facts", [eq(live[0], ZERO)])
            return None
        if d.op == "add":
            ss = [self.sgn(a) for a in d.args]
            if all(s[0] for s in ss) or all(s[1] for s in ss):
                if any(s[2] for s in ss): return ("facts", [FALSE])
                return ("facts", [eq(a, ZERO) for a in d.args])
            # linear in a variable or opaque application
            best = None
            for t in d.args:
                c, r = (t.args[0].args[0], mul(*t.args[1:])) if t.op == "mul" and t.args[0].op == "const" else (Fr(1), t)
                if r.op == "var" or (r.op == "app" and r.args[0] not in ("abs", "exp", "floor", "mod", "fdiv", "nan2num")):
                    rest = sub(d, t)
                    if r.op == "var" and r.args[0] in rest.fv: continue
                    if r.op == "app" and subterms(rest, lambda x: x is r): continue
                    sol = mul(const(-1 / c), rest)
                    if r.sort == "I" and sol.sort != "I": continue
                    if rest.nan or c == 0: continue
                    rank = (r.op != "var", "!" not in (r.args[0] if r.op == "var" else ""), -r.id)
                    if best is None or rank < best[0]: best = (rank, r, sol)
            if best: return ("sub", (best[1], best[2]))
        return None
    def child(self, c):
        k = self.kids.get(c)
        if k is None:
            k = Case(self.A + [c], self); k.map = {**{a: subst(b, k.map) for a, b in self.map.items()}, **k.map}
            self.kids[c] = k
            STATS["cases"] += 1
        return k
    # ---- numeric fingerprints (only ever used to give up early on unequal pairs)
    def points(self):
        if not hasattr(self, "_pts"):
            self._pts = []
            try:
                for ev in numev.models(self.A, [], 3, seed=11, tries=12, limit=4):
                    ev.lazy = True; self._pts.append(ev)
            except (Exception, Unsupported): pass
        return self._pts
    def apart(self, x, y):
        """x and y evaluate differently at a point of this case"""
        for ev in self.points():
            try:
                if ev.steps > 200000: ev.steps = 0; ev.memo.clear()
                u, v = ev(x), ev(y)
                if isinstance(u, bool) or isinstance(v, bool):
                    if u != v: return True
                elif numev.differ(u, v): return True
            except (numev.CannotEval, OverflowError, ZeroDivisionError, ValueError, TypeError): pass
        return False
    # ---- signs: (>=0, <=0, !=0)
    def sgn(self, e):
        r = self.smemo.get(e)
        if r is None:
            self.smemo[e] = (False, False, False)
            r = self._sgn(e)
            s, p = prim(e)
            f = self.facts.get(p)
            if f:
                if s < 0: f = (f[1], f[0], f[2])
                r = tuple(a or b for a, b in zip(r, f))
            if not ((r[0] or r[1]) and r[2]) and e.op not in ("const", "ite", "sum") and not (e.op == "add" and e.args[-1].op == "const"):
                b = self.bounds(e, ZERO)
                if b: r = tuple(x or y for x, y in zip(r, b))
            self.smemo[e] = r
        return r
    def _sgn(self, e):
        o = e.op; N = (False, False, False)
        if o == "const":
            v = e.args[0]; return (v >= 0, v <= 0, v != 0)
        if o == "pi": return (True, False, True)
        if o == "inf": return (True, False, True)
        if o == "ninf": return (False, True, True)
        if o == "add":
            ss = [self.sgn(a) for a in e.args]
            g_ = all(s[0] for s in ss); l_ = all(s[1] for s in ss)
            n_ = (g_ or l_) and any(s[2] for s in ss)
            if g_ or l_: return (g_, l_, n_)
            if e.args[-1].op == "const" and len(e.args) > 1:
                # x + c with a fact on x (bounds of x)
                b = self.bounds(e)
                if b: return b
            return N
        if o == "mul":
            n_ = True
            p = 1
            for a in e.args:
                s = self.sgn(a)
                n_ = n_ and s[2]
                if s[0] and s[1]: return (True, True, False)
                if s[0]: pass
                elif s[1]: p = -p
                else: p = 0
            if p == 0: return (False, False, n_)
            return (p > 0, p < 0, n_)
        if o == "pow":
            q = e.args[1].args[0]; s = self.sgn(e.args[0])
            n_ = s[2] or q < 0
            if q.denominator != 1: return (True, False, n_)
            if q % 2 == 0: return (True, s[0] and s[1], n_)
            return (s[0], s[1], n_)
        if o == "ite":
            c, a, b = e.args
            q = self.quick(c)
            if q is True: return self.sgn(a)
            if q is False: return self.sgn(b)
            ka, kb = self.child(c), self.child(not_(c))
            if ka.dead: return kb.sgn(subst(b, kb.map))
            if kb.dead: return ka.sgn(subst(a, ka.map))
            x, y = ka.sgn(subst(a, ka.map)), kb.sgn(subst(b, kb.map))
            return tuple(p and q for p, q in zip(x, y))
        if o == "sum":
            fs, n, body = open_binder(e)
            k = Case(self.A + [le(ZERO, fs[0]), lt(fs[0], n)], self)
            s = k.sgn(subst(body, k.map))
            return (s[0], s[1], s[2] and (s[0] or s[1]) and self.sgn(n)[0] and self.sgn(n)[2])
        if o == "app":
            nm = e.args[0]
            if nm == "exp": return (True, False, True)
            if nm == "abs": return (True, False, self.sgn(e.args[1])[2])
            if nm == "hyp2f1" and self.sgn(e.args[4])[1] and all(self.sgn(a)[0] and self.sgn(a)[2] for a in e.args[1:4]) : return (True, False, True)
            if nm in ("atan2", "sign", "tanh", "atan"):
                s = self.sgn(e.args[1])
                if nm == "atan2": return (s[0], False, s[2])
                return s
            if nm == "rpow":
                s = self.sgn(e.args[1]); return (s[0], False, s[0] and s[2])
            if nm == "log":
                s = self.sgn(sub(e.args[1], ONE)); return s
            if nm == "floor": return (self.sgn(e.args[1])[0], False, False)
            if nm == "ipow": s = self.sgn(e.args[1]); return (s[0], False, s[2])
            if nm in ("count", "rank", "sel", "ucount"): return (True, False, False)
            if nm in ("arrmax", "arrmin"):
                l = e.args[1]; fs = [fresh("o", v.sort) for v in l.args[:-1]]
                body = lam_apply(l, fs)
                k = Case(self.A + [f for v, d in zip(fs, e.args[2:]) for f in (le(ZERO, v), lt(v, d))], self)
                return k.sgn(subst(body, k.map))
            if nm == "nan2num":
                s = self.sgn(e.args[1]); return (s[0], s[1], False)
            d = numev.DECL.get(nm)
            if d == "pos": return (True, False, True)
            if d == "nonneg": return (True, False, False)
        return N
    def bounds(self, e, c=None):
        """single-variable affine fact:  x + c from facts a*x + c' >= 0"""
        if c is None: c = e.args[-1].args[0]; x = add(*e.args[:-1])
        else: c = Fr(0); x = e
        s0, x0 = prim(x)
        k0 = lead(x)            # x = k0*x0
        if k0 == 0: return None
        lo = hi = None
        for p, f in self.facts.items():
            if p.op == "add" and p.args[-1].op == "const":
                y = add(*p.args[:-1]); cc = p.args[-1].args[0]
            else: y = p; cc = Fr(0)
            if y.op == "const" or prim(y)[1] is not x0: continue
            ky = lead(y)        # p = ky*x0 + cc
            if ky == 0: continue
            v = -cc / ky
            if f[0]:
                if ky > 0: lo = max(lo, (v, f[2])) if lo else (v, f[2])
                else: hi = min(hi, (v, not f[2])) if hi else (v, not f[2])
            if f[1]:
                if ky > 0: hi = min(hi, (v, not f[2])) if hi else (v, not f[2])
                else: lo = max(lo, (v, f[2])) if lo else (v, f[2])
        # e = k0*x0 + c
        ge = le_ = ne_ = False
        mn = lo if k0 > 0 else hi; mx = hi if k0 > 0 else lo
        if mn is not None:
            v = k0 * mn[0] + c; st = mn[1] if k0 > 0 else not mn[1]
            if v > 0 or (v == 0 and st): ge = ne_ = True
            elif v == 0: ge = True
        if mx is not None:
            v = k0 * mx[0] + c; st = (not mx[1]) if k0 > 0 else mx[1]
            if v < 0 or (v == 0 and st): le_ = ne_ = True
            elif v == 0: le_ = True
        return (ge, le_, ne_) if (ge or le_) else None
    def quick(self, c):
        """structural truth of a condition: True/False/None"""
        if c is TRUE: return True
        if c is FALSE: return False
        if c in self.A: return True
        o = c.op
        if o == "not":
            r = self.quick(c.args[0]); return None if r is None else not r
        if not_(c) in self.A: return False
        if o in ("and", "or"):
            rs = [self.quick(a) for a in c.args]
            if o == "and":
                if False in rs: return False
                return True if all(r is True for r in rs) else None
            if True in rs: return True
            return False if all(r is False for r in rs) else None
        if c.nan: return None
        if o in ("eq", "lt", "le"):
            s = self.sgn(c.args[0])
            if o == "eq":
                if s[2]: return False
                if s[0] and s[1]: return True
            elif o == "lt":
                if s[0] and s[2]: return True
                if s[1]: return False
            else:
                if s[0]: return True
                if s[1] and s[2]: return False
        return None
    def truth(self, c, timeout=250):
        q = self.quick(c)
        if q is not None: return q
        if c.nan: return None
        if c.op == "app": return None
        if smt.entails(self.A, c, timeout) is True: return True
        if smt.entails(self.A, not_(c), timeout) is True: return False
        return None
    def nonzero(self, e):
        if self.sgn(e)[2]: return True
        if e.op == "const": return e.args[0] != 0
        if e.op in ("mul",) and all(self.nonzero(a) for a in e.args): return True
        if e.op == "pow": return self.nonzero(e.args[0])
        return smt.entails(self.A, ne(e, ZERO), 250) is True
    def iszero(self, e):
        s = self.sgn(e)
        if s[0] and s[1]: return True
        if s[2]: return False
        if e.op == "mul" and any(self.iszero(a) for a in e.args): return True
        if e.op == "pow": return self.iszero(e.args[0])
        if e.op == "const": return e.args[0] == 0
        return smt.entails(self.A, eq(e, ZERO), 250) is True
    def nonneg(self, e):
        if self.sgn(e)[0]: return True
        if e.op == "ite" or e.op == "app" and e.args[0] not in ("abs",): return False
        return smt.entails(self.A, ge(e, ZERO), 250) is True
    def negative(self, e):
        s = self.sgn(e)
        if s[1] and s[2]: return True
        if s[0]: return False
        return smt.entails(self.A, lt(e, ZERO), 250) is True
    # ---- resolution to finite terms or specials
    def resolve(self, e, binder=frozenset()):
        k = (e, bool(binder))
        r = self.memo.get(k)
        if r is None:
            if State.deadline and time.time() > State.deadline: raise Give("time")
            r = self._resolve(e, binder); self.memo[k] = r
        return r
    def split(self, c, binder):
        if c.op == "eq":
            d = c.args[0]
            while d.op in ("mul", "pow"):
                if d.op == "pow": d = d.args[0]; continue
                live = [a for a in d.args if a.op != "const" and not self.nonzero(a)]
                if not live: break
                live.sort(key=lambda a: (len(a.fv), a.id)); d = live[0]
            if d is not c.args[0] and d.op not in ("const",): c = eq(d, ZERO)
        raise Split(c)
    def _resolve(self, e, bd):
        o = e.op
        if o in ("const", "var", "pi", "true", "false", "nan", "inf", "ninf", "uinf"): return e
        if not e.nan and not self.has_ctl(e): return e
        R = lambda x: self.resolve(x, bd)
        if o == "add": return self.xadd([R(a) for a in e.args])
        if o == "mul":
            args = [R(a) for a in e.args]
            return self.xmul(args, bd)
        if o == "pow": return self.xpow(R(e.args[0]), e.args[1].args[0], bd)
        if o == "ite":
            c = self.rcond(e.args[0], bd)
            t = self.truth(c)
            if t is True: return R(e.args[1])
            if t is False: return R(e.args[2])
            ka, kb = self.child(c), self.child(not_(c))
            if ka.dead: return R(e.args[2])
            if kb.dead: return R(e.args[1])
            a = ka.resolve(subst(e.args[1], ka.map), bd)
            b = kb.resolve(subst(e.args[2], kb.map), bd)
            if a.op in SPECIAL or b.op in SPECIAL:
                if a is b: return a
                self.split(c, bd)
            return ite(c, a, b)
        if o in ("eq", "lt", "le", "not", "and", "or"): return self.rcond(e, bd)
        if o == "sum":
            fs, n, body = open_binder(e)
            n = R(n)
            k = Case(self.A + [le(ZERO, fs[0]), lt(fs[0], n)], self)
            if k.dead: return ZERO
            try: b = k.resolve(subst(body, k.map), bd | {fs[0].args[0]})
            except Split as s:
                if fs[0].args[0] in s.c.fv or (s.c.fv - self.allfv()): return OPQ(e)
                raise
            if b.op in SPECIAL:
                if self.truth(gt(n, ZERO)): return b
                self.split(gt(n, ZERO), bd)
            return sum_(fs[0], n, b)
        if o == "lam":
            fs, _, body = open_binder(e)
            try: return lam(fs, self.resolve(body, bd | {f.args[0] for f in fs}))
            except Split as s:
                if s.c.fv & {f.args[0] for f in fs}: return e
                raise
        if o == "app": return self.xapp(e, bd)
        return e
    def allfv(self):
        r = set()
        for a in self.A: r |= a.fv
        return r
    def has_ctl(self, e):
        k = ("ctl", e)
        r = self.memo.get(k)
        if r is None:
            r = bool(subterms(e, lambda t: t.nan or t.op in ("ite", "sum", "lam") or t.op == "app" and t.args[0] in ("isnan", "isfinite", "nan2num", "floor", "abs")))
            self.memo[k] = r
        return r
    def rcond(self, c, bd):
        o = c.op
        if o in ("true", "false", "var"): return c
        if o == "not": return not_(self.rcond(c.args[0], bd))
        if o == "and": return and_(*[self.rcond(a, bd) for a in c.args])
        if o == "or": return or_(*[self.rcond(a, bd) for a in c.args])
        if o in ("eq", "lt", "le"):
            d = c.args[0]
            # comparison with special values: look at the parts
            r = self.resolve(d, bd)
            if r is NAN: return FALSE
            if r.op in SPECIAL:
                if o == "eq": return FALSE
                if r is INF: return TRUE
                if r is NINF: return FALSE
                raise Give("comparison with infinity of unknown sign")
            return mk_cmp(o, r)
        if o == "app" and c.args[0] in ("isnan", "isfinite"):
            r = self.resolve(c.args[1], bd)
            if c.args[0] == "isnan": return TRUE if r is NAN else FALSE
            return FALSE if r.op in SPECIAL else TRUE
        if o == "app": return rebuild(c, [self.resolve(a, bd) for a in c.args[1:]])
        return c
    def xadd(self, args):
        sp = [a for a in args if a.op in SPECIAL]
        if not sp: return add(*args)
        if NAN in sp: return NAN
        if all(a is INF for a in sp): return INF
        if all(a is NINF for a in sp): return NINF
        if len(sp) == 1: return UINF
        if INF in sp and NINF in sp and UINF not in sp: return NAN
        raise Give("sum of infinities of unknown sign")
    def xmul(self, args, bd):
        sp = [a for a in args if a.op in SPECIAL]
        if not sp: return mul(*args)
        if NAN in sp: return NAN
        rest = mul(*[a for a in args if a.op not in SPECIAL])
        if not self.nonzero(rest):
            if self.iszero(rest): return NAN
            self.split(eq(rest, ZERO), bd)
        if UINF in sp: return UINF
        s = 1
        for a in sp: s *= 1 if a is INF else -1
        q = self.sgn(rest)
        if q[0]: return INF if s > 0 else NINF
        if q[1]: return NINF if s > 0 else INF
        t = self.truth(gt(rest, ZERO))
        if t is True: return INF if s > 0 else NINF
        if t is False: return NINF if s > 0 else INF
        return UINF
    def xpow(self, b, q, bd):
        if b.op in SPECIAL:
            if b is NAN: return NAN
            if q < 0: return ZERO if (b is INF or q.denominator == 1) else (NAN if b is NINF else self.giveup())
            if b is INF: return INF
            if q.denominator == 1 and q % 2 == 0: return INF
            if q.denominator == 1: return b
            return NAN if b is NINF else self.giveup()
        if q < 0 and b.op != "const":
            if not self.nonzero(b):
                if self.iszero(b): return INF if (q.denominator != 1 or q % 2 == 0) else UINF
                self.split(eq(b, ZERO), bd)
        if q.denominator != 1 and b.op != "const":
            if not self.nonneg(b):
                if self.negative(b): return NAN
                self.split(ge(b, ZERO), bd)
        return powc(b, q)
    def giveup(self): raise Give("infinity of unknown sign")
    def xapp(self, e, bd):
        nm = e.args[0]
        args = [self.resolve(a, bd) if a.op != "lam" else self.resolve(a, bd) for a in e.args[1:]]
        if nm == "nan2num":
            a = args[0]
            if a is NAN: return ZERO
            if a is INF: return FMAX
            if a is NINF: return neg(FMAX)
            if a is UINF: return var("FLTMAX_UNK")
            return a
        if nm in ("isnan", "isfinite"): return self.rcond(e, bd)
        if nm == "div0":
            a = args[0]
            if a is NAN: return NAN
            if not self.nonzero(a):
                if self.iszero(a): return NAN
                self.split(eq(a, ZERO), bd)
            s = self.sgn(a)
            return INF if s[0] else (NINF if s[1] else UINF)
        if any(a.op in SPECIAL for a in args):
            if NAN in args and nm in ("abs", "sign", "sin", "cos", "exp", "log", "rpow", "atan2", "tanh", "floor"): return NAN
            if nm == "abs": return INF
            if nm == "exp": return INF if args[0] is INF else (ZERO if args[0] is NINF else self.giveup())
            if nm == "log" and args[0] is INF: return INF
            if nm in ("sin", "cos"): return NAN
            if nm == "hyp2f1" and args[3] is NINF: return ZERO
            if nm == "hyp2f1" and args[3] in (UINF,): self.giveup()
            if nm == "atan2" : self.giveup()
            return rebuild(e, args)
        if nm == "log":
            a = args[0]
            s = self.sgn(a)
            if not (s[0] and s[2]):
                t = self.truth(gt(a, ZERO))
                if t is None: self.split(gt(a, ZERO), bd)
                if t is False:
                    if self.iszero(a): return NINF
                    if self.negative(a): return NAN
                    self.split(eq(a, ZERO), bd)
        if nm == "rpow":
            a, q = args
            s = self.sgn(a)
            if not (s[0] and s[2]):
                t = self.truth(gt(a, ZERO))
                if t is None: self.split(gt(a, ZERO), bd)
                if t is False:
                    if self.iszero(a):
                        sq = self.sgn(q)
                        if sq[0] and sq[2]: return ZERO
                        if sq[1] and sq[2]: return INF
                        tq = self.truth(gt(q, ZERO))
                        if tq is True: return ZERO
                        tn = self.truth(lt(q, ZERO))
                        if tn is True: return INF
                        if tq is None: self.split(gt(q, ZERO), bd)
                        self.split(lt(q, ZERO), bd)
                    if self.negative(a): return NAN
                    self.split(eq(a, ZERO), bd)
        if nm == "atan2" and (args[0] is ZERO or (self.sgn(args[0])[0] and self.sgn(args[0])[1])):
            s = self.sgn(args[1])
            if s[0]: return ZERO
            if s[1] and s[2]: return PI
            self.split(ge(args[1], ZERO), bd)
        if nm == "abs":
            s = self.sgn(args[0])
            if s[0]: return args[0]
            if s[1]: return neg(args[0])
        if nm == "floor" and args[0].sort != "I":
            r = self.int_value(args[0])
            if r is not None: return r
        return rebuild(e, args)
    def int_value(self, a):
        """floor(a) when a normalises to an integer-sorted polynomial"""
        try:
            nf = NF(lambda x: None); P = nf.nf(a)
            for m, v in P.items():
                if v.denominator != 1: return None
                for g, ex in m:
                    if ex.denominator != 1 or ex < 0 or nf.gens[g].expr is None or nf.gens[g].expr.sort != "I": return None
            return nf.toexpr(P)
        except (TooBig, Unsupported): return None
    def signfn(self, e):
        s = self.sgn(e)
        if s[0] and s[2]: return "pos"
        if s[0]: return "nonneg"
        return None

SPECIAL = {"nan", "inf", "ninf", "uinf"}
def mk_cmp(o, d):
    from .ir import _cmp
    return _cmp(o, d)
_OPQ = {}
def OPQ(e):
    """marker for a sum whose body could not be resolved everywhere"""
    m = mk("app", ("opaque_sum", e), "R", nan=False)
    _OPQ[m] = e
    return m

# ------------------------------------------------------------------ equality
MEMO = set()
def idx_var(bound, *scopes):
    """an index variable not occurring in the given scopes; the same one for the same question, so that proved equalities can be reused"""
    j = 0
    while True:
        n = "e!%d!%d" % (bound.id, j)
        if not any(n in fv for fv in scopes): return var(n, "I")
        j += 1
class Prover:
    def __init__(self, budget=60, maxcases=600):
        self.t0 = time.time(); self.budget = budget; self.maxcases = maxcases; self.n = 0
        self.log = []
        self.failed_leaf = None
    def tick(self):
        self.n += 1
        if self.n > self.maxcases: raise Give("too many cases")
        if time.time() - self.t0 > self.budget: raise Give("time budget")
    def same(self, a, b, case, depth=0, cong=2):
        """a and b denote the same extended real under the case"""
        if case.dead: return True
        if a is b: return True
        self.tick()
        if depth == 0:
            key = (a.id, b.id, case.key())
            if key in MEMO: return True
            r = self.same0(a, b, case, cong)
            if r: MEMO.add(key)
            return r
        return self.same1(a, b, case, depth, cong)
    def same0(self, a, b, case, cong):
        if 1:
            if case.apart(a, b): self.failed_leaf = (case, a, b); return False
            r2 = self.early(a, b, case, cong)
            if r2 is not None:
                a, b = r2
                if a is b: return True
            if self.ext_generalise(a, b, case): return True
            if self.generalise(a, b, case, cong): return True
        return self.same1(a, b, case, 0, cong)
    def same1(self, a, b, case, depth, cong):
        try:
            ra = case.resolve(a); rb = case.resolve(b)
        except Split as s: return self.branch(a, b, case, s.c, depth, cong)
        if ra is rb: return True
        if ra.op in SPECIAL or rb.op in SPECIAL:
            if self.infeasible(case): return True
            if ra.op in SPECIAL and rb.op in SPECIAL and UINF in (ra, rb) and NAN not in (ra, rb):
                raise Give("infinities of unknown sign")
            self.failed_leaf = (case, ra, rb); return False
        if self.nfzero(ra, rb, case): return True
        # linear/integer facts
        d = sub(ra, rb)
        if smt.entails(case.A, eq(d, ZERO), 400) is True: return True
        if cong > 0:
            r2 = self.congruence(ra, rb, case, cong)
            if r2 is not None:
                if r2[0] is r2[1] or self.nfzero(r2[0], r2[1], case): return True
                ra, rb = r2
        # split on remaining conditionals
        c = self.pick_split(ra, rb, case)
        if c is not None: return self.branch(ra, rb, case, c, depth, cong)
        if self.infeasible(case): return True
        self.failed_leaf = (case, ra, rb)
        return False
    def early(self, a, b, case, cong):
        """pair up sums of both sides before anything is expanded"""
        if cong <= 0: return None
        ta = subterms(a, lambda t: t.op == "sum"); tb = subterms(b, lambda t: t.op == "sum")
        sa, sb = set(ta), set(tb)
        oa = sorted([t for t in ta if t not in sb], key=lambda t: t.id); ob = sorted([t for t in tb if t not in sa], key=lambda t: t.id)
        if not oa or not ob or len(oa) * len(ob) > 64: return None
        m = {}
        for y in ob:
            for x in oa:
                try:
                    if case.apart(x, y): continue
                    if self.equal_heads(x, y, case, cong - 1): m[y] = x; break
                except Give: continue
                self.tick()
        return (a, subst(b, m)) if m else None
    def ext_generalise(self, a, b, case):
        """both sides are functions of the same sums: prove it for every value (real, NaN, +inf, -inf) of each"""
        fv = a.fv | b.fv
        pred = lambda t: t.op == "sum" and t.fv <= fv
        ta = set(subterms(a, pred))
        if not ta or len(ta) > 3 or ta != set(subterms(b, pred)) or a in ta or b in ta: return False
        ts = sorted(ta, key=lambda t: t.id)
        for combo in itertools.product(*[(var("gen!%d" % t.id), NAN, INF, NINF) if t.nan else (var("gen!%d" % t.id),) for t in ts]):
            m = dict(zip(ts, combo))
            A = [subst(f, m) for f in case.A]
            A = [f for f in A if not f.nan]
            try:
                k = case_of(A)
                if k.dead: continue
                p = Prover(min(10, max(1, self.budget - (time.time() - self.t0))), 100)
                x, y = subst(subst(a, m), k.map), subst(subst(b, m), k.map)
                if not (x is y or p.same1(x, y, k, 1, 0)): return False
            except Give: return False
        return True
    def generalise(self, a, b, case, cong):
        """replace conditional terms common to both sides, finite in this case, by arbitrary reals"""
        m = {}
        fv = (a.fv | b.fv)
        pred = lambda t: t.op == "ite" and t.sort != "B" and t.fv <= fv
        ta = subterms(a, pred, True)
        if not ta: return False
        tb = set(subterms(b, pred, True))
        common = [t for t in ta if t in tb]
        if not common: return False
        common.sort(key=lambda t: -t.h if hasattr(t, "h") else 0)
        try:
            for t in sorted(common, key=lambda t: t.id, reverse=True):
                try: r = case.resolve(t)
                except Split: continue
                if r.op in SPECIAL: continue
                v = var("gen!%d" % t.id, t.sort); s = case.sgn(r)
                m[t] = (v, s)
            if not m: return False
            mm = {t: v for t, (v, s) in m.items()}
            A = list(case.A)
            for t, (v, s) in m.items():
                if s[0]: A.append(ge(v, ZERO))
                if s[1]: A.append(le(v, ZERO))
                if s[2]: A.append(ne(v, ZERO))
            A = [subst(f, mm) for f in A]
            k = case_of(A)
            a2, b2 = subst(subst(a, mm), k.map), subst(subst(b, mm), k.map)
            p = Prover(min(20, max(1, self.budget - (time.time() - self.t0))), 100)
            return p.same(a2, b2, k, cong=cong)
        except Give: return False
    def branch(self, a, b, case, c, depth, cong):
        if depth > 40: raise Give("too many nested cases")
        if c in case.A or not_(c) in case.A: raise Give("split loop on %s" % show(c)[:300])
        for cc in (c, not_(c)):
            k = case.child(cc)
            if k.dead: continue
            if not self.same(subst(a, k.map), subst(b, k.map), k, depth + 1, cong): return False
        return True
    def pick_split(self, a, b, case):
        best = None
        for t in (a, b):
            for x in subterms(t, lambda t: t.op == "ite"):
                c = x.args[0]
                atoms = atoms_of(c)
                for at in atoms:
                    if case.truth(at) is None:
                        k = (len(at.fv), at.id)
                        if best is None or k < best[0]: best = (k, at)
            for x in subterms(t, lambda t: t.op == "app" and t.args[0] == "abs"):
                at = ge(x.args[1], ZERO)
                if case.truth(at) is None:
                    k = (1000 + len(at.fv), at.id)
                    if best is None or k < best[0]: best = (k, at)
        return best[1] if best else None
    def infeasible(self, case):
        return smt.check_sat(case.A + deep_facts(case.A), 1500)[0] == "unsat"
    def nfzero(self, a, b, case):
        t = time.time(); STATS["nf"] += 1
        try:
            nf = NF(case.signfn)
            nf.deadline = time.time() + min(15, self.budget)
            P = nf.padd(nf.nf(a), nf.nf(b), -1)
            return nf.zero(P, budget=min(15, self.budget))
        except (TooBig, RecursionError): return False
        except Unsupported: return False
        finally: STATS["nf_time"] += time.time() - t
    def congruence(self, a, b, case, cong):
        """merge opaque subterms with provably equal arguments"""
        isop = lambda t: t.op == "sum" or t.op == "app" and t.args[0] not in ("exp", "log") or (t.op == "ite")
        ta = subterms(a, isop); tb = subterms(b, isop)
        sa, sb = set(ta), set(tb)
        oa = sorted([t for t in ta if t not in sb], key=lambda t: t.id); ob = sorted([t for t in tb if t not in sa], key=lambda t: t.id)
        if not oa or not ob or len(oa) * len(ob) > 400: return None
        m = {}
        used = False
        for y in ob:
            for x in oa:
                if x.op != y.op or x.op == "app" and (x.args[0] != y.args[0] or len(x.args) != len(y.args)): continue
                if x.sort != y.sort and x.op != "sum": continue
                try:
                    yy = subst(y, m) if m else y
                    if yy is x: m[y] = x; used = True; break
                    if case.apart(x, yy): continue
                    if self.equal_heads(x, yy, case, cong - 1): m[y] = x; used = True; break
                except Give: continue
        if not used: return None
        return a, subst(b, m)
    def equal_heads(self, x, y, case, cong):
        sub_ = Prover(max(1, min(40, .7 * (self.budget - (time.time() - self.t0)))), 60)
        if x.op == "app":
            nm = x.args[0]
            if nm == "opaque_sum": return self.equal_heads(x.args[1], y.args[1], case, cong)
            if nm == "atan2":
                y1, x1, y2, x2 = x.args[1], x.args[2], y.args[1], y.args[2]
                if sub_.same(mul(y1, x2), mul(y2, x1), case, cong=cong):
                    for p in (mul(y1, y2), mul(x1, x2)):
                        s = case.sgn(p)
                        if s[0] and s[2]: return True
            pairs = list(zip(x.args[1:], y.args[1:]))
            # cheap arguments first
            for p, q in sorted(pairs, key=lambda t: t[0].op == "lam"):
                if p is q: continue
                if p.op == "lam" or q.op == "lam":
                    if p.op != q.op or len(p.args) != len(q.args): return False
                    fs = [fresh("e", v.sort) for v in p.args[:-1]]
                    ix = x.args.index(p); dims = x.args[ix + 1: ix + 1 + len(fs)]
                    A = []
                    if len(dims) == len(fs) and nm not in ("quad",):
                        for f, d in zip(fs, dims):
                            if d.op != "lam" and d.sort == "I" and f.sort == "I": A += [le(ZERO, f), lt(f, d)]
                    if nm == "quad": A += []
                    k = Case(case.A + A, case)
                    if k.dead: continue
                    if not sub_.same(subst(lam_apply(p, fs), k.map), subst(lam_apply(q, fs), k.map), k, cong=cong): return False
                elif p.sort == "B":
                    if not self.same_bool(p, q, case): return False
                elif not sub_.same(p, q, case, cong=cong): return False
            return True
        if x.op == "sum":
            if not sub_.same(x.args[1], y.args[1], case, cong=cong): return False
            f = idx_var(x.args[1], x.fv, y.fv, case.allfv())
            k = case_of(case.A + [le(ZERO, f), lt(f, x.args[1])])
            if k.dead: return True
            bx = subst(subst(x.args[2], {x.args[0]: f}), k.map); by = subst(subst(y.args[2], {y.args[0]: f}), k.map)
            return sub_.same(bx, by, k, cong=cong + 1)
        if x.op == "ite":
            return self.same_bool(x.args[0], y.args[0], case) and sub_.same(x.args[1], y.args[1], case, cong=cong) and sub_.same(x.args[2], y.args[2], case, cong=cong)
        return False
    def same_bool(self, p, q, case):
        if p is q: return True
        if case.apart(p, q): return False
        if self.same_atoms(p, q, case): return True
        k1 = case.child(p); k2 = case.child(not_(p))
        pr = Prover(5, 40)
        try:
            return (k1.dead or pr.holds(subst(q, k1.map), k1)) and (k2.dead or pr.holds(subst(not_(q), k2.map), k2))
        except Give: return False
    def same_atoms(self, p, q, case):
        """structurally equal conditions up to provably equal comparison sides"""
        if p is q: return True
        if p.op != q.op: return False
        if p.op == "not": return self.same_atoms(p.args[0], q.args[0], case)
        if p.op in ("and", "or"):
            return len(p.args) == len(q.args) and all(self.same_atoms(x, y, case) for x, y in zip(p.args, q.args))
        if p.op in ("lt", "le", "eq"):
            try: return Prover(10, 60).same(p.args[0], q.args[0], case, cong=1)
            except Give: return False
        return False
    # -------------------------------------------------------------- formulas
    def holds(self, f, case, depth=0):
        if case.dead: return True
        self.tick()
        o = f.op
        if o == "and": return all(self.holds(x, case, depth) for x in f.args)
        try: g = case.rcond(f, frozenset())
        except Split as s:
            return self.hbranch(f, case, s.c, depth)
        if g is TRUE: return True
        if g.op == "and" and g is not f: return all(self.holds(x, case, depth) for x in g.args)
        if g is FALSE:
            if self.infeasible(case): return True
            self.failed_leaf = (case, f, g); return False
        if g.op == "app" and g.args[0] == "same":
            raise Give("nested same")
        t = case.quick(g)
        if t is True: return True
        if smt.entails(case.A, g, 1500) is True: return True
        if g.op == "eq":
            return self.same(g.args[0], ZERO, case, depth)
        if g.op == "or":
            # assume the negation of all but one disjunct
            for i, x in enumerate(g.args):
                k = case
                for y in g.args[:i] + g.args[i + 1:]:
                    k = k.child(subst(not_(y), k.map))
                    if k.dead: return True
                try:
                    if self.holds(subst(x, k.map), k, depth + 1): return True
                except Give: pass
            return self.fail(case, f, g)
        if g.op in ("lt", "le"):
            if self.posit(g.args[0], case, g.op == "lt"): return True
            if self.ineq(g, case): return True
            c = self.pick_split(g.args[0], ZERO, case)
            if c is not None: return self.hbranch(g, case, c, depth)
        if g.op == "not" and g.args[0].op == "eq":
            if case.nonzero(g.args[0].args[0]): return True
            c = self.pick_split(g.args[0].args[0], ZERO, case)
            if c is not None: return self.hbranch(g, case, c, depth)
        if g.op == "app" or g.op == "not" and g.args[0].op == "app":
            h = g if g.op == "app" else g.args[0]
            for a in case.A:
                ha = a if a.op == "app" else (a.args[0] if a.op == "not" and a.args[0].op == "app" else None)
                if ha is None or (a.op == "not") != (g.op == "not") or ha.args[0] != h.args[0] or len(ha.args) != len(h.args): continue
                if self.equal_heads(ha, h, case, 1): return True
        if self.infeasible(case): return True
        return self.fail(case, f, g)
    def posit(self, e, case, strict, depth=0):
        """e > 0 (strict) or e >= 0, by structure (e resolved: all its parts are finite in this case)"""
        if case.dead: return True
        if depth > 12: return False
        self.tick()
        s = case.sgn(e)
        if s[0] and (s[2] or not strict): return True
        o = e.op
        P = lambda x, st: self.posit(x, case, st, depth + 1)
        if o == "mul":
            sg = 1; rest = []
            for a in e.args:
                t = case.sgn(a)
                if t[0] and (t[2] or not strict): continue
                if t[1] and (t[2] or not strict): sg = -sg; continue
                rest.append(a)
            if not rest: return sg > 0
            if sg < 0: return len(rest) == 1 and P(neg(rest[0]), strict)
            return all(P(a, strict) for a in rest)
        if o == "pow":
            q_ = e.args[1].args[0]
            if q_.denominator == 1 and q_ % 2 == 0: return not strict or case.nonzero(e.args[0])
            return P(e.args[0], strict)
        if o == "sum":
            fs, n, body = open_binder(e)
            if strict and case.truth(gt(n, ZERO)) is not True: return False
            k = Case(case.A + [le(ZERO, fs[0]), lt(fs[0], n)], case)
            try: b = k.resolve(subst(body, k.map))
            except Split: return False
            if b.op in SPECIAL: return b is INF
            return self.posit(b, k, strict, depth + 1)
        if o == "ite":
            ka, kb = case.child(e.args[0]), case.child(negc(e.args[0]))
            return (ka.dead or self.posit(subst(e.args[1], ka.map), ka, strict, depth + 1)) and (kb.dead or self.posit(subst(e.args[2], kb.map), kb, strict, depth + 1))
        if o == "app" and e.args[0] == "abs": return not strict or case.nonzero(e.args[1])
        if o == "add":
            if all(t.op in ("ite", "sum") or case.sgn(t)[0] for t in e.args):
                got = False; ok = True
                for t in e.args:
                    if strict and not got and P(t, True): got = True; continue
                    if not P(t, False): ok = False; break
                if ok and (got or not strict): return True
            c = self.pick_split(e, ZERO, case)
            if c is not None:
                ka, kb = case.child(c), case.child(negc(c))
                ok = True
                for k in (ka, kb):
                    if k.dead: continue
                    try: x = k.resolve(subst(e, k.map))
                    except Split: ok = False; break
                    if x.op in SPECIAL or not self.posit(x, k, strict, depth + 1): ok = False; break
                if ok: return True
            # difference of exponentials
            if len(e.args) == 2:
                ex = []
                for t in e.args:
                    cc, r = (t.args[0].args[0], mul(*t.args[1:])) if t.op == "mul" and t.args[0].op == "const" else (Fr(1), t)
                    if r.op == "app" and r.args[0] == "exp": ex.append((cc, r.args[1]))
                if len(ex) == 2 and ex[0][0] == -ex[1][0]:
                    (u, v) = (ex[0][1], ex[1][1]) if ex[0][0] > 0 else (ex[1][1], ex[0][1])
                    d = sub(u, v)
                    if self.posit(d, case, strict, depth + 1): return True
                    return self.lin_pos(d, case, strict)
            got = False
            for t in e.args:
                if strict and not got and P(t, True): got = True; continue
                if not P(t, False): return False
            return got or not strict
        if depth: return smt.entails(case.A, (lt if strict else le)(ZERO, e), 400) is True
        return False
    def lin_pos(self, d, case, strict):
        try:
            nf = NF(case.signfn); e2 = nf.toexpr(nf.nf(d))
            if case.sgn(e2)[0] and (case.sgn(e2)[2] or not strict): return True
            # common positive factor
            if self.factor_pos(nf, d, case, strict): return True
            return smt.entails(case.A, (lt if strict else le)(ZERO, e2), 1500) is True
        except (TooBig, Unsupported, AttributeError, RecursionError): return False
    def factor_pos(self, nf, d, case, strict):
        return False
    def fail(self, case, f, g):
        self.failed_leaf = (case, f, g); return False
    def hbranch(self, f, case, c, depth):
        if depth > 40: raise Give("too many nested cases")
        for cc in (c, not_(c)):
            k = case.child(cc)
            if k.dead: continue
            if not self.holds(subst(f, k.map), k, depth + 1): return False
        return True
    def ineq(self, g, case):
        """0 < d or 0 <= d by normal form: sum of terms with the right sign"""
        d = g.args[0]
        try:
            nf = NF(case.signfn); P = nf.nf(d)
            if len(P) > 400: return False
            ok = True; strict = g.op == "le"
            for m, v in P.items():
                t = mul(const(v), *[powc(nf.gens[x].expr, ex) for x, ex in m])
                s = case.sgn(t)
                if not s[0]: ok = False; break
                if s[2]: strict = True
            if ok and strict: return True
            e2 = nf.toexpr(P)
            s = case.sgn(e2)
            if s[0] and (s[2] or g.op == "le"): return True
            return smt.entails(case.A + deep_facts(case.A + [g]), (lt if g.op == "lt" else le)(ZERO, e2), 3000) is True
        except (TooBig, Unsupported, AttributeError, RecursionError): return False

def negc(c):
    """negation of a condition whose sides are finite numbers"""
    if c.op == "lt": return mk_cmp("le", neg(c.args[0]))
    if c.op == "le": return mk_cmp("lt", neg(c.args[0]))
    return not_(c)
def atoms_of(c):
    if c.op in ("and", "or", "not"):
        r = []
        for a in c.args: r += atoms_of(a)
        return r
    return [c] if c.sort == "B" and c.op not in ("true", "false") else []
def deep_facts(fs): return []

# ------------------------------------------------------------------ obligations
class Result:
    __slots__ = ("status", "backend", "time", "info", "model")
    def __repr__(s): return "%s[%s %.1fs] %s" % (s.status, s.backend, s.time, s.info or "")

def arm(t):
    """hard limit: SIGALRM raises Give (set up by the worker)"""
    try: signal.setitimer(signal.ITIMER_REAL, t, 2 if t else 0)
    except (ValueError, AttributeError): pass
def known_map(A):
    """conditions that literally appear among the assumptions, positively or negatively"""
    m = {}
    for c in A:
        if c.op in ("lt", "le", "eq", "not") and not (c.op == "not" and c.args[0].op == "var"):
            m[c] = TRUE; m[not_(c)] = FALSE
    return m

def prove_same(a, b, A, budget=60, refute=True):
    t = time.time(); r = Result(); r.model = None; r.info = None; r.backend = "nf+z3"
    dl = State.deadline; State.deadline = time.time() + budget
    try:
        try:
            arm(budget)
            c = Case(A); km = known_map(A)
            ok = Prover(budget).same(subst(subst(a, km), c.map), subst(subst(b, km), c.map), c)
        except (Give, TooBig, RecursionError) as e: ok = None; r.info = "gave up: %s" % e
        except Unsupported as e: ok = None; r.info = "unsupported: %s" % e
        if ok: r.status = "proved"
        else:
            r.status = "unknown"
            if refute:
                State.deadline = None
                try: arm(40); m = refute_same(a, b, A)
                except Give: m = None
                if m: r.status = "refuted"; r.model = m; r.backend = "numeric"
    finally: arm(0); State.deadline = dl
    r.time = time.time() - t
    return r

def prove(f, A, budget=60, refute=True):
    t = time.time(); r = Result(); r.model = None; r.info = None; r.backend = "z3+nf"
    dl = State.deadline; State.deadline = time.time() + budget
    try:
        try:
            arm(budget)
            c = Case(A)
            ok = Prover(budget).holds(subst(f, c.map), c)
        except (Give, TooBig, RecursionError) as e: ok = None; r.info = "gave up: %s" % e
        except Unsupported as e: ok = None; r.info = "unsupported: %s" % e
        if ok: r.status = "proved"
        else:
            r.status = "unknown"
            if refute:
                State.deadline = None
                try: arm(40); m = refute_formula(f, A)
                except Give: m = None
                if m: r.status = "refuted"; r.model = m; r.backend = "numeric/z3 model"
    finally: arm(0); State.deadline = dl
    r.time = time.time() - t
    return r

def refute_same(a, b, A, n=25, limit=16):
    t0 = time.time()
    for ev in numev.models(A, [a, b], n, limit=limit / 2):
        try:
            x, y = ev(a), ev(b)
            if numev.differ(x, y):
                return {"assignment": numev.envstr(ev), "code": str(x)[:60], "contract": str(y)[:60]}
        except (numev.CannotEval, OverflowError, ZeroDivisionError, ValueError, TypeError): pass
        if time.time() - t0 > limit / 2: break
    # directed: branches on which the two sides take different alternatives
    cond = lambda e: {t.args[0] for t in subterms(e, lambda t: t.op == "ite", into_binders=False)}
    ca, cb = cond(a), cond(b); one, two = [x for x in ca if x not in cb][:6], [x for x in cb if x not in ca][:6]
    sets = [[x, not_(y)] for x in one for y in two] + [[not_(x), y] for x in one for y in two] + [[x] for x in one + two] + [[not_(x)] for x in one + two]
    for extra in sets[:60]:
        for ev in numev.models(list(A) + extra, [a, b], 3, seed=5, limit=3):
            try:
                x, y = ev(a), ev(b)
                if numev.differ(x, y): return {"assignment": numev.envstr(ev), "code": str(x)[:60], "contract": str(y)[:60]}
            except (numev.CannotEval, OverflowError, ZeroDivisionError, ValueError, TypeError): pass
        if time.time() - t0 > limit: break
    return None

def refute_formula(f, A, n=60, limit=25):
    t0 = time.time()
    # directed: satisfy the negation
    for AA in (list(A) + [not_(f)], A):
        for ev in numev.models(AA, [f], n // 2):
            try:
                if not ev(f): return {"assignment": numev.envstr(ev)}
            except (numev.CannotEval, OverflowError, ZeroDivisionError, ValueError, TypeError): pass
            if time.time() - t0 > limit: return None
    # z3 model, validated numerically
    try:
        r, m = smt.check_sat(list(A) + [not_(f)], 2000, want_model=True)
        if r == "sat" and m is not None:
            names = numev.varnames(list(A) + [f]); env = {}
            for nme, s in names.items():
                v = smt.model_value(m[nme]) if nme in m else Fr(0)
                if v is None: return None
                if isinstance(v, bool): env[nme] = v
                else: env[nme] = int(v) if v.denominator == 1 else numev.mp.mpf(v.numerator) / v.denominator
            ev = numev.Ev(env, 7)
            if all(ev(x) for x in A) and not ev(f): return {"assignment": numev.envstr(ev), "via": "z3"}
    except (Exception, Unsupported): pass
    return None
