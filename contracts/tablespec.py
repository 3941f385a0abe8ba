"""Contract of the pandas operations used on a coherence table (pandas documentation).
The table holds one row for every present pair (p, q) of ns separations and nf frequencies, in any order; row values are
functions of the pair: the separation index SI(p) and frequency index FI(q) are strictly increasing integers, the
separation depends on p alone, the frequency on q alone, the coherences on both.
An operation outside this contract is Unsupported (the obligation becomes undecided, never proved)."""
from spec import *
from pyvc import loops
from pyvc.ctx import Unsupported
KEYS = {"sep_idx": 0, "freq_idx": 1}
class Table:
    def __init__(s, ns, nf, complete, rows=None, order=("raw",)):
        s.ns, s.nf, s.complete, s.order = ns, nf, complete, order
        s.rows = mul(ns, nf) if complete else rows
    @property
    def columns(s): return PList(["sep_idx", "freq_idx", "spatial_sep", "frequency", "coh_u", "coh_v", "coh_w"]) if False else Cols()
    @property
    def shape(s): return (dimS(s.rows), 7)
    @property
    def empty(s): return False
    def cell(s, col, p, q):
        if col == "sep_idx": return S(uf("SI", p, sort="I"), "i")
        if col == "freq_idx": return S(uf("FI", q, sort="I"), "i")
        if col == "spatial_sep": return S(uf("SEP", p))
        if col == "frequency": return S(uf("FREQ", q))
        if col in ("coh_u", "coh_v", "coh_w"): return S(uf(col, p, q))
        raise KeyError(col)
    def pair(s, t):
        if s.complete and s.order == ("sep_idx", "freq_idx"): f = vfdiv(t, s.nf); return f, sub(t, mul(s.nf, f))
        if s.complete and s.order == ("freq_idx", "sep_idx"): f = vfdiv(t, s.ns); return sub(t, mul(s.ns, f)), f
        nm = "_".join(s.order) + ("" if s.complete else "_gaps")
        return uf("rowp_" + nm, t, sort="I"), uf("rowq_" + nm, t, sort="I")
    def __getitem__(s, c):
        if isinstance(c, str): s.cell(c, ZERO, ZERO); return Column(s, c)
        raise Unsupported("table indexing %r" % (c,))
    def __setitem__(s, c, v): raise Unsupported("table assignment")
    def sort_values(s, by=None, ignore_index=False, ascending=True, axis=0, inplace=False, kind="quicksort", na_position="last", key=None):
        if axis not in (0, "index") or inplace or key is not None: raise Unsupported("sort_values options")
        by = (by,) if isinstance(by, str) else tuple(by)
        for b in by: s.cell(b, ZERO, ZERO)
        if not (ascending is True or (isinstance(ascending, (list, tuple)) and all(a is True for a in ascending))): return Table(s.ns, s.nf, s.complete, s.rows, ("descending",) + by)
        return Table(s.ns, s.nf, s.complete, s.rows, by)
    def reset_index(s, drop=False):
        if not drop: raise Unsupported("reset_index without drop")
        return s
    def copy(s, deep=True): return s
    def groupby(s, by, sort=True, as_index=True):
        if isinstance(by, (list, tuple)) and len(by) == 1: by = by[0]
        if by not in KEYS or not sort or not as_index: raise Unsupported("groupby %r" % (by,))
        return Groups(s, by)
    def iterrows(s): return Rows(s, lambda p, q: (uf("rowlabel", p, q, sort="I"), Row(s, p, q)))
    def itertuples(s, index=True, name=None): return Rows(s, lambda p, q: Row(s, p, q))
    def __getattr__(s, n):
        if n.startswith("__"): raise AttributeError(n)
        if n in ("sep_idx", "freq_idx", "spatial_sep", "frequency", "coh_u", "coh_v", "coh_w"): return Column(s, n)
        raise Unsupported("DataFrame." + n)
class Cols:
    def tolist(s): return ["sep_idx", "freq_idx", "spatial_sep", "frequency", "coh_u", "coh_v", "coh_w"]
    def __contains__(s, x): return x in s.tolist()
class Column:
    def __init__(s, t, c): s._t, s._c = t, c
    @property
    def values(s):
        t, c = s._t, s._c
        return SArr((t.rows,), lambda ix: val(t.cell(c, *t.pair(ix[0]))), "i" if c in KEYS else "f")
    def to_numpy(s, dtype=None, copy=False): return s.values
    def nunique(s):
        if s._c in KEYS: return dimS(s._t.nf if KEYS[s._c] else s._t.ns)
        raise Unsupported("nunique of a value column")
    def __getattr__(s, n): raise Unsupported("Series." + n)
class Row:
    def __init__(s, t, p, q): s._t, s._p, s._q = t, p, q
    def __getitem__(s, c): return s._t.cell(c, s._p, s._q)
    def __getattr__(s, n):
        if n.startswith("_"): raise AttributeError(n)
        return s._t.cell(n, s._p, s._q)
class Rows:
    """the rows in some order: a loop over them is the loop over all pairs, restricted to the present ones, provided
    iterations do not interfere (the loop summary rejects loop-carried dependences)"""
    def __init__(s, t, get): s.t, s.get = t, get
    def _loop_run(s, body, vars):
        t = s.t
        def inner(p):
            def one(q):
                if t.complete or bool(S(uf("present", p.v, q.v, sort="B"))): body(s.get(p.v, q.v))
            loops.summarise(loops.SIter(t.nf, lambda j: S(j)), one, vars)
        loops.summarise(loops.SIter(t.ns, lambda i: S(i)), inner, vars)
class Groups:
    def __init__(s, t, by): s.t, s.by = t, by
    def __getitem__(s, c): return GCol(s.t, s.by, c)
class GCol:
    def __init__(s, t, by, c): s.t, s.by, s.c = t, by, c; t.cell(c, ZERO, ZERO)
    def agg(s, how):
        own = {"sep_idx": ("sep_idx", "spatial_sep"), "freq_idx": ("freq_idx", "frequency")}[s.by]
        if s.c in own and how in ("first", "last", "min", "max", "mean", "median"):
            k = KEYS[s.by]; f = lambda e: val(s.t.cell(s.c, *((e, ZERO) if k == 0 else (ZERO, e))))
        else: f = lambda e: uf("group_%s_%s_%s" % (how, s.by, s.c), e)
        return Mapping(s.t, s.by, s.c, f)
    def first(s): return s.agg("first")
    def last(s): return s.agg("last")
    def min(s): return s.agg("min")
    def max(s): return s.agg("max")
    def mean(s): return s.agg("mean")
    def median(s): return s.agg("median")
    def __getattr__(s, n): raise Unsupported("SeriesGroupBy." + n)
class Mapping:
    def __init__(s, t, by, c, f): s.t, s.by, s.c, s.f = t, by, c, f
    def sort_index(s): return s
    @property
    def n(s): return s.t.nf if KEYS[s.by] else s.t.ns
    @property
    def values(s): return SArr((s.n,), lambda ix: s.f(ix[0]), "i" if s.c in KEYS else "f")
    def to_numpy(s): return s.values
    @property
    def index(s): return Index(s)
    @property
    def shape_(s): return (s.n,)
    def __getattr__(s, n): raise Unsupported("Series." + n)
class Index:
    def __init__(s, m): s.m = m
    def get_loc(s, v):
        e = val(v); nm = "FI" if KEYS[s.m.by] else "SI"
        if e.op == "app" and e.args[0] == nm: return S(e.args[1], "i")
        return S(uf("loc_" + nm, e, sort="I"), "i")
    @property
    def values(s): nm = "FI" if KEYS[s.m.by] else "SI"; return SArr((s.m.n,), lambda ix: uf(nm, ix[0], sort="I"), "i")
    def __getattr__(s, n): raise Unsupported("Index." + n)
