"""Loads modules of the repository: the source text is read from the working tree on every run, lightly rewritten
(float literals exact; / and ** through helpers; loops and comprehensions through the loop rules; annotations
turned into strings; list displays into PList) and executed by CPython in a namespace whose imports and builtins are
the symbolic shims."""
import ast, os, sys, types, builtins as B
from .ir import *
from .sym import *
from . import ctx, loops

REPO = os.environ.get("VERIF_REPO", "/repo")

class Names(ast.NodeVisitor):
    """names bound in a loop body (same function scope)"""
    def __init__(s): s.n = []
    def add(s, x):
        if x not in s.n: s.n.append(x)
    def visit_Name(s, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)): s.add(n.id)
    def visit_FunctionDef(s, n): s.add(n.name)
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_ClassDef(s, n): s.add(n.name)
    def visit_Lambda(s, n): pass
    def visit_ListComp(s, n):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    def visit_Import(s, n):
        for a in n.names: s.add((a.asname or a.name).split(".")[0])
    visit_ImportFrom = visit_Import
    def visit_ExceptHandler(s, n):
        if n.name: s.add(n.name)
        s.generic_visit(n)

class LoopCtl(ast.NodeTransformer):
    """break/continue of this loop level -> raise; detect return/yield"""
    def __init__(s): s.bad = False
    def visit_Break(s, n): return ast.copy_location(ast.Raise(exc=ast.Call(func=ast.Name("_vc_Break", ast.Load()), args=[], keywords=[]), cause=None), n)
    def visit_Continue(s, n): return ast.copy_location(ast.Raise(exc=ast.Call(func=ast.Name("_vc_Continue", ast.Load()), args=[], keywords=[]), cause=None), n)
    def visit_Return(s, n): s.bad = True; return n
    def visit_Yield(s, n): s.bad = True; return n
    visit_YieldFrom = visit_Await = visit_Yield
    def visit_For(s, n):
        r = RetFind(); r.visit(n); s.bad = s.bad or r.bad
        return n
    visit_While = visit_AsyncFor = visit_For
    def visit_FunctionDef(s, n): return n
    visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef

class RetFind(ast.NodeVisitor):
    def __init__(s): s.bad = False
    def visit_Return(s, n): s.bad = True
    visit_Yield = visit_YieldFrom = visit_Return
    def visit_FunctionDef(s, n): pass
    visit_Lambda = visit_ClassDef = visit_FunctionDef

def call(name, *args): return ast.Call(func=ast.Name(name, ast.Load()), args=list(args), keywords=[])

class Rewrite(ast.NodeTransformer):
    def __init__(s): s.k = 0; s.fn = []; s.globals_ = [set()]
    def visit_Constant(s, n):
        if isinstance(n.value, (float, complex)) and not isinstance(n.value, bool):
            return ast.copy_location(call("_vc_lit", n), n)
        return n
    def visit_JoinedStr(s, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue): v.value = s.visit(v.value)
        return n
    def visit_BinOp(s, n):
        s.generic_visit(n)
        if isinstance(n.op, ast.Div): return ast.copy_location(call("_vc_div", n.left, n.right), n)
        if isinstance(n.op, ast.Pow): return ast.copy_location(call("_vc_pow", n.left, n.right), n)
        return n
    def visit_AugAssign(s, n):
        s.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)):
            import copy
            load = copy.deepcopy(n.target)
            for x in ast.walk(load):
                if hasattr(x, "ctx"): x.ctx = ast.Load()
            # only the outermost is a store
            return ast.copy_location(ast.Assign(targets=[n.target], value=call("_vc_idiv" if isinstance(n.op, ast.Div) else "_vc_ipow", load, n.value)), n)
        return n
    def visit_List(s, n):
        s.generic_visit(n)
        if isinstance(n.ctx, ast.Load): return ast.copy_location(call("_vc_pl", n), n)
        return n
    # annotations
    def _strip(s, n):
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]: x.annotation = None
        n.returns = None
    def visit_FunctionDef(s, n):
        s._strip(n)
        g = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Global): g |= set(x.names)
        s.fn.append("gen" if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)) else "fn"); s.globals_.append(g)
        s.generic_visit(n)
        s.fn.pop(); s.globals_.pop()
        return n
    def visit_AsyncFunctionDef(s, n): return n
    def visit_ClassDef(s, n):
        s.fn.append("cls"); s.generic_visit(n); s.fn.pop()
        return n
    def visit_AnnAssign(s, n):
        ann = ast.unparse(n.annotation)
        n.annotation = ast.Constant(value=ann)
        if n.value is not None: n.value = s.visit(n.value)
        n.target = s.visit(n.target)
        return n
    # comprehensions
    def _comp(s, n):
        if len(n.generators) == 1 and not n.generators[0].is_async:
            g = n.generators[0]; t = g.target
            if isinstance(t, ast.Name): names = [t.id]; star = False
            elif isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts): names = [e.id for e in t.elts]; star = True
            else: names = None
            if names and len(set(names)) == len(names) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
                def lam_(body): return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
                it = s.visit(g.iter); elt = s.visit(n.elt)
                return ast.copy_location(call("_vc_lc", it, lam_(elt), ast.Tuple(elts=[lam_(s.visit(c)) for c in g.ifs], ctx=ast.Load()), ast.Constant(star)), n)
        s.generic_visit(n)
        return n
    def visit_ListComp(s, n):
        r = s._comp(n)
        return r if not isinstance(r, ast.ListComp) else ast.copy_location(call("_vc_pl", r), n)
    visit_GeneratorExp = _comp
    # loops
    def visit_For(s, n):
        if not s.fn or s.fn[-1] != "fn" or n.orelse:
            s.generic_visit(n); return n
        import copy
        sym_body = copy.deepcopy(n.body); target = copy.deepcopy(n.target)
        s.generic_visit(n)
        names = Names(); names.visit(target)
        for b in sym_body: names.visit(b)
        ctl = LoopCtl()
        sym_body = [ctl.visit(b) for b in sym_body]
        # rewrite the copy (nested loops etc.)
        sym_body2 = []
        for b in sym_body:
            r = s.visit(b)
            sym_body2 += r if isinstance(r, list) else [r]
        s.k += 1; k = s.k
        L = "_vcL%d" % k; bodyn = "_vcbody%d" % k
        gl = s.globals_[-1]
        nl = [x for x in names.n if x not in gl and not x.startswith("_vc")]
        pre = ast.Assign(targets=[ast.Name(L, ast.Store())], value=call("_vc_loop", n.iter))
        native = ast.For(target=n.target, iter=ast.Attribute(ast.Name(L, ast.Load()), "items", ast.Load()), body=n.body, orelse=[])
        if ctl.bad:
            symb = [ast.Expr(call("_vc_unsup", ast.Constant("return inside a symbolic loop")))]
        else:
            bd = ([ast.Nonlocal(names=nl)] if nl else []) + [ast.Assign(targets=[target], value=ast.Name("_vcitem", ast.Load()))] + sym_body2
            fd = ast.FunctionDef(name=bodyn, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="_vcitem")], kwonlyargs=[], kw_defaults=[], defaults=[]), body=bd, decorator_list=[], returns=None, type_params=[])
            symb = [fd]; keys = []; vals = []
            for x in nl:
                sn = "_vcset%d_%s" % (k, x)
                symb.append(ast.FunctionDef(name=sn, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="_vcv")], kwonlyargs=[], kw_defaults=[], defaults=[]),
                    body=[ast.Nonlocal(names=[x]), ast.Assign(targets=[ast.Name(x, ast.Store())], value=ast.Name("_vcv", ast.Load()))], decorator_list=[], returns=None, type_params=[]))
                gt_ = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=ast.Name(x, ast.Load()))
                keys.append(ast.Constant(x)); vals.append(ast.Tuple(elts=[gt_, ast.Name(sn, ast.Load())], ctx=ast.Load()))
            symb.append(ast.Expr(ast.Call(func=ast.Attribute(ast.Name(L, ast.Load()), "run", ast.Load()), args=[ast.Name(bodyn, ast.Load()), ast.Dict(keys=keys, values=vals)], keywords=[])))
        iff_ = ast.If(test=ast.Attribute(ast.Name(L, ast.Load()), "concrete", ast.Load()), body=[native], orelse=symb)
        out = [pre, iff_]
        for o in out:
            ast.copy_location(o, n)
            for x in ast.walk(o):
                if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, "lineno"): ast.copy_location(x, n)
        return out

def div_(a, b):
    if isinstance(a, bool): a = int(a)
    if isinstance(b, bool): b = int(b)
    if isinstance(a, int) and isinstance(b, int):
        if b == 0: raise ZeroDivisionError("division by zero")
        r = Fr(a, b)
        return S(const(r), "f")
    return a / b
def pow_(a, b):
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
        if b >= 0: return a ** b
        return S(powc(const(a), b), 'f')
    return a ** b
def idiv(a, b):
    if isinstance(a, SArr):
        a /= b; return a
    return div_(a, b)
def ipow(a, b):
    if isinstance(a, SArr):
        a **= b; return a
    return pow_(a, b)
def lit_(x): return S(lit(x), "f")
def unsup(m): raise Unsupported(m)

class Loader:
    def __init__(self, shims, overrides=None):
        """shims: dict top-level module name -> module-like object"""
        self.shims = shims; self.modules = {}; self.files = {}; self.builtins = None
        self.stub = None
    def path_of(self, name):
        rel = name.replace(".", "/")
        for p in (os.path.join(REPO, rel + ".py"), os.path.join(REPO, rel, "__init__.py")):
            if os.path.exists(p): return p
        return None
    def load(self, name):
        if name in self.modules: return self.modules[name]
        p = self.path_of(name)
        if p is None: raise ModuleNotFoundError("No module named %r" % name)
        if "." in name: self.load(name.rsplit(".", 1)[0]) if name.rsplit(".", 1)[0] not in self.modules else None
        if name in self.modules: return self.modules[name]
        src = open(p).read()
        tree = ast.parse(src, p)
        tree = Rewrite().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, p, "exec")
        m = types.ModuleType(name); m.__file__ = p
        m.__package__ = name if p.endswith("__init__.py") else name.rsplit(".", 1)[0]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__.update(_vc_lit=lit_, _vc_div=div_, _vc_pow=pow_, _vc_idiv=idiv, _vc_ipow=ipow, _vc_pl=PList, _vc_lc=loops.listcomp,
                          _vc_loop=loops.Loop, _vc_Break=loops.Break, _vc_Continue=loops.Continue, _vc_unsup=unsup)
        self.modules[name] = m; self.files[name] = p; sys.modules[name] = m
        exec(code, m.__dict__)
        if "." in name:
            par, ch = name.rsplit(".", 1)
            if par in self.modules: setattr(self.modules[par], ch, m)
        return m
    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1): pkg = pkg.rsplit(".", 1)[0]
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if top == "drdmannturb" or self.path_of(name) and top in ("drdmannturb",):
            m = self.load(name)
            if not fromlist: return self.load(top)
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and self.path_of(name + "." + f): self.load(name + "." + f)
            return m
        if top in self.shims:
            m = self.shims[top]
            if not fromlist: 
                x = m
                for part in name.split(".")[1:]: x = getattr(x, part)
                return m
            for part in name.split(".")[1:]: m = getattr(m, part)
            return m
        if top in SAFE: return __import__(name, globals, locals, fromlist, 0)
        if self.stub is not None: return self.stub(name)
        raise Unsupported("import of %s" % name)

SAFE = {"dataclasses", "typing", "enum", "collections", "abc", "functools", "itertools", "pathlib", "io", "__future__", "copy", "string", "re", "json", "contextlib", "types", "textwrap", "operator", "numbers", "inspect"}
