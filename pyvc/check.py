"""Contract checks: exploration of the real code under a contract, obligations, verdict, evidence, replay."""
import os, sys, time, json, pickle, traceback, hashlib, subprocess, linecache, signal
from .ir import *
from .sym import *
from . import ctx, smt, prove, numev, loader, shims, loops
from .ctx import State

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = loader.REPO

class Ob:
    __slots__ = ("name", "case", "kind", "a", "b", "A", "budget", "soft")

class Check:
    def __init__(self, pid):
        self.pid = pid; self.obs = []; self.undecided = []; self.cases = {}; self.functions = []; self.notes = []
        self.trusted = []; self.keys = set(); self.results = []; self.bounded = []
        self.cur = None
    # ---- code access
    def load(self, name):
        if not hasattr(self, "_l"):
            shims.reset_world()
            l = loader.Loader(shims.make_shims()); l.builtins = shims.make_builtins(l); l.stub = lambda n: shims.Stub(n)
            self._l = l
        return self._l.load(name)
    def fn(self, *names): self.functions += [n for n in names if n not in self.functions]
    def trust(self, *t): self.trusted += [x for x in t if x not in self.trusted]
    # ---- cases
    def case(self, name, body, pre=(), raises=None, budget=60, maxpaths=400, min_paths=1, soft=False):
        """explore body (which runs repository functions and states obligations).
        raises: None (no exception may escape) or a callback(exc, path) -> list of formulas/True allowed"""
        info = {"paths": 0, "obligations": 0, "exceptions": 0}
        self.cases[name] = info; self.cur = (name, budget, soft)
        t0 = time.time(); State.deadline = min(t0 + 240, max(t0 + 5, START + 400 * SLACK))
        n0 = len(self.obs)
        Check.active = self
        loops.SPECS.clear()
        def run():
            shims.reset_world(); loops.SPECS.clear(); State.hooks.clear()
            return body()
        try:
            paths = ctx.explore(run, list(pre), maxpaths)
            info["paths"] = len(paths)
            for k, p in enumerate(paths):
                if p.exc is None: continue
                info["exceptions"] += 1
                if raises is not None:
                    r = raises(p.exc, p)
                    if r is True: continue
                    if r: # formula that must hold on a raising path
                        for j, f in enumerate(r): self.add("raises-only-if", "holds", f, None, p.assume)
                        continue
                if smt.entails(p.assume, FALSE, 2000) is True: continue      # an infeasible path
                tb = traceback.extract_tb(p.exc.__traceback__)
                last = tb[-1]
                inrepo = last.filename.startswith(REPO)
                line = (linecache.getline(last.filename, last.lineno) or "").strip()
                what = "%s: %s at %s:%d" % (type(p.exc).__name__, str(p.exc)[:120], os.path.relpath(last.filename, REPO) if inrepo else last.filename, last.lineno)
                if inrepo and (line.startswith("raise") or line.startswith("assert")):
                    self.add("no exception escapes (%s)" % what, "holds", FALSE, None, p.assume)
                else:
                    self.undecided.append((name, "exception in symbolic execution: " + what))
                    if os.environ.get("PYVC_DEBUG"): traceback.print_exception(p.exc)
            if info["paths"] < min_paths: self.undecided.append((name, "no path of the code was covered"))
        except Unsupported as e:
            del self.obs[n0:]
            self.undecided.append((name, "outside the verifier's reach: %s" % e))
            if os.environ.get("PYVC_DEBUG"): traceback.print_exc()
        except (RecursionError, MemoryError) as e:
            del self.obs[n0:]
            self.undecided.append((name, "resource limit: %r" % e))
        except Exception as e:
            del self.obs[n0:]
            self.undecided.append((name, "engine error: %s: %s" % (type(e).__name__, str(e)[:200])))
            if os.environ.get("PYVC_DEBUG"): traceback.print_exc()
        finally:
            State.deadline = None; State.hooks.clear(); State.stack.clear(); State.journals.clear()
            loops.SPECS.clear()
        info["explore_s"] = round(time.time() - t0, 2); info["obligations"] = len(self.obs) - n0
    def add(self, name, kind, a, b, A, budget=None):
        key = (self.cur[0], name, kind, a.id if isinstance(a, E) else None, b.id if isinstance(b, E) else None, frozenset(x.id for x in A))
        if key in self.keys: return
        self.keys.add(key)
        o = Ob(); o.name = name; o.case = self.cur[0]; o.kind = kind; o.a = a; o.b = b; o.A = list(A); o.budget = budget or self.cur[1]; o.soft = self.cur[2]
        self.obs.append(o)
    # ---- discharge in parallel
    def groups(self):
        """obligations that state the same thing on several paths are proved once from the assumptions the paths share"""
        g = {}
        for i, o in enumerate(self.obs):
            key = (o.case, o.name, o.kind, o.a.id if isinstance(o.a, E) else None, o.b.id if isinstance(o.b, E) else None) if not (o.kind == "holds" and o.a is FALSE) else i
            g.setdefault(key, []).append(i)
        return list(g.values())
    def group(self, ids):
        """total time is limited: shorter budgets after a while, then undecided"""
        obs = self.obs
        el = (time.time() - START) / SLACK
        if el > 450 or (el > 90 and FLAG[0]):
            for i in ids: yield i, {"status": "unknown", "backend": "-", "time": 0, "info": "total time limit", "model": None, "z3": (0, 0.0)}
            return
        if el > 200:
            for i in ids: obs[i].budget = min(obs[i].budget, 25 if el < 280 else 8 if el < 360 else 3)
        if len(ids) > 1:
            o = obs[ids[0]]; sh = set(x.id for x in o.A)
            for i in ids[1:]: sh &= set(x.id for x in obs[i].A)
            c = Ob()
            for k in Ob.__slots__: setattr(c, k, getattr(o, k))
            c.A = [x for x in o.A if x.id in sh]; c.budget = min(o.budget, 25)
            d = guarded(c)
            if d["status"] == "proved":
                yield ids[0], d
                for i in ids[1:]: yield i, dict(d, time=0.0, z3=(0, 0.0))
                return
        for i in ids:
            el = (time.time() - START) / SLACK
            if el > 470 or (el > 90 and FLAG[0]): d = {"status": "unknown", "backend": "-", "time": 0, "info": "total time limit", "model": None, "z3": (0, 0.0)}
            else: d = guarded(obs[i])
            yield i, d
    def discharge(self, nproc=8):
        obs = self.obs
        if not obs: return
        gs = self.groups(); nproc = min(nproc, len(gs))
        size = max(1, min(len(gs) // (nproc * 8), 64))
        chunks = [gs[i:i + size] for i in range(0, len(gs), size)]
        qr, qw = os.pipe()
        os.write(qw, b"".join(i.to_bytes(4, "little") for i in range(len(chunks)))); os.close(qw)
        kids = []
        for w in range(nproc):
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                if os.environ.get("PYVC_DEBUG"): import faulthandler; faulthandler.register(signal.SIGUSR2, file=open("/tmp/pyvc_%d.tb" % os.getpid(), "w"))
                try:
                    f = os.fdopen(wfd, "wb")
                    while True:
                        b = os.read(qr, 4)
                        if len(b) < 4: break
                        for ids in chunks[int.from_bytes(b, "little")]:
                            for i, d in self.group(ids): pickle.dump((i, d), f); f.flush()
                    f.close()
                except BaseException:
                    code = 1
                    if os.environ.get("PYVC_DEBUG"): traceback.print_exc()
                os._exit(code)
            os.close(wfd); kids.append((pid, r))
        os.close(qr)
        res = {}; lock = __import__("threading").Lock()
        def collect(r):
            f = os.fdopen(r, "rb")
            while True:
                try: i, d = pickle.load(f)
                except (EOFError, pickle.UnpicklingError): break
                with lock: res[i] = d
        import threading
        old = threading.stack_size(1024 * 1024)
        ts = [threading.Thread(target=collect, args=(r,)) for _, r in kids]
        for t in ts: t.start()
        threading.stack_size(old)
        while any(t.is_alive() for t in ts):      # a prover stuck in one uninterruptible operation must not cost the answer
            for t in ts: t.join(0.5)
            el = (time.time() - START) / SLACK
            if el > 500 or (el > 120 and FLAG[0]):
                for pid, _ in kids:
                    try: os.kill(pid, signal.SIGKILL)
                    except OSError: pass
                for t in ts: t.join(5)
                break
        for pid, _ in kids: os.waitpid(pid, 0)
        for i, o in enumerate(obs):
            d = res.get(i) or {"status": "unknown", "backend": "-", "time": 0, "info": "worker died", "model": None, "z3": (0, 0.0)}
            self.results.append((o, d))

def guarded(o):
    try: return one(o)
    except BaseException as e:
        if os.environ.get("PYVC_DEBUG"): traceback.print_exc()
        return {"status": "unknown", "backend": "-", "time": 0, "info": "internal %s: %s" % (type(e).__name__, str(e)[:200]), "model": None, "z3": (0, 0.0)}
import mmap
FLAG = mmap.mmap(-1, 1)        # set when a failing input is already known
START = time.time(); SLACK = 4 if os.environ.get("VERIF_TIER") == "thorough" else 1
class Alarm(Exception): pass
def _alarm(*a): raise prove.Give("hard time limit")
def one(o):
    smt.STATS.update(z3_calls=0, z3_time=0.0)
    try: signal.signal(signal.SIGALRM, _alarm)
    except ValueError: pass
    if o.kind == "holds" and all(any(x is y for y in o.A) for x in (o.a.args if o.a.op == "and" else (o.a,))):
        return {"status": "proved", "backend": "assumption", "time": 0, "info": None, "model": None, "z3": (0, 0.0)}
    if o.kind == "holds":
        # goal "some t_i is NaN" with the assumption "c is NaN": c == t_i (NaN included) suffices
        gs = [g for g in (o.a.args if o.a.op == "or" else (o.a,)) if g.op == "app" and g.args[0] == "isnan"]
        cs = [x for x in o.A if x.op == "app" and x.args[0] == "isnan"]
        if gs and cs:
            t0 = time.time()
            for x in cs:
                rest = [y for y in o.A if y is not x]
                for b in (3, o.budget / 2):
                    for g in gs:
                        r = prove.prove_same(x.args[1], g.args[1], rest, b)
                        if r.status == "proved": return {"status": "proved", "backend": r.backend, "time": time.time() - t0, "info": None, "model": None, "z3": (smt.STATS["z3_calls"], smt.STATS["z3_time"])}
            return {"status": "unknown", "backend": r.backend, "time": time.time() - t0, "info": "NaN condition not matched", "model": None, "z3": (0, 0.0)}
    if o.kind == "same": r = prove.prove_same(o.a, o.b, o.A, o.budget)
    else: r = prove.prove(o.a, o.A, o.budget)
    if r.status == "unknown":
        # a path that assumes a value to be non-finite is infeasible when the other assumptions make it finite
        bad = [x for x in o.A if x.op == "not" and x.args[0].op == "app" and x.args[0].args[0] == "isfinite"]
        for x in bad:
            q = prove.prove(x.args[0], [y for y in o.A if y not in bad], o.budget)
            if q.status == "proved": q.time += r.time; r = q; break
    return {"status": r.status, "backend": r.backend, "time": r.time, "info": r.info, "model": r.model, "z3": (smt.STATS["z3_calls"], smt.STATS["z3_time"])}

# ---- statements usable inside a case body
def snapshot(): return list(ctx.assumptions())
def same(name, a, b):
    """a == b (extended reals, complex by parts)"""
    c = Check.active
    a = b2n(val(a)) ; b = b2n(val(b))
    if isinstance(a, Cx) or isinstance(b, Cx):
        c.add(name + " (re)", "same", re_(a), re_(b), snapshot())
        c.add(name + " (im)", "same", im_(a), im_(b), snapshot())
        return
    c.add(name, "same", a, b, snapshot())
def holds(name, f):
    c = Check.active
    if isinstance(f, bool): f = TRUE if f else FALSE
    if isinstance(f, S): f = tob(f.v)
    c.add(name, "holds", f, None, snapshot())
def concrete(name, ok):
    holds(name, TRUE if ok else FALSE)
def ids(n, base="ix"):
    return [fresh(base, "I") for _ in range(n)]
def index(*dims):
    """fresh indices within the given dimensions"""
    out = []
    for d in dims:
        i = fresh("ix", "I"); ctx.assume(ge(i, ZERO)); ctx.assume(lt(i, dimE(d))); out.append(i)
    return out
def shape_is(name, arr, shape):
    if not isinstance(arr, SArr): concrete(name + ": is an array", False); return False
    shape = tuple(dimE(x) for x in shape)
    if len(arr.shape_) != len(shape): concrete(name + ": rank", False); return False
    for k, (x, y) in enumerate(zip(arr.shape_, shape)):
        if x is not y: same(name + ": extent %d" % k, S(x), S(y))
    return True
def arr_is(name, arr, shape, f):
    """array has the shape and, at every index, the value f(*idx)"""
    if not shape_is(name, arr, shape): return
    ix = index(*shape)
    same(name, S(arr.elem(tuple(ix))), f(*ix))
def R(name, *conds, kind="R"):
    return S(var(name, kind), "f" if kind == "R" else None)
def pos(name):
    x = var(name); ctx.assume(gt(x, ZERO)); return S(x, "f")
def real(name): return S(var(name), "f")
def nat(name, lo=1):
    x = var(name, "I"); ctx.assume(ge(x, const(lo))); return S(x)
def arr(name, *dims, lib="np", kind="f", sign=None):
    if sign: numev.declare(name, sign)
    sh = tuple(dimE(d) for d in dims)
    return SArr(sh, lambda idx: uf(name, *idx, sort="I" if kind == "i" else "R"), kind, lib)

# ------------------------------------------------------------------ driver
def run_rac(pid, tier, seed, intense=False, replay=None, timeout=420):
    p = os.path.join(VERIF, "rac", pid.lower() + ".py")
    if not os.path.exists(p): return {"n": 0, "checks": [], "violation": None, "error": "no runtime contract script"}
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_REPO=REPO, PYTHONPATH=os.path.join(VERIF, "rac") + os.pathsep + REPO,
               OMP_NUM_THREADS="4", NUMBA_CACHE_DIR="/tmp/numba_%d" % os.getpid())
    cmd = ["/opt/venv/bin/python", p] + (["--intense"] if intense else []) + (["--replay", replay] if replay else [])
    try:
        q = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=timeout, cwd="/tmp")
    except subprocess.TimeoutExpired: return {"n": 0, "checks": [], "violation": None, "error": "runtime contract script timed out"}
    for line in reversed(q.stdout.splitlines()):
        if line.startswith("RAC-RESULT "): return json.loads(line[11:])
    return {"n": 0, "checks": [], "violation": None, "error": "runtime contract script failed: " + (q.stderr or q.stdout)[-800:]}

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid): out.append(l[len("finding: property=%s " % pid):])
    return out

def write_replay(pid, data):
    d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
    s = json.dumps(data, indent=1, default=str)
    f = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1(s.encode()).hexdigest()[:10]))
    open(f, "w").write(s + "\n")
    return f

def main(pid, contract):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    box = {}
    # runtime contracts run beside the proof
    def rac():
        box["rac"] = run_rac(pid, tier, seed)
        if box["rac"].get("violation"): FLAG[0] = 1
    th = threading.Thread(target=rac); th.start()
    chk = Check(pid)
    def work():
        try: contract(chk)
        except (Exception, Unsupported) as e:
            chk.undecided.append(("contract", "%s: %s" % (type(e).__name__, str(e)[:300])))
            if os.environ.get("PYVC_DEBUG"): traceback.print_exc()
        try: chk.discharge(8)
        except (Exception, Unsupported) as e:
            chk.undecided.append(("discharge", repr(e)))
    w = threading.Thread(target=work); w.start(); w.join(); th.join()
    rac_ = box.get("rac") or {"n": 0, "checks": [], "violation": None, "error": "not run"}
    proved = [(o, d) for o, d in chk.results if d["status"] == "proved"]
    refuted = [(o, d) for o, d in chk.results if d["status"] == "refuted"]
    unknown = [(o, d) for o, d in chk.results if d["status"] == "unknown"] + [(o, d) for o, d in refuted if o.soft]
    refuted = [(o, d) for o, d in refuted if not o.soft]
    out = []
    intense = None
    known = known_findings(pid)
    viol = None
    if rac_.get("violation"):
        viol = write_replay(pid, {"property": pid, "kind": "failing input on the real code", "violation": rac_["violation"],
                                  "failed_obligations": [ob_json(o, d) for o, d in refuted],
                                  "replay_cmd": "PYTHONPATH=/verif/rac:/repo /opt/venv/bin/python /verif/rac/%s.py --replay <this file>" % pid.lower()})
        out.append("VIOLATION property=%s replay=%s" % (pid, viol))
    elif refuted or (unknown or chk.undecided):
        intense = run_rac(pid, tier, seed, intense=True, timeout=max(60, min(300, 800 * SLACK - (time.time() - START))))
        if intense.get("violation"):
            viol = write_replay(pid, {"property": pid, "kind": "failing input on the real code", "violation": intense["violation"],
                                      "failed_obligations": [ob_json(o, d) for o, d in refuted + unknown],
                                      "replay_cmd": "PYTHONPATH=/verif/rac:/repo /opt/venv/bin/python /verif/rac/%s.py --replay <this file>" % pid.lower()})
            out.append("VIOLATION property=%s replay=%s" % (pid, viol))
        elif refuted:
            viol = write_replay(pid, {"property": pid, "kind": "failed obligation", "failed_obligations": [ob_json(o, d) for o, d in refuted],
                                      "runtime_contracts": intense})
            out.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, viol))
    for k in known:
        if not viol: out.insert(0, "KNOWN-FINDING: property=%s %s" % (pid, k))
    # ---- evidence
    byk = {}
    for o, d in proved: byk[d["backend"]] = byk.get(d["backend"], 0) + 1
    zc = sum(d["z3"][0] for o, d in chk.results); zt = sum(d["z3"][1] for o, d in chk.results)
    cov = {"obligations": len(chk.obs), "discharged": len(proved),
           "checker_cmd": "cd /verif && python3-vt contracts/%s.py" % pid.lower(),
           "trusted_base": BASE_TRUST + chk.trusted,
           "functions_under_contract": chk.functions,
           "discharged_by": byk, "prover_time_s": round(sum(d["time"] for o, d in chk.results), 2), "z3_calls": zc, "z3_time_s": round(zt, 2),
           "cases": chk.cases,
           "refuted": [ob_json(o, d) for o, d in refuted],
           "undecided": [ob_json(o, d) for o, d in unknown] + [{"case": c, "why": w_} for c, w_ in chk.undecided],
           "bounded": chk.bounded + ([{"what": "obligations listed under 'undecided' are only covered by the runtime contracts on sampled inputs"}] if unknown or chk.undecided else []),
           "runtime_contracts": {"evaluations": rac_.get("n", 0), "checks": rac_.get("checks", []), "error": rac_.get("error"), "intense": (intense or {}).get("n") if intense else None},
           "sample_obligations": [{"case": o.case, "name": o.name, "assumptions": [show(x)[:120] for x in o.A[:4]], "status": d["status"], "s": round(d["time"], 2)} for o, d in chk.results[:5]]}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    if chk.notes: ev["coverage"]["notes"] = chk.notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    # ---- report
    print("%s: %d obligations, %d proved, %d refuted, %d unknown, %d cases undecided; runtime contracts: %d evaluations%s; %.1fs" % (
        pid, len(chk.obs), len(proved), len(refuted), len(unknown), len(chk.undecided), rac_.get("n", 0), (" ERROR " + str(rac_["error"])) if rac_.get("error") else "", time.time() - t0))
    for o, d in refuted: print("  REFUTED %s / %s : %s" % (o.case, o.name, d["model"]))
    for o, d in unknown: print("  UNDECIDED %s / %s : %s" % (o.case, o.name, d["info"]))
    for c, w_ in chk.undecided: print("  UNDECIDED %s : %s" % (c, w_))
    if rac_.get("violation"): print("  RUNTIME CONTRACT FAILED: %s" % json.dumps(rac_["violation"], default=str)[:1500])
    elif intense and intense.get("violation"): print("  RUNTIME CONTRACT FAILED: %s" % json.dumps(intense["violation"], default=str)[:1500])
    for l in out: print(l)
    sys.stdout.flush()
    if viol: os._exit(1)
    if rac_.get("error") and not proved:
        print("no answer: neither the proof nor the runtime contracts ran"); sys.stdout.flush(); os._exit(2)
    if not chk.obs and not rac_.get("n"):
        print("no answer: zero obligations"); sys.stdout.flush(); os._exit(2)
    os._exit(0)

def ob_json(o, d):
    return {"case": o.case, "obligation": o.name, "status": d["status"], "backend": d["backend"], "info": d["info"], "model": d["model"],
            "code_side": show(o.a)[:400] if isinstance(o.a, E) else None, "contract_side": show(o.b)[:400] if isinstance(o.b, E) else None,
            "assumptions": [show(x)[:160] for x in o.A[:20]]}

BASE_TRUST = ["CPython's semantics of the executed statements", "PyVC (verif/pyvc): AST rewriting of literals, / and **, loops and comprehensions; symbolic value library; normal form and case analysis",
              "z3 %s" % smt.z3.get_version_string(), "machine arithmetic treated as exact real arithmetic with IEEE-style NaN/inf at singular points; float literals read as the decimal they show"]
