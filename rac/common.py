"""Runtime contracts: the contracts' postconditions evaluated on the real code (bounded; never counted as proof)."""
import sys, os, json, time, random, traceback, tempfile, shutil, io, contextlib, warnings
warnings.filterwarnings("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = tempfile.mkdtemp(prefix="rac_")
os.chdir(SCRATCH)

TESTS = []
def test(n=5, intense=None, thorough=None, cap=25):
    """n: evaluations in the quick tier; cap: seconds"""
    def deco(f):
        TESTS.append((f.__name__, f, n, intense or 4 * n, thorough or 10 * n, cap)); return f
    return deco

class Inconclusive(Exception): pass
_note = {}
def note(**k):
    for a, b in k.items(): _note[a] = b if isinstance(b, (int, float, str, bool, type(None))) else repr(b)[:600]

def close(a, b, rtol=1e-7, atol=1e-10, what="value"):
    import numpy as np
    a = np.asarray(a); b = np.asarray(b)
    assert a.shape == b.shape, "%s: shape %s, contract %s" % (what, a.shape, b.shape)
    fa, fb = np.isfinite(a), np.isfinite(b)
    assert (fa == fb).all(), "%s: finite/non-finite mismatch" % what
    bad = ~(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))
    bad &= fa
    if bad.any():
        i = tuple(int(x[0]) for x in np.where(bad)) if bad.ndim else ()
        raise AssertionError("%s: at %s code gives %r, contract %r (max abs diff %.3g)" % (what, i, a[i] if i else a[()], b[i] if i else b[()], float(np.nanmax(np.abs(np.where(fa, a - b, 0))))))

def check(ok, what, *got):
    if not ok: raise AssertionError(what + (": " + ", ".join(str(x) for x in got) if got else ""))
def relclose(a, b, tol=1e-6, what="value"):
    """difference small relative to the largest magnitude in the array"""
    import numpy as np
    a = np.asarray(a); b = np.asarray(b)
    assert a.shape == b.shape, "%s: shape %s, contract %s" % (what, a.shape, b.shape)
    assert np.isfinite(a).all() == np.isfinite(b).all(), "%s: finiteness differs" % what
    s = max(float(np.abs(b).max()) if b.size else 0.0, 1e-300)
    d = float(np.abs(a - b).max()) if a.size else 0.0
    assert d <= tol * s, "%s: max difference %.4g against magnitude %.4g" % (what, d, s)

def raises(exc, f, *a, **k):
    try: f(*a, **k)
    except exc: return
    except Exception as e: raise AssertionError("expected %s, got %s: %s" % (exc, type(e).__name__, e))
    raise AssertionError("expected %s, nothing was raised" % (exc,))

def in_repo(tb):
    return any(fr.filename.startswith(REPO + "/") for fr in traceback.extract_tb(tb))

def run_one(name, f, seed):
    _note.clear()
    rng = random.Random(seed)
    import numpy as np
    np.random.seed(seed % (2 ** 31))
    try:
        import torch
        torch.manual_seed(seed)
    except ImportError: pass
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            f(rng)
        return None
    except AssertionError as e:
        tb = e.__traceback__
        return {"test": name, "seed": seed, "inputs": dict(_note), "failure": str(e)[:1000] or traceback.format_exc()[-600:]}
    except Inconclusive as e:
        return {"skip": str(e)}
    except Exception as e:
        if in_repo(e.__traceback__):
            fr = [x for x in traceback.extract_tb(e.__traceback__) if x.filename.startswith(REPO + "/")][-1]
            return {"test": name, "seed": seed, "inputs": dict(_note), "failure": "%s: %s (at %s:%d)" % (type(e).__name__, str(e)[:400], os.path.relpath(fr.filename, REPO), fr.lineno)}
        return {"error": "%s: %s" % (name, traceback.format_exc()[-700:])}

def main():
    tier = os.environ.get("VERIF_TIER", "quick"); seed0 = int(os.environ.get("VERIF_SEED", "1") or 1)
    intense = "--intense" in sys.argv
    res = {"n": 0, "checks": [], "violation": None, "error": None}
    try:
        if "--replay" in sys.argv:
            v = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))["violation"]
            for (nm, f, *_ ) in TESTS:
                if nm == v["test"]:
                    r = run_one(nm, f, v["seed"]); print(json.dumps(r, indent=1)); sys.exit(1 if r and "failure" in r else 0)
            sys.exit(2)
        for (nm, f, n, ni, nt, cap) in TESTS:
            k = nt if tier == "thorough" else n
            if intense: k = max(ni, k)
            t0 = time.time(); done = 0
            lim = cap * (4 if tier == "thorough" else 1) * (2 if intense else 1)
            for i in range(k):
                s = seed0 * 1000003 + i * 7919 + (500000009 if intense else 0)
                r = run_one(nm, f, s); done += 1
                if r is None: 
                    if time.time() - t0 > lim: break
                    continue
                if "skip" in r: done -= 1; continue
                if "error" in r: res["error"] = (res["error"] or "") + r["error"]; break
                res["violation"] = r; break
            res["n"] += done; res["checks"].append([nm, done, round(time.time() - t0, 2)])
            if res["violation"]: break
    finally:
        os.chdir("/")
        shutil.rmtree(SCRATCH, ignore_errors=True)
    print("RAC-RESULT " + json.dumps(res))
