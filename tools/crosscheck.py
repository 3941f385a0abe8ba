"""Engine self-test: no proved obligation may have a numeric counterexample.  Usage: crosscheck.py c01 [c02 ...]; every obligation of the given contracts is
handed to the refuter (which ignores the prover); a refutation of an obligation that the prover proves is a bug in one of the two."""
import sys, os, time, threading, importlib, multiprocessing as mpx
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "contracts")]; sys.setrecursionlimit(20000); threading.stack_size(512 * 1024 * 1024)
from pyvc.check import *
from pyvc import check
LIM = float(os.environ.get("LIM", "4"))
def work(mod):
    c = Check(mod.upper()); importlib.import_module(mod).contract(c)
    n = len(c.obs); bad = 0
    def one(lo):
        b = 0
        for o in c.obs[lo::8]:
            try: m = prove.refute_same(o.a, o.b, o.A, 8, LIM) if o.kind == "same" else prove.refute_formula(o.a, o.A, 10, LIM)
            except prove.Give: m = None
            if m:
                r = check.guarded(o)
                if r["status"] == "proved": print("MISMATCH %s: %s / %s %s" % (mod, o.case, o.name, m), flush=True); b += 1
        os._exit(min(b, 100))
    kids = []
    for k in range(8):
        p = os.fork()
        if p == 0: one(k)
        kids.append(p)
    for p in kids: bad += os.waitstatus_to_exitcode(os.waitpid(p, 0)[1])
    print("%s: %d obligations cross-checked, %d mismatches" % (mod, n, bad), flush=True)
def t():
    for m in sys.argv[1:]:
        pid = os.fork()
        if pid == 0:
            work(m); os._exit(0)
        os.waitpid(pid, 0)
th = threading.Thread(target=t); th.start(); th.join()
