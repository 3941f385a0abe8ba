"""Execution context: assumptions, path decisions (re-execution), sub-exploration with state merging."""
from .ir import *
from . import smt
import time

class PathEnd(BaseException):
    """this path ends here (infeasible, or cut by a loop rule)"""
class TooManyPaths(Unsupported): pass

class Ctx:
    def __init__(self, pre=(), prefix=()):
        self.assume = list(pre); self.prefix = list(prefix); self.pos = 0
        self.pending = []           # alternative prefixes discovered
        self.taken = []
        self.pc = []                # path condition added by decisions

class State:
    stack = []
    journals = []                   # active sub-explorations: journal of buffer changes
    deadline = None
    hooks = {}                      # contracts of library functions installed by a case
    fork_timeout = 400

def cur(): return State.stack[-1] if State.stack else None
def assumptions(): return cur().assume if cur() else []
def assume(f):
    if f is TRUE: return
    if f is FALSE: raise PathEnd()
    c = cur()
    if f.op == "and":
        for x in f.args: assume(x)
        return
    if f not in c.assume: c.assume.append(f)

def known(f):
    """cheap entailment: constant or syntactically assumed"""
    if f is TRUE: return True
    if f is FALSE: return False
    a = assumptions()
    if f in a: return True
    if not_(f) in a: return False
    return None

def ent(f, timeout=400):
    k = known(f)
    if k is not None: return k
    return smt.entails(assumptions(), f, timeout) is True

def check_time():
    if State.deadline and time.time() > State.deadline: raise Unsupported("time budget exhausted")

def decide(cond):
    check_time()
    k = known(cond)
    if k is not None: return k
    if cond.op == "and":
        return all(decide(x) for x in cond.args)
    if cond.op == "or":
        return any(decide(x) for x in cond.args)
    if cond.op == "not": return not decide(cond.args[0])
    c = cur()
    if c is None: raise Unsupported("symbolic branch outside exploration: %s" % show(cond)[:200])
    if c.pos < len(c.prefix):
        v = c.prefix[c.pos]
        forced = False
    else:
        if smt.entails(c.assume, cond, State.fork_timeout) is True: v = True; forced = True
        elif smt.entails(c.assume, not_(cond), State.fork_timeout) is True: v = False; forced = True
        else: v = True; forced = False
        if forced:
            pass
        else:
            c.pending.append(c.taken + [False])
    if c.pos < len(c.prefix): c.pos += 1; c.taken.append(v); f = cond if v else not_(cond); c.pc.append(f); assume(f)
    elif forced:
        assume(cond if v else not_(cond))      # derived fact, not a decision
    else:
        c.pos += 1; c.prefix.append(v); c.taken.append(v); f = cond if v else not_(cond); c.pc.append(f); assume(f)
    return v

class Path:
    __slots__ = ("pc", "assume", "result", "exc", "extra")

def explore(fn, pre=(), maxpaths=400, on_end=None):
    """run fn under every decision sequence; returns list of Path (result or exception)"""
    work = [[]]; out = []
    base = list(pre)
    while work:
        check_time()
        if len(out) > maxpaths: raise TooManyPaths("more than %d paths" % maxpaths)
        pref = work.pop()
        c = Ctx(base, pref)
        State.stack.append(c)
        p = Path(); p.result = None; p.exc = None; p.extra = None
        ended = False
        try:
            try: p.result = fn()
            except PathEnd: ended = True
            except (Unsupported, RecursionError, MemoryError, KeyboardInterrupt): raise
            except Exception as e:
                p.exc = e
            if on_end: p.extra = on_end(ended)
        finally:
            State.stack.pop()
        work.extend(c.pending)
        if ended: continue
        p.pc = list(c.pc); p.assume = list(c.assume)
        out.append(p)
    return out

# ---- journaling for sub-explorations
class Journal:
    def __init__(self):
        self.old = {}               # buffer -> old content
        self.writes = []            # (buffer, view)
        self.reads = []             # (buffer, view or idx)
        self.created = set()
    def restore(self):
        for b, c in self.old.items(): b.content = c

def sub(fn, extra=(), maxpaths=64):
    """explore fn locally under the current assumptions (+extra); buffer writes are rolled back after each
    path.  returns [(pc_list, result_or_None, exc, {buffer: content}, journal)]"""
    base = list(assumptions()) + [f for f in extra]
    work = [[]]; out = []
    while work:
        check_time()
        if len(out) > maxpaths: raise TooManyPaths("loop body with more than %d paths" % maxpaths)
        pref = work.pop()
        c = Ctx(base, pref)
        j = Journal()
        State.stack.append(c); State.journals.append(j)
        res = None; exc = None; ended = False; news = {}
        try:
            try: res = fn()
            except PathEnd: ended = True
            except Unsupported: raise
            except (RecursionError, MemoryError, KeyboardInterrupt): raise
            except Exception as e: exc = e
            news = {b: b.content for b in j.old}
        finally:
            j.restore()
            State.stack.pop(); State.journals.pop()
        work.extend(c.pending)
        if ended: continue
        # writes/reads also count for an enclosing journal
        if State.journals:
            State.journals[-1].reads.extend(j.reads)
        out.append((list(c.pc), res, exc, news, j))
    return out

def pc_and(pc): return and_(*pc) if pc else TRUE
