"""Deductive verifier for LLVM IR: contracts, loop invariants (greatest inductive subset of
template instances), frame conditions, region memory.  See DESIGN.md."""
import sys, time, os, re, itertools, json, select
import z3
from llir import *

sys.setrecursionlimit(20000)
ORT = int(os.environ.get("VC_ORT", "3000"))
BV = z3.BitVecVal
B64 = z3.BitVecSort(64)

class Unsupported(Exception):
    pass
class Budget(Exception):
    pass

# ------------------------------------------------------------------ values
class Region:
    _n = 0
    guard = None          # condition every store to it has to satisfy
    def __init__(self, name, esz, n, kind='data', writable=True, obj=None, boff=0, values=None):
        Region._n += 1
        self.id = Region._n
        self.name, self.esz, self.n, self.kind, self.writable = name, esz, n, kind, writable
        self.obj, self.boff = obj, boff      # parent object, byte offset in it
        self.values = values                 # python list for constant tables
    def __repr__(self): return "<%s#%d>" % (self.name, self.id)

class Obj:
    """composite: list of (byte offset, byte size, Region)"""
    def __init__(self, name):
        self.name, self.fields = name, []

class Ptr:
    __slots__ = ('r', 'off', 'sub')
    def __init__(self, r, off, sub=0):
        self.r, self.off, self.sub = r, off, sub
    def __repr__(self): return "Ptr(%s,%s,%d)" % (self.r, self.off, self.sub)

class NullP:
    def __repr__(self): return "null"
NULL = NullP()

class FnP:
    def __init__(self, name): self.name = name

class MaybePtr:
    """pointer that is null under cond"""
    __slots__ = ('isnull', 'p')
    def __init__(self, isnull, p): self.isnull, self.p = isnull, p

class PInt:
    """ptrtoint of a pointer (+ integer offset in bytes)"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p

class FreshBuf:
    """loop-carried string buffer: another allocation in every iteration"""
    def __init__(self, esz): self.esz = esz

BSEARCH = re.compile(r'_ZNKSt6ranges18__binary_search_fnclITkSt16forward_iteratorPKj.*St8identity.*NS_4lessE|_ZSt13binary_searchIPKj[jD]i?EbT_S\d_RKT0_$')
class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()

_fresh = itertools.count()
def fresh(name, sort):
    return z3.Const("%s!%d" % (name, next(_fresh)), sort)
def fbv(name, w): return fresh(name, z3.BitVecSort(w))
def fbool(name): return fresh(name, z3.BoolSort())
def ffun(name, *sorts): return z3.Function("%s!%d" % (name, next(_fresh)), *sorts)

def simp(e): return z3.simplify(e)
def isnum(e): return z3.is_bv_value(e)
def num(e): return e.as_long()
def c64(n): return BV(n, 64)

def add(a, b):
    if isnum(a) and num(a) == 0: return b
    if isnum(b) and num(b) == 0: return a
    return simp(a + b)
def sub(a, b):
    if isnum(b) and num(b) == 0: return a
    return simp(a - b)

def divexact(e, k):
    """e / k for an e that is a multiple of k without wrap-around (element counts)"""
    if k == 1: return e
    e = simp(e)
    if isnum(e):
        if num(e) % k: raise Unsupported("misaligned constant %d/%d" % (num(e), k))
        v = num(e)
        if v >= 1 << 63: v -= 1 << 64
        return BV(v // k, e.size())
    d = e.decl().kind()
    if d == z3.Z3_OP_BMUL and e.num_args() == 2 and isnum(e.arg(0)):
        c = num(e.arg(0))
        if c >= 1 << (e.size() - 1): c -= 1 << e.size()
        if c % k == 0: return simp(BV(c // k, e.size()) * e.arg(1))
    if d in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
        a = [divexact(x, k) for x in e.children()]
        r = a[0]
        for x in a[1:]: r = r + x if d == z3.Z3_OP_BADD else r - x
        return simp(r)
    if d == z3.Z3_OP_BSHL and isnum(e.arg(1)) and (1 << num(e.arg(1))) % k == 0:
        return simp(e.arg(0) * BV((1 << num(e.arg(1))) // k, e.size()))
    if d == z3.Z3_OP_ITE:
        return z3.If(e.arg(0), divexact(e.arg(1), k), divexact(e.arg(2), k))
    if d == z3.Z3_OP_CONCAT and e.num_args() == 2 and isnum(e.arg(1)) and num(e.arg(1)) == 0 and k & (k-1) == 0:
        lo = e.arg(1).size(); x = e.arg(0)
        if (1 << lo) % k == 0 and x.decl().kind() == z3.Z3_OP_EXTRACT:
            hi, l = x.decl().params()
            if l == 0:
                y = x.arg(0)
                if y.size() == e.size():
                    return simp(y * BV((1 << lo) // k, e.size()))
        if (1 << lo) % k == 0:
            return simp(z3.ZeroExt(e.size() - x.size(), x) * BV((1 << lo) // k, e.size()))
    raise Unsupported("divexact %s by %d" % (e, k))

# ------------------------------------------------------------------ content
class Content: pass
class Base(Content):
    def __init__(self, f, w): self.f, self.w = f, w
class Zero(Content):
    def __init__(self, w): self.w = w
class Const(Content):
    def __init__(self, vals, w, f): self.vals, self.w, self.f = vals, w, f
class St(Content):
    def __init__(self, prev, idx, val): self.prev, self.idx, self.val, self.w = prev, idx, val, prev.w
class Cp(Content):
    """prev with [d, d+n) replaced by src[s..s+n)"""
    def __init__(self, prev, d, n, src, s): self.prev, self.d, self.n, self.src, self.s, self.w = prev, d, n, src, s, prev.w
class Fl(Content):
    def __init__(self, prev, d, n, v): self.prev, self.d, self.n, self.v, self.w = prev, d, n, v, prev.w
class Cell(Content):
    def __init__(self, v): self.v = v

def read(c, i):
    while True:
        if isinstance(c, Base): return c.f(i)
        if isinstance(c, Zero): return BV(0, c.w)
        if isinstance(c, Const):
            if isnum(i):
                k = num(i)
                if k < len(c.vals): return BV(c.vals[k], c.w)
                return c.f(i)
            return c.f(i)
        if isinstance(c, St):
            d = simp(i - c.idx)
            if isnum(d):
                if num(d) == 0: return c.val
                c = c.prev; continue
            return z3.If(i == c.idx, c.val, read(c.prev, i))
        if isinstance(c, Cp):
            if isnum(c.n) and num(c.n) == 0: c = c.prev; continue
            k = sub(i, c.d)
            if isnum(k) and isnum(c.n):
                if num(k) < num(c.n):
                    i = add(c.s, k); c = c.src; continue
                c = c.prev; continue
            inr = simp(z3.ULT(k, c.n))
            if z3.is_true(inr): i = add(c.s, k); c = c.src; continue
            if z3.is_false(inr): c = c.prev; continue
            return z3.If(inr, read(c.src, add(c.s, k)), read(c.prev, i))
        if isinstance(c, Fl):
            k = sub(i, c.d)
            inr = simp(z3.ULT(k, c.n))
            if z3.is_true(inr): return c.v
            if z3.is_false(inr): c = c.prev; continue
            return z3.If(inr, c.v, read(c.prev, i))
        raise Unsupported("read " + type(c).__name__)

def write(c, i, v): return St(c, i, v)

# ------------------------------------------------------------------ facts
class Fact:
    """universally quantified hypothesis, instantiated at every ground application of decl"""
    def __init__(self, name, decl, fn, maxgen=99):
        self.name, self.decl, self.fn, self.maxgen = name, decl, fn, maxgen
        self.uid = next(_fresh); self.did = decl.get_id()

class Fact2:
    """hypothesis over two indices, instantiated at every pair of ground applications of decl and decl2"""
    def __init__(self, name, decl, decl2, fn, maxgen=99):
        self.name, self.decl, self.decl2, self.fn, self.maxgen = name, decl, decl2, fn, maxgen
        self.uid = next(_fresh); self.did, self.did2 = decl.get_id(), decl2.get_id()

class FA:
    """a quantified proposition over one index (goal: skolemised; hypothesis: instantiated at
    ground applications of the trigger functions whose argument position 0 is the index)"""
    def __init__(self, body, triggers, w=64, name="k", pos=None, maxgen=99):
        self.maxgen = maxgen
        self.body, self.triggers, self.w, self.name = body, triggers, w, name
        self.pos = pos or {}
    def goal(self):
        k = fbv(self.name, self.w); return self.body(k)
    def facts(self):
        out = []
        for t in self.triggers:
            p = self.pos.get(t.name(), 0)
            out.append(Fact(self.name, t, (lambda *a, p=p: self.body(a[p])), self.maxgen))
        return out

def base_decls(c, out=None):
    """UF decls occurring at the bottom of a content chain (triggers)"""
    out = [] if out is None else out
    while True:
        if isinstance(c, (Base, Const)):
            if c.f not in out: out.append(c.f)
            return out
        if isinstance(c, Zero) or isinstance(c, Cell): return out
        if isinstance(c, Cp): base_decls(c.src, out)
        c = c.prev

_APPS = {}
def apps_of(e):
    """ground applications of uninterpreted functions in e (memoised)"""
    k = e.get_id()
    r = _APPS.get(k)
    if r is not None: return r[1]
    seen = set(); out = []; st = [e]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        ch = x.children()
        if ch:
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED: out.append((d.get_id(), i, x))
            st += ch
    _APPS[k] = (e, out)
    return out
_INST = {}
def instance(f, app, ai):
    k = (f.uid, ai)
    r = _INST.get(k)
    if r is None:
        inst = f.fn(*app.children())
        if inst is None: inst = []
        if not isinstance(inst, (list, tuple)): inst = [inst]
        inst = [z3.BoolVal(x) if isinstance(x, bool) else simp(x) for x in inst]
        r = (app, inst)
        _INST[k] = r
    return r[1]

def instance2(f, app, ai, app2, ai2):
    k = (f.uid, ai, ai2)
    r = _INST.get(k)
    if r is None:
        inst = f.fn(tuple(app.children()), tuple(app2.children())) or []
        r = _INST[k] = ((app, app2), [simp(x) for x in inst])
    return r[1]

def ackermann(fs):
    """equisatisfiable formulas without function applications (congruence over simplified differences)"""
    fs = list(fs); extra = []; groups = {}
    for _ in range(12):
        seen = {}; apps = {}
        for f in fs + extra:
            st = [(f, False)]
            while st:
                x, d = st.pop(); i = x.get_id()
                if i in seen: continue
                ch = x.children()
                if not d:
                    st.append((x, True))
                    st += [(c, False) for c in ch if c.get_id() not in seen]
                else:
                    has = any(seen[c.get_id()] for c in ch)
                    isapp = bool(ch) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED
                    if isapp and not has: apps[i] = x
                    seen[i] = has or isapp
        if not apps: return fs + extra
        subs = []; new = []
        for x in apps.values():
            v = z3.Const('@%d' % next(_fresh), x.sort()); subs.append((x, v))
            g = groups.setdefault(x.decl().get_id(), []); args = x.children()
            for a2, v2 in g:
                conds = []; ok = True
                for a, b in zip(args, a2):
                    if z3.is_bv(a):
                        d = z3.simplify(a - b)
                        if z3.is_bv_value(d):
                            if d.as_long(): ok = False; break
                            continue
                        conds.append(d == 0)
                    else: conds.append(a == b)
                if ok: new.append(z3.Implies(z3.And(conds), v == v2) if conds else v == v2)
            g.append((args, v))
        fs = [z3.substitute(f, *subs) for f in fs]
        extra = [z3.substitute(f, *subs) for f in extra] + new
    raise Unsupported("ackermann depth")

TOKENS = None
def make_tokens(n):
    global TOKENS
    r, w = os.pipe(); os.set_blocking(r, False); os.write(w, b"t" * n); TOKENS = (r, w)
class Pool:
    """solver queries in forked children, at most `width` at a time"""
    def __init__(self, width=None):
        self.width = width or int(os.environ.get("VC_JOBS", "8"))
        self.live = {}          # fd -> (pid, callback, start)
        self.spent = 0.0
    def submit(self, fn, cb, limit=1e9):
        while len(self.live) >= self.width: self.poll(True)
        # solver slots shared by all functions verified at the same time; one child each is always allowed
        tok = TOKENS is None
        while not tok and self.live:
            try: os.read(TOKENS[0], 1); tok = True
            except BlockingIOError: self.poll(True, 0.1)
        held = tok and TOKENS is not None
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try: res = fn()
                except BaseException as ex: res = 'unknown'
                os.write(w, res.encode())
            finally:
                os._exit(0)
        os.close(w)
        self.live[r] = (pid, cb, time.time(), limit, held)
    def poll(self, block, wait=None):
        if not self.live: return
        while True:
            rd, _, _ = select.select(list(self.live), [], [], (wait or 1.0) if block else 0)
            for fd, (pid, cb, t0, lim, held) in self.live.items():
                if fd not in rd and time.time() - t0 > lim: os.kill(pid, 9)     # the pipe closes: 'unknown'
            if rd or not block or wait: break
        for fd in rd:
            pid, cb, t0, lim, held = self.live.pop(fd)
            if held: os.write(TOKENS[1], b"t")
            s = b""
            while True:
                b = os.read(fd, 65536)
                if not b: break
                s += b
            s = s.decode(); os.close(fd)
            os.waitpid(pid, 0)
            dt = time.time() - t0; self.spent += dt
            cb(s or 'unknown', dt)
    def wait(self):
        while self.live: self.poll(True)
    def kill(self):
        for fd, (pid, cb, t0, lim, held) in self.live.items():
            if held: os.write(TOKENS[1], b"t")
            try: os.kill(pid, 9); os.waitpid(pid, 0)
            except OSError: pass
            os.close(fd)
        self.live = {}

class Prover:
    def __init__(self, timeout=20000, log=None):
        self.timeout = timeout
        self.stats = dict(queries=0, time=0.0, inst=0, z3=0, cvc5=0)
        self.max_inst = 6000
    def instantiate(self, hyps, goals, facts, rounds):
        """ground instances of the facts; returns list of formulas"""
        by = {}; by2 = {}; known = {}
        for f in facts:
            if isinstance(f, Fact2):
                by2.setdefault(f.did, []).append((f, 0)); by2.setdefault(f.did2, []).append((f, 1))
            else: by.setdefault(f.did, []).append(f)
        for d in by2: by.setdefault(d, []); known[d] = []
        gen = {}; seen = set(); pend = []
        def add(x, g):
            for did, ai, app in apps_of(x):
                if ai in gen: continue
                gen[ai] = g
                if did in by: pend.append((did, ai, app))
        for h in hyps: add(h, 0)
        for g in goals: add(g, 0)
        done = set(); out = []
        for r in range(rounds):
            work = pend; pend = []
            # "add" appends to the new list
            nxt = []
            if not work: break
            todo = []
            for did, ai, app in work:
                g = gen[ai]
                for f in by[did]:
                    if g > f.maxgen: continue
                    for x in instance(f, app, ai):
                        k = x.get_id()
                        if k in seen: continue
                        seen.add(k); out.append(x); todo.append((x, g + 1))
                if did in by2:
                    known[did].append((ai, app))
                    for f, side in by2[did]:
                        for aj, other in list(known[f.did if side else f.did2]):
                            g2 = max(g, gen[aj])
                            if g2 > f.maxgen: continue
                            for x in (instance2(f, other, aj, app, ai) if side else instance2(f, app, ai, other, aj)):
                                k = x.get_id()
                                if k in seen: continue
                                seen.add(k); out.append(x); todo.append((x, g2 + 1))
            for x, g in todo:
                for did, ai, app in apps_of(x):
                    if ai in gen: continue
                    gen[ai] = g
                    if did in by: pend.append((did, ai, app))
            if len(out) > self.max_inst: break
        self.stats['inst'] += len(out)
        return out
    def check(self, fs, timeout=None, model=False):
        t = time.time()
        self.stats['queries'] += 1
        s = z3.SolverFor("QF_UFBV") if not os.environ.get("VC_PLAIN") else z3.Solver()
        s.set("timeout", int(timeout or self.timeout))
        for f in fs: s.add(f)
        r = s.check()
        dt = time.time() - t
        self.stats['time'] += dt
        if dt > 1 and os.environ.get("VC_SLOW"):
            print("slow %.1f %s n=%d" % (dt, r, len(fs)), file=sys.stderr)
            open("/tmp/x/slow%d.smt2" % self.stats['queries'], "w").write(s.to_smt2())
        if r == z3.sat: return 'sat', s.model() if model else None
        if r == z3.unsat: return 'unsat', None
        return 'unknown', None
    def light(self, hyps, ng, facts):
        """a first attempt with the facts at the goal's own terms only"""
        inst = self.instantiate([], [ng], facts, 2)
        return self.check(list(hyps) + [ng] + inst, 150)[0] == 'unsat'
    def hard(self, fs, limit=40000):
        """the query in a child process: two encodings in turn"""
        def fn():
            # printed and read back: term order no longer depends on the history of this process
            t = z3.Solver(); t.add(fs); ctx = z3.Context(); g = z3.parse_smt2_string(t.to_smt2(), ctx=ctx)
            s = z3.SolverFor("QF_UFBV", ctx=ctx); s.set("timeout", min(9000, limit // 3)); s.add(g)
            r = s.check()
            if r == z3.unknown:
                s = z3.SimpleSolver(); s.set("timeout", limit // 2)
                for f in ackermann(fs): s.add(f)
                r = s.check()
            if r == z3.unknown:
                s = z3.SolverFor("QF_UFBV"); s.set("timeout", limit // 2)
                for f in fs: s.add(f)
                r = s.check()
            return str(r)
        return fn
    def prove(self, hyps, goal, facts=(), rounds=4, timeout=None, model=True):
        """returns ('proved'|'failed'|'unknown', model)"""
        if isinstance(goal, FA): goal = goal.goal()
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        goal = simp(goal) if not z3.is_quantifier(goal) else goal
        if z3.is_true(goal): return 'proved', None
        ng = z3.Not(goal)
        inst = self.instantiate(hyps, [ng], facts, rounds)
        r, m = self.check(list(hyps) + [ng] + inst, timeout, model)
        return {'unsat': 'proved', 'sat': 'failed', 'unknown': 'unknown'}[r], m

# ------------------------------------------------------------------ state
class State:
    __slots__ = ('env', 'mem', 'dead', 'pc', 'facts', 'path', 'ghost')
    def __init__(self):
        self.env, self.mem, self.dead, self.pc, self.facts, self.path = {}, {}, frozenset(), [], [], ()
        self.ghost = {}
    def copy(self):
        s = State()
        s.env, s.mem, s.dead = dict(self.env), dict(self.mem), self.dead
        s.pc, s.facts, s.path = list(self.pc), list(self.facts), self.path
        s.ghost = dict(self.ghost)
        return s
    def assume(self, f):
        if isinstance(f, FA): self.facts += f.facts(); return
        if isinstance(f, (Fact, Fact2)): self.facts.append(f); return
        if isinstance(f, (list, tuple)):
            for x in f: self.assume(x)
            return
        if isinstance(f, bool): f = z3.BoolVal(f)
        f = simp(f)
        if z3.is_true(f): return
        self.pc.append(f)

class Obl:
    def __init__(self, name, status, t, backend, detail=None, model=None, line=0):
        self.name, self.status, self.t, self.backend, self.detail, self.model, self.line = name, status, t, backend, detail, model, line

class LoopCtx:
    def __init__(self, header, body, on_back, mod):
        self.header, self.body, self.on_back, self.mod = header, body, on_back, mod

class Cand:
    """candidate invariant: make(view) -> formula or FA; label is stable"""
    def __init__(self, label, make):
        self.label, self.make = label, make

class View:
    """program state at a loop header, as the templates see it"""
    def __init__(self, eng, st, hdr, phis, mod):
        self.eng, self.st, self.hdr, self.phis, self.mod = eng, st, hdr, phis, mod
    def val(self, name): return self.st.env[name]

class Verifier:
    """verifies one function against its contract"""
    def __init__(self, mod, fname, contract, world, emit=True):
        self.m, self.f, self.c, self.w = mod, mod.funcs[fname], contract, world
        self.loops = Loops(self.f)
        if self.loops.irreducible: raise Unsupported("irreducible loop in " + fname)
        self.prover = Prover()
        self.obls = []
        self.rounds = getattr(contract, 'rounds', 4)
        self.mode_emit = True
        self.loopcache = {}
        self.modcache = {}
        self.feas_cache = {}
        self.deadline = time.time() + getattr(contract, 'budget', 600)
        self.nloops = 0
        self.inv_kept = {}
        self.returns = 0
        self.phase = 'final'
        self.consts = {}
        self.rnames, self.sibling = {}, {}
        self.gfacts = []
        self.pool = Pool()

    # ---------- obligations
    def oblige(self, st, kind, goal, line=0, detail=None, assume=True):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if not isinstance(goal, FA):
            goal = simp(goal)
        if self.phase == 'final':
            name = "%s/%s%s" % (self.c.name, kind, (":L%d" % line) if line else "")
            if not isinstance(goal, FA) and z3.is_true(goal):
                self.obls.append(Obl(name, 'proved', 0, 'simplifier', detail))
            else:
                g = goal.goal() if isinstance(goal, FA) else goal
                ng = z3.Not(simp(g)); t = time.time()
                if self.prover.light(st.pc, ng, st.facts + self.gfacts):
                    self.obls.append(Obl(name, 'proved', time.time() - t, 'z3', detail, None, line)); return self.after(st, goal, assume)
                fs = list(st.pc) + [ng] + self.prover.instantiate(st.pc, [ng], st.facts + self.gfacts, self.rounds)
                t = time.time()
                r, m = self.prover.check(fs, 60, True)
                o = Obl(name, {'unsat': 'proved', 'sat': 'failed'}.get(r, 'unknown'), time.time() - t, 'z3', detail, m, line)
                self.obls.append(o); o.path = st.path
                if r == 'sat':
                    self.nfail = getattr(self, 'nfail', 0) + 1
                    if self.nfail >= 40: raise Budget("%d obligations of %s failed; the rest was not tried" % (self.nfail, self.c.name))
                if r == 'unknown':
                    def cb(res, dt, o=o):
                        o.status, o.t = {'unsat': 'proved', 'sat': 'failed'}.get(res, 'unknown'), dt
                        if o.status != 'proved' and os.environ.get("VC_DEBUG"): print("FAILED", o.name, o.status, o.path[-8:], file=sys.stderr)
                    self.pool.submit(self.prover.hard(fs), cb)
                elif r == 'sat' and os.environ.get("VC_DEBUG"):
                    print("FAILED", name, r, "path", st.path[-12:], file=sys.stderr)
                    if os.environ.get("VC_DEBUG") == "2":
                        for p in st.pc: print("   pc", p, file=sys.stderr)
                        print("   goal", simp(g), file=sys.stderr)
                        if m is not None: print("   model", m, file=sys.stderr)
                    if os.environ.get("VC_DEBUG") == "3": raise SystemExit(1)
        self.after(st, goal, assume)
    def lemma(self, name, goal):
        """a fact about the specification alone, proved before it is used"""
        s = z3.Solver(); s.set("timeout", 20000); s.add(z3.Not(goal)); t = time.time(); r = s.check()
        if not any(o.name == self.c.name + "/lemma/" + name for o in self.obls):
            self.obls.append(Obl(self.c.name + "/lemma/" + name, {'unsat': 'proved', 'sat': 'failed'}.get(str(r), 'unknown'), time.time() - t, 'z3'))
    def after(self, st, goal, assume):
        if time.time() > self.deadline: raise Budget("time budget of %s" % self.c.name)
        if assume:
            if isinstance(goal, FA): st.facts += goal.facts()
            else: st.assume(goal)
    def hint(self, st, goal, timeout=2500):
        """an intermediate fact: used only if it is proved here"""
        goal = simp(goal)
        if z3.is_true(goal): return True
        r, _ = self.prover.prove(st.pc, goal, st.facts + self.gfacts, self.rounds, timeout, False)
        if r == 'proved': st.assume(goal)
        return r == 'proved'
    def second(self, st, goal):
        return 'unknown', 'z3'

    def feasible(self, st, timeout=80):
        s = z3.Solver(); s.set("timeout", timeout)
        # cone of influence by constants is not needed: conditions are small
        for p in st.pc: s.add(p)
        self.prover.stats['queries'] += 1
        t = time.time(); r = s.check(); self.prover.stats['time'] += time.time() - t
        return r != z3.unsat

    # ---------- memory
    def new_region(self, st, name, esz, n, kind='data', content=None, writable=True):
        r = Region(name, esz, n, kind, writable)
        if content is None:
            content = Base(ffun(name, B64, z3.BitVecSort(8 * esz)), 8 * esz)
        st.mem[r.id] = content
        return r

    def alloc_type(self, st, name, ty):
        """region or object for a local of IR type ty; returns pointer"""
        t = self.m.resolve(ty)
        if t[0] == 'struct':
            o = Obj(name); 
            def addf(t, off):
                t = self.m.resolve(t)
                if t[0] == 'struct':
                    for ft, fo in zip(t[1], self.m.field_offsets(t)): addf(ft, off + fo)
                else:
                    p = self.alloc_type(st, "%s+%d" % (name, off), t)
                    p.r.obj, p.r.boff = o, off
                    o.fields.append((off, self.m.size(t), p.r))
            addf(t, 0)
            if not o.fields:
                r = Region(name, 1, c64(self.m.size(t)), 'cell'); st.mem[r.id] = Cell(UNDEF)
                return Ptr(r, c64(0))
            return Ptr(o.fields[0][2], c64(0))
        if t[0] == 'arr':
            et = self.m.resolve(t[2]); n = t[1]
            while et[0] == 'arr': n *= et[1]; et = self.m.resolve(et[2])
            if et[0] == 'struct': raise Unsupported("array of struct local")
            if et[0] == 'ptr': raise Unsupported("array of pointers")
            es = self.m.size(et)
            return Ptr(self.new_region(st, name, es, c64(n)), c64(0))
        r = Region(name, self.m.size(t), c64(1), 'cell')
        st.mem[r.id] = Cell(UNDEF)
        return Ptr(r, c64(0))

    def gep_bytes(self, p, terms, line=0):
        """p + sum(coef * value) bytes; terms: list of (coef:int, value BV64)"""
        if isinstance(p, (NullP,)): 
            tot = 0
            for c, v in terms:
                v = simp(v)
                if not isnum(v): raise Unsupported("gep on null")
                tot += c * num(v)
            if tot == 0: return NULL
            raise Unsupported("gep on null")
        if isinstance(p, MaybePtr):
            q = self.gep_bytes(p.p, terms, line)
            return MaybePtr(p.isnull, q)
        r = p.r
        const = p.sub
        off = p.off
        dyn = []
        for c, v in terms:
            v = simp(v)
            if isnum(v):
                n = num(v); n -= (1 << 64) if n >= 1 << 63 else 0
                const += c * n
            else: dyn.append((c, v))
        # constant move inside an object
        if r.obj is not None and isnum(off):
            cur = num(off); cur -= (1 << 64) if cur >= 1 << 63 else 0
            absb = r.boff + cur * r.esz + const
            # choose the field containing absb (prefer current region when still inside)
            lo, hi = r.boff, r.boff + num(r.n) * r.esz
            if not (lo <= absb < hi) and not (absb == hi and dyn):
                for fo, fs, fr in r.obj.fields:
                    if fo <= absb < fo + fs:
                        r = fr; break
                else:
                    pass
                if r is not p.r:
                    const = absb - r.boff
                    off = c64(const // r.esz); const = const % r.esz
        q, rem = divmod(const, r.esz)
        off = add(off, c64(q & ((1 << 64) - 1)))
        for c, v in dyn:
            if c % r.esz == 0:
                off = add(off, simp(v * c64((c // r.esz) & ((1 << 64) - 1))))
            else:
                off = add(off, divexact(v * c64(c), r.esz))
        return Ptr(r, off, rem)

    def check_access(self, st, p, nelem, what, line, wr=False):
        if isinstance(p, NullP):
            self.oblige(st, "no-null-deref/" + what, False, line); return False
        r = p.r
        n = c64(nelem) if isinstance(nelem, int) else nelem
        if r.id in st.dead:
            self.oblige(st, "no-stale-pointer/" + what, False, line)
        if wr and not r.writable:
            self.oblige(st, "frame/write-to-readonly/" + what + "/" + r.name, False, line)
        if r.n is not None:
            self.oblige(st, "bounds/%s/%s" % (what, r.name), z3.And(z3.ULE(n, r.n), z3.ULE(p.off, r.n - n)), line)
        return True

    def load(self, st, p, ty, line):
        t = self.m.resolve(ty)
        if isinstance(p, MaybePtr):
            self.oblige(st, "no-null-deref/load", z3.Not(p.isnull), line); p = p.p
        if isinstance(p, NullP):
            self.oblige(st, "no-null-deref/load", False, line)
            return self.havoc_val("nullload", t)
        if not isinstance(p, Ptr): raise Unsupported("load via %r" % (p,))
        r = p.r; sz = self.m.size(t)
        if r.kind == 'cell':
            if p.sub or not isnum(p.off) or num(p.off) != 0:
                if isnum(p.off) and num(p.off) == 0 and p.sub + sz <= r.esz:
                    v = st.mem[r.id].v
                    if isinstance(v, z3.BitVecRef):
                        return simp(z3.Extract(8 * (p.sub + sz) - 1, 8 * p.sub, v))
                self.oblige(st, "bounds/load/" + r.name, z3.And(p.off == 0, p.sub == 0), line)
                return self.havoc_val("oob", t)
            if r.id in st.dead: self.oblige(st, "no-stale-pointer/load", False, line)
            v = st.mem[r.id].v
            if isinstance(v, Undef):
                return self.havoc_val("undef", t)
            if t[0] == 'i' and isinstance(v, z3.BitVecRef):
                w = v.size()
                if t[1] == 1: return simp(z3.Extract(0, 0, v) == 1)
                if w == t[1]: return v
                if w > t[1]: return simp(z3.Extract(t[1] - 1, 0, v))
                # a wider load than the cell (e.g. struct copy): not supported
                raise Unsupported("wide load from cell")
            if t[0] == 'i' and t[1] == 64 and isinstance(v, (Ptr, NullP, MaybePtr)): return PInt(v)
            if t[0] == 'i' and isinstance(v, PInt): return v
            if t[0] == 'ptr' and isinstance(v, PInt): return v.p
            return v
        if t[0] not in ('i',): raise Unsupported("load %r from data region %s" % (t, r.name))
        es = r.esz
        if sz >= es and sz % es == 0 and p.sub == 0:
            k = sz // es
            if not self.check_access(st, p, k, "load", line): return self.havoc_val("oob", t)
            parts = [read(st.mem[r.id], add(p.off, c64(j))) for j in range(k)]
            v = parts[0] if k == 1 else z3.Concat(*parts[::-1])
        elif sz < es and p.sub + sz <= es:
            if not self.check_access(st, p, 1, "load", line): return self.havoc_val("oob", t)
            v = read(st.mem[r.id], p.off)
            v = z3.Extract(8 * (p.sub + sz) - 1, 8 * p.sub, v)
        else:
            raise Unsupported("misaligned load of %d from %s" % (sz, r.name))
        v = simp(v)
        self.watch_read(st, r, p.off)
        if t[1] == 1: return simp(z3.Extract(0, 0, v) == 1)
        if v.size() > t[1]: v = z3.Extract(t[1] - 1, 0, v)
        return v

    def watch_read(self, st, r, off): pass

    def as_mem(self, v, sz):
        if z3.is_bool(v): return z3.If(v, BV(1, 8 * sz), BV(0, 8 * sz))
        if isinstance(v, z3.BitVecRef) and v.size() < 8 * sz: return z3.ZeroExt(8 * sz - v.size(), v)
        return v

    def note_write(self, st, r):
        self.written.add(r.id)

    def store(self, st, p, v, ty, line):
        t = self.m.resolve(ty)
        if isinstance(p, MaybePtr):
            self.oblige(st, "no-null-deref/store", z3.Not(p.isnull), line); p = p.p
        if isinstance(p, NullP):
            self.oblige(st, "no-null-deref/store", False, line); return
        r = p.r; sz = self.m.size(t)
        if isinstance(v, Undef) and t[0] == 'i': v = fbv("undef", 8 * sz)
        if r.kind == 'cell':
            if r.id in st.dead: self.oblige(st, "no-stale-pointer/store", False, line)
            if r.guard is not None: r.guard(self, st, line)
            if not r.writable: self.oblige(st, "frame/write-to-readonly/store/" + r.name, False, line)
            if p.sub or not isnum(p.off) or num(p.off) != 0 or sz > r.esz:
                raise Unsupported("odd store to cell")
            v = self.as_mem(v, sz)
            if isinstance(v, z3.BitVecRef) and v.size() < 8 * r.esz:
                old = st.mem[r.id].v
                if not isinstance(old, z3.BitVecRef): old = fbv("old", 8 * r.esz)
                v = simp(z3.Concat(z3.Extract(8 * r.esz - 1, v.size(), old), v))
            st.mem[r.id] = Cell(v); self.note_write(st, r); return
        if t[0] != 'i': raise Unsupported("store %r to data region" % (t,))
        v = self.as_mem(v, sz); es = r.esz
        if sz >= es and sz % es == 0 and p.sub == 0:
            k = sz // es
            if not self.check_access(st, p, k, "store", line, True): return
            c = st.mem[r.id]
            for j in range(k):
                c = write(c, add(p.off, c64(j)), simp(z3.Extract(8 * es * (j + 1) - 1, 8 * es * j, v)) if k > 1 else v)
            st.mem[r.id] = c
        elif sz < es and p.sub + sz <= es:
            if not self.check_access(st, p, 1, "store", line, True): return
            old = read(st.mem[r.id], p.off); parts = []
            if p.sub + sz < es: parts.append(z3.Extract(8 * es - 1, 8 * (p.sub + sz), old))
            parts.append(v)
            if p.sub: parts.append(z3.Extract(8 * p.sub - 1, 0, old))
            st.mem[r.id] = write(st.mem[r.id], p.off, simp(z3.Concat(*parts)))
        else:
            raise Unsupported("misaligned store")
        self.note_write(st, r)

    def havoc_val(self, name, t):
        t = self.m.resolve(t)
        if t[0] == 'i':
            return fbool(name) if t[1] == 1 else fbv(name, t[1])
        if t[0] == 'struct': return [self.havoc_val(name, x) for x in t[1]]
        if t[0] == 'ptr': return UNDEF
        raise Unsupported("havoc %r" % (t,))

    # ---------- operands
    def const_region(self, st, name):
        if name in self.consts:
            r = self.consts[name]
            if r.id not in st.mem: st.mem[r.id] = self.w.const_content[r.id]
            return r
        g = self.m.global_info(name)
        t = self.m.resolve(g.ty)
        hook = self.w.global_region(self, st, name, g)
        if hook is not None: return hook
        if not g.const: raise Unsupported("mutable global " + name)
        # constant data: array of ints (or array of array)
        vals = []; esz = None
        def flat(ty, v):
            nonlocal esz
            ty = self.m.resolve(ty)
            if ty[0] == 'i':
                esz = self.m.size(ty); vals.append(v[1] & ((1 << 8 * esz) - 1) if v[0] == 'int' else 0)
            elif ty[0] == 'arr':
                if v[0] == 'bytes':
                    esz = 1; vals.extend(v[1])
                elif v[0] == 'zero' or v[0] == 'undef':
                    for _ in range(ty[1]): flat(ty[2], ('zero',))
                elif v[0] == 'agg':
                    for (t2, x) in v[1]: flat(t2, x)
                else: raise Unsupported("const init")
            elif ty[0] == 'struct':
                if v[0] in ('zero', 'undef'):
                    for f in ty[1]: flat(f, ('zero',))
                else:
                    for (t2, x) in v[1]: flat(t2, x)
            else: raise Unsupported("const type %r" % (ty,))
        flat(t, g.init)
        f = z3.Function("const." + name, B64, z3.BitVecSort(8 * esz))
        r = Region(name, esz, c64(len(vals)), 'data', False, values=vals)
        self.consts[name] = r
        content = Const(vals, 8 * esz, f)
        self.w.const_content[r.id] = content
        self.w.const_facts(self, name, vals, f, esz)
        st.mem[r.id] = content
        return r

    def val(self, st, ty, v):
        k = v[0]
        if k == 'reg':
            x = st.env[v[1]]
            if isinstance(x, MaybePtr): x = st.env[v[1]] = self.settle(st, x)
            return x
        t = self.m.resolve(ty)
        if k == 'int':
            if t[1] == 1: return z3.BoolVal(bool(v[1]))
            return BV(v[1], t[1])
        if k == 'null': return NULL
        if k == 'zero':
            if t[0] == 'struct': return [self.val(st, x, ('zero',)) for x in t[1]]
            if t[0] == 'i': return BV(0, t[1])
            return NULL
        if k == 'undef':
            if t[0] == 'struct': return [self.val(st, x, v) for x in t[1]]
            return self.havoc_val("undef", t)
        if k == 'glob':
            if v[1] in self.m.funcs or v[1] in self.m.decls: return FnP(v[1])
            r = self.const_region(st, v[1])
            return r if isinstance(r, Ptr) else Ptr(r, c64(0))
        if k == 'agg':
            return [self.val(st, t2, x) for (t2, x) in v[1]]
        if k == 'cgep':
            base = self.val(st, ('ptr',), v[2])
            return self.do_gep(st, v[1], base, [(it, self.val(st, it, x)) for it, x in v[3]], 0)
        raise Unsupported("operand %r" % (v,))

    def settle(self, st, x):
        """a maybe-null pointer whose nullness the path condition already decides"""
        for neg, r in ((x.isnull, x.p), (z3.Not(x.isnull), NULL)):
            s = z3.Solver(); s.set("timeout", 300)
            for p in st.pc: s.add(p)
            s.add(neg)
            if s.check() == z3.unsat: return r
        return x
    def do_gep(self, st, sty, base, idx, line):
        terms = []
        t = sty
        for n, (it, iv) in enumerate(idx):
            if isinstance(iv, Undef): raise Unsupported("undef gep index")
            if isinstance(iv, z3.BitVecRef) and iv.size() < 64: iv = z3.SignExt(64 - iv.size(), iv)
            if n == 0:
                terms.append((self.m.size(t), iv))
            else:
                t = self.m.resolve(t)
                if t[0] == 'struct':
                    j = num(simp(iv)); terms.append((self.m.field_offsets(t)[j], c64(1))); t = t[1][j]
                else:
                    t = t[2]; terms.append((self.m.size(t), iv))
        return self.gep_bytes(base, terms, line)

    # ---------- pointer compare
    def ptr_cmp(self, st, pr, a, b):
        if isinstance(a, PInt): a = a.p
        if isinstance(b, PInt): b = b.p
        if isinstance(a, (Ptr,)) and isinstance(b, Ptr) and a.r is b.r:
            x, y = a.off, b.off
            if a.sub or b.sub:
                x = x * c64(a.r.esz) + c64(a.sub); y = y * c64(a.r.esz) + c64(b.sub)
            return {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                    'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y)}[pr]()
        def nullness(p):
            if isinstance(p, NullP): return z3.BoolVal(True)
            if isinstance(p, MaybePtr): return p.isnull
            if isinstance(p, (Ptr, FnP)): return z3.BoolVal(False)
            raise Unsupported("compare %r" % (p,))
        if isinstance(b, NullP) or isinstance(a, NullP):
            o = a if isinstance(b, NullP) else b
            n = nullness(o)
            if pr == 'eq': return n
            if pr == 'ne': return z3.Not(n)
        if isinstance(a, MaybePtr) and isinstance(b, Ptr) and a.p.r is b.r:
            e = z3.And(z3.Not(a.isnull), a.p.off == b.off)
            if pr == 'eq': return e
            if pr == 'ne': return z3.Not(e)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and pr in ('eq', 'ne'):
            # different regions: unknown (one-past-the-end may coincide)
            if a.r.kind == 'cell' or b.r.kind == 'cell' or a.r.obj or b.r.obj:
                return z3.BoolVal(pr == 'ne')
            return fbool("ptrcmp")
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return fbool("ptrcmp")
        raise Unsupported("pointer compare %r %r" % (a, b))

    # ---------- main interpreter
    def verify(self):
        st = State()
        self.written = set()
        self.c.setup(self, st)
        entry = self.f.order[0]
        # vacuity guard: the precondition is satisfiable
        inst = self.prover.instantiate(st.pc, [], st.facts + self.gfacts, 2)
        r, _ = self.prover.check(st.pc + inst, 20000)
        self.obls.append(Obl(self.c.name + "/vacuity/precondition-satisfiable", 'proved' if r == 'sat' else 'failed', 0, 'z3', "sat check"))
        try:
            self.forks = Pool(8); self.child_err = None
            self.jump(entry, None, st, [])
            self.pool.wait(); self.forks.wait()
            if self.child_err: raise self.child_err
        finally:
            self.pool.kill(); self.forks.kill()
        if self.returns == 0:
            self.obls.append(Obl(self.c.name + "/vacuity/return-reached", 'failed', 0, 'engine'))
        return self.obls

    def in_child(self, go):
        """the rest of this path in a forked child; its obligations come back"""
        def job():
            self.forks = None; self.pool = Pool(4); n0, r0, l0 = len(self.obls), self.returns, self.nloops; s0 = dict(self.prover.stats); err = None
            try: go(); self.pool.wait()
            except (Unsupported, Budget) as ex: err = [type(ex).__name__, str(ex)]
            finally: self.pool.kill()
            ob = [[o.name, o.status, o.t, o.backend, o.detail if isinstance(o.detail, str) else None, o.line] for o in self.obls[n0:]]
            return json.dumps(dict(obls=ob, returns=self.returns - r0, loops=self.nloops - l0, stats={k: v - s0.get(k, 0) for k, v in self.prover.stats.items()}, inv=self.inv_kept, err=err))
        def done(res, dt):
            if res == 'unknown': self.child_err = Unsupported("part of %s did not finish" % self.c.name); return
            d = json.loads(res); self.returns += d['returns']; self.nloops += d['loops']; self.inv_kept.update(d['inv'])
            for k, v in d['stats'].items(): self.prover.stats[k] = self.prover.stats.get(k, 0) + v
            self.obls += [Obl(a, b, c, e, f, None, l) for a, b, c, e, f, l in d['obls']]
            if d['err']: self.child_err = (Budget if d['err'][0] == 'Budget' else Unsupported)(d['err'][1])
        self.forks.submit(job, done)
    def on_return(self, st, v, line):
        if self.phase != 'final': return
        self.returns += 1
        self.c.post(self, st, v, line)

    def jump(self, b, pred, st, ctxs):
        if time.time() > self.deadline: raise Budget("time budget of %s" % self.c.name)
        while ctxs and b not in ctxs[-1].body: ctxs = ctxs[:-1]
        if ctxs and isinstance(ctxs[-1], _Cut): return
        blk = self.f.blocks[b]
        if ctxs and b == ctxs[-1].header:
            ctxs[-1].on_back(st, pred); return
        if b in self.loops.body:
            self.do_loop(b, pred, st, ctxs); return
        vals = [(ph.res, self.phi_val(st, ph, pred)) for ph in blk.phis]
        for n, v in vals: st.env[n] = v
        st.path = st.path + (b,)
        self.run(blk, 0, st, ctxs)

    def phi_val(self, st, ph, pred):
        for v, b in ph.a[0]:
            if b == pred: return self.val(st, ph.ty, v)
        raise Unsupported("phi pred")

    def branch(self, st, cond):
        """returns list of (bool, state)"""
        c = simp(cond)
        if z3.is_true(c): return [(True, st)]
        if z3.is_false(c): return [(False, st)]
        out = []
        s1 = st.copy(); s1.assume(c)
        s2 = st; s2.assume(simp(z3.Not(c)))
        f1 = self.feasible(s1)
        if not f1: return [(False, s2)]
        f2 = self.feasible(s2)
        if not f2: return [(True, s1)]
        return [(True, s1), (False, s2)]

    def run(self, blk, i, st, ctxs):
        insts = blk.insts
        while i < len(insts):
            I = insts[i]; op = I.op
            if op == 'br':
                if len(I.a) == 1:
                    self.jump(I.a[0], blk.name, st, ctxs); return
                c = self.val(st, ('i', 1), I.a[0])
                if isinstance(c, Undef): c = fbool("undef")
                for t, s in self.branch(st, c):
                    self.jump(I.a[1] if t else I.a[2], blk.name, s, ctxs)
                return
            if op == 'switch':
                v = self.val(st, I.ty, I.a[0])
                # group cases by target
                tg = {}
                for cv, lab in I.a[2]: tg.setdefault(lab, []).append(cv)
                w = v.size() if isinstance(v, z3.BitVecRef) else None
                rest = []
                for lab, cvs in tg.items():
                    cond = z3.Or([v == BV(x, w) for x in cvs])
                    rest += cvs
                    if lab == I.a[1]: continue
                    s = st.copy(); s.assume(simp(cond))
                    if z3.is_false(simp(cond)): continue
                    if self.feasible(s): self.jump(lab, blk.name, s, ctxs)
                others = [x for lab, cvs in tg.items() if lab != I.a[1] for x in cvs]
                st.assume(simp(z3.And([v != BV(x, w) for x in others])))
                if self.feasible(st): self.jump(I.a[1], blk.name, st, ctxs)
                return
            if op == 'ret':
                v = self.val(st, I.ty, I.a[0]) if I.a[0] is not None else None
                self.on_return(st, v, I.line); return
            if op == 'unreachable':
                return
            if op == 'select':
                c = self.val(st, ('i', 1), I.a[0])
                a = self.val(st, I.ty, I.a[1]); b = self.val(st, I.ty, I.a[2])
                if getattr(self.c, 'decide_select', False) and not (z3.is_true(c) or z3.is_false(c)):
                    if self.prover.check(list(st.pc) + [c], 80)[0] == 'unsat': c = z3.BoolVal(False)
                    elif self.prover.check(list(st.pc) + [z3.Not(c)], 80)[0] == 'unsat': c = z3.BoolVal(True)
                if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
                    st.env[I.res] = simp(z3.If(c, a, b)); i += 1; continue
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and a.sub == b.sub:
                    st.env[I.res] = Ptr(a.r, simp(z3.If(c, a.off, b.off)), a.sub); i += 1; continue
                for t, s in self.branch(st, c):
                    s.env[I.res] = a if t else b
                    self.run(blk, i + 1, s, ctxs)
                return
            if op == 'call':
                r = self.do_call(st, I)
                if r is None: i += 1; continue
                # list of (state, value)
                for s, v in r:
                    if I.res is not None: s.env[I.res] = v
                    self.run(blk, i + 1, s, ctxs)
                return
            self.step(st, I)
            i += 1
        raise Unsupported("fell off block")

    def step(self, st, I):
        op = I.op
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'):
            a = self.val(st, I.ty, I.a[0]); b = self.val(st, I.ty, I.a[1])
            st.env[I.res] = self.binop(st, op, a, b, I); return
        if op == 'icmp':
            pr, x, y = I.a
            a = self.val(st, I.ty, x); b = self.val(st, I.ty, y)
            if self.m.resolve(I.ty)[0] == 'ptr' or isinstance(a, PInt) or isinstance(b, PInt):
                st.env[I.res] = simp(self.ptr_cmp(st, pr, a, b)); return
            if z3.is_bool(a):
                e = (a == b) if pr == 'eq' else z3.Xor(a, b) if pr == 'ne' else None
                if e is None: raise Unsupported("icmp i1 " + pr)
                st.env[I.res] = simp(e); return
            f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
                 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
                 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pr]
            st.env[I.res] = simp(f()); return
        if op in ('zext', 'sext', 'trunc'):
            t, v = I.a; a = self.val(st, t, v); w = self.m.resolve(I.ty)[1]
            if z3.is_bool(a):
                if op == 'zext': r = z3.If(a, BV(1, w), BV(0, w))
                elif op == 'sext': r = z3.If(a, BV(-1, w), BV(0, w))
                st.env[I.res] = simp(r); return
            if op == 'zext': r = z3.ZeroExt(w - a.size(), a)
            elif op == 'sext': r = z3.SignExt(w - a.size(), a)
            elif w == 1: r = z3.Extract(0, 0, a) == 1
            else: r = z3.Extract(w - 1, 0, a)
            st.env[I.res] = simp(r); return
        if op == 'ptrtoint':
            st.env[I.res] = PInt(self.val(st, I.a[0], I.a[1])); return
        if op == 'inttoptr':
            v = self.val(st, I.a[0], I.a[1])
            if isinstance(v, PInt): st.env[I.res] = v.p; return
            raise Unsupported("inttoptr")
        if op == 'freeze':
            st.env[I.res] = self.val(st, I.ty, I.a[0]); return
        if op == 'load':
            p = self.val(st, ('ptr',), I.a[0])
            if I.a[1] is not None:
                st.env[I.res] = self.w.atomic_load(self, st, p, I); return
            st.env[I.res] = self.load(st, p, I.ty, I.line); return
        if op == 'store':
            v = self.val(st, I.ty, I.a[0]); p = self.val(st, ('ptr',), I.a[1])
            if I.a[2] is not None:
                self.w.atomic_store(self, st, p, v, I); return
            self.store(st, p, v, I.ty, I.line); return
        if op == 'alloca':
            st.env[I.res] = self.alloc_type(st, I.res, I.ty); return
        if op == 'getelementptr':
            sty, b, idx, inb = I.a
            base = self.val(st, ('ptr',), b)
            st.env[I.res] = self.do_gep(st, sty, base, [(t, self.val(st, t, x)) for t, x in idx], I.line); return
        if op == 'extractvalue':
            v = self.val(st, I.ty, I.a[0])
            for j in I.a[1]: v = v[j]
            st.env[I.res] = v; return
        if op == 'insertvalue':
            v = self.val(st, I.ty, I.a[0]); e = self.val(st, I.a[1], I.a[2])
            v = list(v); 
            if len(I.a[3]) != 1: raise Unsupported("nested insertvalue")
            v[I.a[3][0]] = e; st.env[I.res] = v; return
        if op == 'cmpxchg':
            st.env[I.res] = self.w.cmpxchg(self, st, self.val(st, ('ptr',), I.a[0]), self.val(st, I.ty, I.a[1]), self.val(st, I.ty, I.a[2]), I); return
        if op in ('fence', 'asm'):
            return
        raise Unsupported("op " + op)

    def binop(self, st, op, a, b, I):
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                p, q = a.p, b.p
                if isinstance(p, Ptr) and isinstance(q, Ptr) and p.r is q.r:
                    d = simp((p.off - q.off) * c64(p.r.esz) + c64(p.sub - q.sub)) if (p.sub or q.sub) else simp((p.off - q.off) * c64(p.r.esz))
                    return d
                if isinstance(p, NullP) and isinstance(q, NullP): return c64(0)
                if isinstance(p, (NullP, Ptr)) and isinstance(q, (NullP, Ptr)): return fbv("ptrdiff", 64)   # unspecified value
            raise Unsupported("pointer arithmetic %s" % op)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.havoc_val("undef", I.ty)
        if z3.is_bool(a):
            r = {'and': lambda: z3.And(a, b), 'or': lambda: z3.Or(a, b), 'xor': lambda: z3.Xor(a, b)}[op]()
            return simp(r)
        w = a.size()
        if op == 'add': return add(a, b)
        if op == 'sub': return sub(a, b)
        if op == 'mul': return simp(a * b)
        if op == 'and': return simp(a & b)
        if op == 'or': return simp(a | b)
        if op == 'xor': return simp(a ^ b)
        if op in ('shl', 'lshr', 'ashr'):
            self.oblige(st, "shift-amount", z3.ULT(b, BV(w, w)), I.line)
            return simp(a << b if op == 'shl' else z3.LShR(a, b) if op == 'lshr' else a >> b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.oblige(st, "division-by-zero", b != 0, I.line)
            if op == 'sdiv' and 'exact' in I.a[2]:
                bs = simp(b)
                if isnum(bs):
                    try: return divexact(a, num(bs))
                    except Unsupported: pass
            if op == 'sdiv' or op == 'srem':
                if not (isnum(simp(b)) and num(simp(b)) != (1 << w) - 1):
                    self.oblige(st, "division-overflow", z3.Not(z3.And(a == BV(1 << (w - 1), w), b == BV(-1, w))), I.line)
            return simp({'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b), 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]())
        raise Unsupported(op)

    # ---------- calls
    def do_call(self, st, I):
        callee, args = I.a
        f = self.val(st, ('ptr',), callee)
        if not isinstance(f, FnP): raise Unsupported("indirect call")
        n = f.name
        vals = [self.val(st, t, v) if t[0] != 'meta' else None for t, v in args]
        L = I.line
        def setres(v):
            if I.res is not None: st.env[I.res] = v
            return None
        if n.startswith('llvm.'):
            if n.startswith(('llvm.lifetime', 'llvm.experimental.noalias', 'llvm.dbg', 'llvm.x86.sse2.pause', 'llvm.assume', 'llvm.donothing')):
                return None
            if n.startswith(('llvm.ubsantrap', 'llvm.trap')):
                self.oblige(st, "no-undefined-arithmetic" if 'ubsan' in n else "no-trap", False, L)
                return []
            if '.with.overflow.' in n:
                a, b = vals; w = a.size()
                k = n.split('.')[1]
                op = k[1:4]; sg = k[0] == 's'
                if sg: A, Bx = z3.SignExt(w, a), z3.SignExt(w, b)
                else: A, Bx = z3.ZeroExt(w, a), z3.ZeroExt(w, b)
                if op == 'add':
                    r = a + b; ov = z3.Not(z3.BVAddNoOverflow(a, b, sg)) if not sg else z3.Not(z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)))
                elif op == 'sub':
                    r = a - b; ov = z3.Not(z3.BVSubNoUnderflow(a, b, sg)) if not sg else z3.Not(z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)))
                else:
                    r = a * b
                    ov = z3.Not(z3.BVMulNoOverflow(a, b, sg)) if not sg else z3.Not(z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)))
                return setres([simp(r), simp(ov)])
            if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
                self.memcpy(st, vals[0], vals[1], vals[2], L); return None
            if n.startswith('llvm.memset'):
                self.memset(st, vals[0], vals[1], vals[2], L); return None
            if n.startswith('llvm.umin'): return setres(simp(z3.If(z3.ULT(vals[0], vals[1]), vals[0], vals[1])))
            if n.startswith('llvm.umax'): return setres(simp(z3.If(z3.UGT(vals[0], vals[1]), vals[0], vals[1])))
            if n.startswith('llvm.smin'): return setres(simp(z3.If(vals[0] < vals[1], vals[0], vals[1])))
            if n.startswith('llvm.smax'): return setres(simp(z3.If(vals[0] > vals[1], vals[0], vals[1])))
            if n.startswith('llvm.usub.sat'): return setres(simp(z3.If(z3.ULT(vals[0], vals[1]), BV(0, vals[0].size()), vals[0] - vals[1])))
            if n.startswith('llvm.expect'): return setres(vals[0])
            if n.startswith('llvm.is.constant'): return setres(z3.BoolVal(False))
            if n.startswith('llvm.abs'): return setres(simp(z3.If(vals[0] < 0, -vals[0], vals[0])))
            if n.startswith('llvm.bswap'):
                a = vals[0]; k = a.size() // 8
                return setres(simp(z3.Concat(*[z3.Extract(8*j+7, 8*j, a) for j in range(k)])))
            if n.startswith('llvm.fsh'):
                a, b, s = vals; w = a.size(); s2 = z3.URem(s, BV(w, w))
                cc = z3.Concat(a, b); s3 = z3.ZeroExt(w, s2)
                if n.startswith('llvm.fshl'): return setres(simp(z3.Extract(2*w-1, w, cc << s3)))
                return setres(simp(z3.Extract(w-1, 0, z3.LShR(cc, s3))))
            if n.startswith('llvm.ctpop'):
                a = vals[0]; w = a.size()
                return setres(simp(sum([z3.ZeroExt(w-1, z3.Extract(j, j, a)) for j in range(w)], BV(0, w))))
            raise Unsupported("intrinsic " + n)
        if n in LIB:
            return LIB[n](self, st, I, vals)
        if BSEARCH.match(n):
            a = [x for x in vals if x is not None and not (isinstance(x, (Undef, list)) )]
            if n.startswith('_ZNK'): a = a[1:]
            self.w.binary_search(self, st, I, a[0], a[1], a[2]); return None
        c = self.w.contract_for(n)
        if c is not None:
            return c.call(self, st, I, vals)
        if n in self.m.funcs:
            raise Unsupported("call to function without contract (not inlined): " + n)
        raise Unsupported("external call " + n)

    # ---------- block operations
    def esize_args(self, p, n):
        return divexact(n, p.r.esz)

    def memcpy(self, st, d, s, n, line):
        n = simp(n)
        if isnum(n) and num(n) == 0: return
        if isinstance(d, MaybePtr): self.oblige(st, "no-null-deref/memcpy", z3.Not(d.isnull), line); d = d.p
        if isinstance(s, MaybePtr): self.oblige(st, "no-null-deref/memcpy", z3.Not(s.isnull), line); s = s.p
        if isinstance(d, NullP) or isinstance(s, NullP):
            self.oblige(st, "no-null-deref/memcpy", n == 0, line); return
        # struct copies: cell by cell
        if d.r.kind == 'cell' or s.r.kind == 'cell' :
            if not isnum(n): self.memcpy_cell(st, d, s, n, line); return
            k = num(n)
            if d.r.kind == 'cell' and s.r.kind == 'cell':
                if d.r.obj is None and s.r.obj is None and k == d.r.esz == s.r.esz:
                    st.mem[d.r.id] = st.mem[s.r.id]; self.note_write(st, d.r); return
                if d.r.obj is not None and s.r.obj is not None:
                    done = 0
                    for (fo, fs, fr) in list(s.r.obj.fields):
                        o = fo - s.r.boff
                        if 0 <= o and o + fs <= k:
                            dd = self.gep_bytes(d, [(o, c64(1))])
                            if dd.r.esz != fr.esz: raise Unsupported("struct copy layout")
                            st.mem[dd.r.id] = st.mem[fr.id]; self.note_write(st, dd.r); done += fs
                    return
            # scalar <-> array bytes
            if s.r.kind == 'cell':
                v = self.load(st, s, ('i', 8 * k), line); self.store(st, d, v, ('i', 8 * k), line); return
            if k == d.r.esz:
                v = self.load(st, s, ('i', 8 * k), line); self.store(st, d, v, ('i', 8 * k), line); return
            raise Unsupported("memcpy cell/array")
        if d.r.esz != s.r.esz:
            if isnum(n) and num(n) <= 16:
                v = self.load(st, s, ('i', 8 * num(n)), line); self.store(st, d, v, ('i', 8 * num(n)), line); return
            raise Unsupported("memcpy between %s and %s" % (d.r.name, s.r.name))
        if d.sub or s.sub: raise Unsupported("memcpy misaligned")
        k = divexact(n, d.r.esz)
        if isnum(k) and num(k) <= 8:
            v = self.load(st, s, ('i', 8 * num(n)), line); self.store(st, d, v, ('i', 8 * num(n)), line); return
        self.check_access(st, s, k, "memcpy-src", line)
        self.check_access(st, d, k, "memcpy-dst", line, True)
        st.mem[d.r.id] = Cp(st.mem[d.r.id], d.off, k, st.mem[s.r.id], s.off)
        self.note_write(st, d.r)

    def memcpy_cell(self, st, d, s, n, line):
        """a symbolic number of bytes between a scalar local and a byte array"""
        def at0(p): return isnum(p.off) and num(p.off) == 0 and p.sub == 0 and p.r.obj is None
        if d.r.kind == 'cell' and s.r.kind != 'cell' and s.r.esz == 1 and at0(d):
            w = d.r.esz
            self.oblige(st, "bounds/memcpy-dst/" + d.r.name, z3.ULE(n, c64(w)), line)
            self.check_access(st, s, n, "memcpy-src", line)
            old = st.mem[d.r.id].v
            if not isinstance(old, z3.BitVecRef): old = fbv("undef", 8 * w)
            c = st.mem[s.r.id]
            bs = [z3.If(z3.UGT(n, c64(j)), read(c, add(s.off, c64(j))), z3.Extract(8*j+7, 8*j, old)) for j in range(w)]
            st.mem[d.r.id] = Cell(simp(z3.Concat(*bs[::-1])) if w > 1 else bs[0]); self.note_write(st, d.r); return
        if s.r.kind == 'cell' and d.r.kind != 'cell' and d.r.esz == 1 and at0(s):
            w = s.r.esz; v = st.mem[s.r.id].v
            self.oblige(st, "bounds/memcpy-src/" + s.r.name, z3.ULE(n, c64(w)), line)
            self.check_access(st, d, n, "memcpy-dst", line, True)
            c = Zero(8)
            for j in range(w): c = St(c, c64(j), simp(z3.Extract(8*j+7, 8*j, v)))
            st.mem[d.r.id] = Cp(st.mem[d.r.id], d.off, n, c, c64(0)); self.note_write(st, d.r); return
        raise Unsupported("memcpy with cell, symbolic size")

    def memset(self, st, d, v, n, line):
        n = simp(n)
        if isnum(n) and num(n) == 0: return
        if isinstance(d, NullP): self.oblige(st, "no-null-deref/memset", n == 0, line); return
        v8 = simp(v)
        if d.r.obj is not None and isnum(n):
            # composite: field by field
            a0 = d.r.boff + (num(d.off) * d.r.esz if isnum(d.off) else 0) + d.sub
            if isnum(d.off):
                end = a0 + num(n)
                for fo, fs, fr in d.r.obj.fields:
                    if fo >= a0 and fo + fs <= end:
                        vv = simp(z3.Concat(*([v8] * fr.esz))) if fr.esz > 1 else v8
                        if fr.kind == 'cell':
                            if isnum(v8) and num(v8) == 0: st.mem[fr.id] = Cell(BV(0, 8 * fr.esz))
                            else: st.mem[fr.id] = Cell(vv)
                        else:
                            st.mem[fr.id] = Zero(8 * fr.esz) if isnum(v8) and num(v8) == 0 else Fl(st.mem[fr.id], c64(0), fr.n, vv)
                        self.note_write(st, fr)
                    elif fo < end and fo + fs > a0:
                        # partial field
                        lo, hi = max(fo, a0), min(fo + fs, end)
                        if (lo - fo) % fr.esz or (hi - lo) % fr.esz: raise Unsupported("partial memset")
                        vv = simp(z3.Concat(*([v8] * fr.esz))) if fr.esz > 1 else v8
                        st.mem[fr.id] = Fl(st.mem[fr.id], c64((lo - fo) // fr.esz), c64((hi - lo) // fr.esz), vv); self.note_write(st, fr)
                tot = max(fo + fs for fo, fs, _ in d.r.obj.fields)
                self.oblige(st, "bounds/memset", z3.BoolVal(end <= tot + 8), line)
                return
        if d.r.kind == 'cell':
            if not isnum(n) or num(n) != d.r.esz: raise Unsupported("memset cell")
            st.mem[d.r.id] = Cell(simp(z3.Concat(*([v8] * d.r.esz))) if d.r.esz > 1 else v8); self.note_write(st, d.r); return
        k = divexact(n, d.r.esz)
        self.check_access(st, d, k, "memset", line, True)
        vv = simp(z3.Concat(*([v8] * d.r.esz))) if d.r.esz > 1 else v8
        st.mem[d.r.id] = Fl(st.mem[d.r.id], d.off, k, vv); self.note_write(st, d.r)

    # ---------- loops
    def loop_live_ins(self, h):
        body = self.loops.body[h]
        defs, uses = set(), []
        def scan(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 'reg':
                    if v[1] not in uses: uses.append(v[1])
                else:
                    for x in v: scan(x)
            elif isinstance(v, list):
                for x in v: scan(x)
        for b in self.f.order:
            if b not in body: continue
            blk = self.f.blocks[b]
            for I in blk.phis + blk.insts:
                if I.res is not None: defs.add(I.res)
                scan(I.a)
        return [u for u in uses if u not in defs]

    def havoc_phi(self, st, name, v, ty):
        t = self.m.resolve(ty)
        if isinstance(v, FreshBuf):
            n = fbv(name + ".cap", 64)
            r = Region(name + ".buf", v.esz, n, 'strbuf')
            st.mem[r.id] = Base(ffun(name + ".buf", B64, z3.BitVecSort(8 * r.esz)), 8 * r.esz)
            st.assume(z3.ULT(n, BV(1 << 60, 64)))
            return Ptr(r, c64(0))
        if isinstance(v, z3.BitVecRef): return self.havoc_bv(name, v)
        if isinstance(v, z3.BoolRef): return fbool(name)
        if isinstance(v, Ptr): return Ptr(v.r, self.havoc_bv(name, v.off), v.sub)
        if isinstance(v, PInt) and isinstance(v.p, Ptr): return PInt(Ptr(v.p.r, fbv(name, 64), v.p.sub))
        if isinstance(v, Undef): return self.havoc_val(name, t) if t[0] == 'i' else UNDEF
        if isinstance(v, list): return [self.havoc_phi(st, name, x, tt) for x, tt in zip(v, t[1])]
        if isinstance(v, (NullP, FnP)): return v
        raise Unsupported("havoc phi %r" % (v,))

    def havoc_bv(self, name, v):
        """arbitrary value, written as entry value + arbitrary distance (helps the solver)"""
        d = fbv(name, v.size())
        return d if isnum(v) or v.size() != 64 else v + d
    def same_shape(self, a, b):
        if isinstance(a, FreshBuf):
            return isinstance(b, Ptr) and b.r.kind == 'strbuf' and isnum(b.off) and num(b.off) == 0 and b.sub == 0
        if isinstance(a, Ptr): return isinstance(b, Ptr) and a.r is b.r and a.sub == b.sub
        if isinstance(a, PInt): return isinstance(b, PInt) and self.same_shape(a.p, b.p)
        if isinstance(a, z3.ExprRef): return isinstance(b, z3.ExprRef) or isinstance(b, Undef)
        if isinstance(a, list): return isinstance(b, list) and all(self.same_shape(x, y) for x, y in zip(a, b))
        return type(a) is type(b)

    def havoc_mem(self, st, rid, name):
        c = st.mem[rid]
        if isinstance(c, Cell):
            v = c.v
            if isinstance(v, Ptr) and v.r.kind == 'strbuf':
                n = fbv(name + ".cap", 64)
                r = Region(name + ".buf", v.r.esz, n, 'strbuf')
                st.mem[r.id] = Base(ffun(name + ".buf", B64, z3.BitVecSort(8 * r.esz)), 8 * r.esz)
                st.assume(z3.ULT(n, BV(1 << 60, 64)))
                st.mem[rid] = Cell(Ptr(r, c64(0)))
            elif isinstance(v, Ptr):
                st.mem[rid] = Cell(Ptr(v.r, self.havoc_bv(name, v.off), v.sub))
            elif isinstance(v, z3.BitVecRef): st.mem[rid] = Cell(self.havoc_bv(name, v))
            elif isinstance(v, Undef): st.mem[rid] = Cell(UNDEF)
            elif isinstance(v, NullP): st.mem[rid] = Cell(v)
            else: raise Unsupported("havoc cell %r" % (v,))
        else:
            st.mem[rid] = Base(ffun(name, B64, z3.BitVecSort(c.w)), c.w)

    def cell_names(self, st):
        """rid -> readable name for the regions known in this state"""
        return self.region_names

    def do_loop(self, h, pred, st, ctxs):
        if getattr(self.c, 'fork_loops', False) and self.phase == 'final' and not ctxs and self.forks is not None and any(x != h and x in self.loops.body for x in self.loops.body[h]):
            self.in_child(lambda: self.do_loop(h, pred, st, ctxs)); return
        self.nloops += 1
        blk = self.f.blocks[h]
        body = self.loops.body[h]
        if hasattr(self.c, 'at_loop'): self.c.at_loop(self, st)
        entry = st
        evals = {}
        for ph in blk.phis: evals[ph.res] = self.phi_val(entry, ph, pred)
        key = (h, pred, entry.path)
        # undefined entry values of pointer phis: they take the region seen at the back edge
        shapes = dict(evals)
        deadset = set()
        mods = set(self.modcache.get(h, ()))
        cands_kept = self.loopcache.get(key)
        tried = 0
        while True:
            tried += 1
            if tried > 60: raise Unsupported("loop %s does not stabilise" % h)
            # --- havoc
            hst = entry.copy()
            hvals = {}
            for ph in blk.phis:
                v = self.havoc_phi(hst, ph.res, shapes[ph.res], ph.ty)
                hst.env[ph.res] = v; hvals[ph.res] = v
            est = entry.copy()
            for ph in blk.phis: est.env[ph.res] = evals[ph.res]
            mlist = [r for r in mods if r in entry.mem]
            cellmap = {}
            for rid in mlist:
                self.havoc_mem(hst, rid, self.rname(entry, rid))
            # implicit representation invariant of strings: {p at 0, n <= capacity}
            reps = self.string_cells(hst, mlist)
            for (pc_, nc_) in reps:
                p = hst.mem[pc_].v; n = hst.mem[nc_].v
                hst.assume(z3.ULE(n, p.r.n))
            hst.path = entry.path + ("^" + h,)
            view = View(self, hst, h, hvals, mlist); eview = View(self, est, h, evals, mlist)
            view.entry = eview; eview.entry = eview; view.pre = entry; eview.pre = entry
            view.live = eview.live = [u for u in self.loop_live_ins(h) if u in entry.env]
            # --- candidates
            allc = self.gen_cands(view, eview)
            if cands_kept is None:
                # initial filter at loop entry
                kept = []
                for c in allc:
                    try: g = c.make(eview)
                    except (Unsupported, KeyError, AttributeError, IndexError, TypeError): continue
                    if g is None: continue
                    kept.append(c)
                kept = self.filter_entry(est, eview, kept)
                cands_kept = [c.label for c in kept]
            by = {}
            for c in allc: by.setdefault(c.label, c)
            cur = [by[l] for l in cands_kept if l in by]
            hyps = []
            for c in cur:
                g = c.make(view)
                if g is not None: hst.assume(g)
            hst.dead = hst.dead | frozenset(deadset)
            failed = set(); newmods = set(); shapech = [False]; newdead = set()
            outer_written = self.written
            back_states = []
            def on_back(s, p, _self=self):
                # new phi values
                nv = {}
                for ph in blk.phis: nv[ph.res] = _self.phi_val(s, ph, p)
                for k, v in nv.items():
                    if not _self.same_shape(shapes[k], v):
                        if isinstance(shapes[k], (Undef, NullP)) or (isinstance(shapes[k], list)):
                            shapes[k] = v; shapech[0] = True; return
                        if isinstance(shapes[k], Ptr) and shapes[k].r.kind == 'strbuf' and isnum(shapes[k].off) and num(shapes[k].off) == 0:
                            fbuf = FreshBuf(shapes[k].r.esz)
                            if _self.same_shape(fbuf, v): shapes[k] = fbuf; shapech[0] = True; return
                        raise Unsupported("loop-carried pointer changes region: %s" % k)
                w = {r for r in _self.written if r in entry.mem} - mods
                # a cell that now holds a different region than the havoc assumed
                if w: newmods.update(w); return
                nd = {r for r in s.dead if r in entry.mem and r not in entry.dead} - deadset
                if nd: newdead.update(nd); return
                back_states.append((s, nv))
                s2 = s
                for k, v in nv.items(): s2.env[k] = v
                bview = View(_self, s2, h, nv, mlist); bview.entry = eview; bview.pre = entry; bview.live = view.live
                todo = [c for c in cur if c.label not in failed]
                if getattr(_self.c, 'fork_back', False):
                    def job(s2=s2, bview=bview, todo=todo):
                        _self.pool = Pool(3); bad = set(); _self.check_back(s2, view, bview, todo, bad)
                        return "failed:" + "\n".join(sorted(bad))
                    def done(res, dt, todo=todo):
                        failed.update(x for x in res[7:].split("\n") if x) if res.startswith("failed:") else failed.update(c.label for c in todo)
                    _self.pool.submit(job, done, 240)
                else: _self.check_back(s2, view, bview, todo, failed)
                for (pc_, nc_) in reps:
                    pp = s2.mem[pc_].v; nn = s2.mem[nc_].v
                    if not (isinstance(pp, Ptr) and pp.r.kind == 'strbuf' and isnum(pp.off) and num(pp.off) == 0):
                        raise Unsupported("string representation at back edge")
                    if _self.phase == 'final':
                        _self.oblige(s2, "invariant/string-size-within-capacity", z3.ULE(nn, pp.r.n), 0, assume=False)
            # --- search pass (only the loop itself; exits are cut)
            stable = getattr(self, 'trust_cache', False) and key in self.loopcache
            if not stable:
                save = self.phase; self.phase = 'search'
                self.written = set()
                try:
                    ctx = LoopCtx(h, body, on_back, mods)
                    self.run_body(h, hst.copy(), [_Cut(body)] + [ctx])
                    if getattr(self.c, 'fork_back', False): self.pool.wait()
                finally:
                    w2 = self.written
                    self.phase = save; self.written = outer_written
                if os.environ.get("VC_ROUND") and h == os.environ["VC_ROUND"]: print("ROUND", h, tried, len(cur), "failed", sorted(failed)[:20], len(newmods), len(newdead), shapech, "%.0f" % (time.time() - self.deadline), file=sys.stderr)
                if newmods:
                    mods |= newmods; self.modcache[h] = set(mods) ; cands_kept = None if tried < 8 else cands_kept
                    continue
                if newdead: deadset |= newdead; continue
                if shapech[0]: cands_kept = None; continue
                if failed:
                    cands_kept = [l for l in cands_kept if l not in failed]
                    continue
            break
        self.loopcache[key] = cands_kept
        self.modcache[h] = set(mods)
        if self.phase == 'final':
            self.inv_kept["%s|%s" % (h, len(entry.path))] = list(cands_kept)
            for c in cur:
                self.obls.append(Obl("%s/loop-invariant/%s" % (self.c.name, c.label), 'proved', 0, 'z3', "initiation and preservation"))
        # --- continue: body once more, back edges end (already proved), exits continue
        def on_back2(s, p):
            if self.phase == 'final':
                for (pc_, nc_) in reps:
                    pp = s.mem[pc_].v; nn = s.mem[nc_].v
                    self.oblige(s, "invariant/string-size-within-capacity", z3.ULE(nn, pp.r.n), 0, assume=False)
            return
        self.written |= set(mods)
        ctx = LoopCtx(h, body, on_back2, mods)
        self.run_body(h, hst, ctxs + [ctx])

    def run_body(self, h, st, ctxs):
        blk = self.f.blocks[h]
        st.path = st.path + (h,)
        self.run(blk, 0, st, ctxs)

    def rname(self, st, rid):
        return self.rnames.get(rid, "r%d" % rid) if hasattr(self, 'rnames') else "r%d" % rid

    def string_cells(self, st, mlist):
        out = []
        for rid in mlist:
            c = st.mem[rid]
            if isinstance(c, Cell) and isinstance(c.v, Ptr) and c.v.r.kind == 'strbuf':
                nc = self.sibling.get(rid)
                if nc is not None and isinstance(st.mem.get(nc), Cell) and isinstance(st.mem[nc].v, z3.BitVecRef):
                    out.append((rid, nc))
        return out

    def filter_entry(self, est, eview, cands):
        kept = []
        for c in cands:
            g = c.make(eview)
            if isinstance(g, FA):
                r, _ = self.prover.prove(est.pc, g, est.facts + self.gfacts, self.rounds, 5000, False)
            else:
                g2 = simp(g)
                if z3.is_true(g2): kept.append(c); continue
                if z3.is_false(g2): continue
                r, _ = self.prover.prove(est.pc, g2, est.facts + self.gfacts, self.rounds, 5000, False)
            if r == 'proved': kept.append(c)
        return kept

    def check_back(self, s, view, bview, todo, failed):
        """drop candidates not preserved along this path"""
        if not todo: return
        cases = self.c.at_back(self, s, view, bview) if hasattr(self.c, 'at_back') else None
        cases = cases or [z3.BoolVal(True)]          # exhaustive, proved
        goals = []
        for c in todo:
            g = c.make(bview)
            if g is None: failed.add(c.label); continue
            c.kind = g
            if isinstance(g, FA): g = g.goal()
            g = simp(g)
            if z3.is_true(g): continue
            goals.append((c, g))
        if not goals: return
        inst = self.prover.instantiate(s.pc, [g for _, g in goals], s.facts + self.gfacts, self.rounds)
        base = list(s.pc) + inst
        # one query for the quantifier-free ones (the model drops several at once), then one each
        alive = [(c, g) for c, g in goals if not isinstance(c.kind, FA)]
        rest = []
        while len(alive) > 1 and not (getattr(self.c, 'fork_back', False) and len(alive) < 8):
            r, m = self.prover.check(base + [z3.Or([z3.Not(g) for _, g in alive])], getattr(self.c, 'ort', ORT), True)
            if r == 'unsat': alive = []; break
            if r == 'unknown': break
            drop = [c for c, g in alive if z3.is_false(m.eval(g, model_completion=True))]
            if not drop: break
            for c in drop:
                failed.add(c.label)
                if os.environ.get('VC_DROP') and os.environ['VC_DROP'] in c.label: print('DROP*', c.label, s.path[-14:], file=sys.stderr)
            alive = [(c, g) for c, g in alive if c.label not in failed]
        hard = []
        for c, g in alive + [(c, g) for c, g in goals if isinstance(c.kind, FA)]:
            if self.prover.light(s.pc, z3.Not(g), s.facts + self.gfacts): continue
            # instances for this goal alone
            inst = self.prover.instantiate(s.pc, [g], s.facts + self.gfacts, self.rounds)
            fs = list(s.pc) + inst + [z3.Not(g)]
            r, m = self.prover.check(fs, 80, False)
            if r == 'sat':
                failed.add(c.label)
                if os.environ.get("VC_DROP") and os.environ["VC_DROP"] in c.label:
                    print("DROP", c.label, s.path[-14:], file=sys.stderr)
                    if os.environ.get("VC_DROPQ"):
                        for x in list(s.pc) + [z3.Not(g)] + (inst if os.environ["VC_DROPQ"] == "2" else []): print("    ", str(x).replace("\n", " ")[:400], file=sys.stderr)
            elif r == 'unknown': hard.append((c, fs))
        for c, fs in hard:
            def cb(res, dt, c=c):
                if res != 'unsat': failed.add(c.label)
                if os.environ.get("VC_SLOW") and dt > 1: print("   cand", c.label, res, "%.1f" % dt, s.path[-14:] if res != 'unsat' else '', file=sys.stderr)
            if os.environ.get("VC_DUMPQ") and os.environ["VC_DUMPQ"] in c.label: ss = z3.Solver(); ss.add(fs); open("/tmp/x/q%d.smt2" % next(_fresh), "w").write(ss.to_smt2())
            for x in cases: self.pool.submit(self.prover.hard(fs + [x], 45000), cb, 60)
        if hard: self.pool.wait()

    def gen_cands(self, view, eview):
        out = []
        out += generic_cands(self, view, eview)
        for t in getattr(self.c, 'templates', []):
            out += t(self, view, eview)
        seen = set(); res = []
        for c in out:
            if c.label in seen: continue
            seen.add(c.label); res.append(c)
        return res

class _Cut:
    """pseudo context: leaving the searched loop ends the path"""
    header = None
    def __init__(self, body): self.body = _All()
    def on_back(self, s, p): pass
class _All:
    def __contains__(self, x): return True

# ------------------------------------------------------------------ generic templates
LENBITS = 40
def small(x):
    """x < 2^(LENBITS+2), written bitwise"""
    return z3.Extract(63, LENBITS + 2, x) == 0
def length_var(name):
    """an arbitrary length below 2^LENBITS"""
    return z3.ZeroExt(64 - LENBITS, fbv(name, LENBITS))

def ints(view, w):
    """(label, getter) for the w-bit integer valued loop-carried quantities"""
    out = []
    for n, v in view.phis.items():
        if isinstance(v, z3.BitVecRef) and v.size() == w:
            out.append((n, lambda V, n=n: V.phis[n]))
    for rid in view.mod:
        c = view.st.mem[rid]
        if isinstance(c, Cell) and isinstance(c.v, z3.BitVecRef) and c.v.size() == w:
            nm = view.eng.rname(view.st, rid)
            out.append((nm, lambda V, rid=rid: V.st.mem[rid].v))
    return out

def ptrs(view):
    out = []
    for n, v in view.phis.items():
        if isinstance(v, Ptr) and v.r.kind != 'cell':
            out.append((n, v.r, lambda V, n=n: V.phis[n].off))
    for rid in view.mod:
        c = view.st.mem[rid]
        if isinstance(c, Cell) and isinstance(c.v, Ptr) and c.v.r.kind not in ('cell', 'strbuf'):
            nm = view.eng.rname(view.st, rid)
            out.append((nm, c.v.r, lambda V, rid=rid: V.st.mem[rid].v.off))
    return out

def positions(view):
    """all 64-bit loop-carried positions: integers and pointer offsets"""
    return ints(view, 64) + [(n, g) for n, r, g in ptrs(view)]

def live_terms(view, w):
    """loop-invariant w-bit terms used in the loop, with labels"""
    out = []
    for u in view.live:
        v = view.st.env[u]
        if isinstance(v, z3.BitVecRef) and v.size() == w: out.append((u, v))
        elif w == 64 and isinstance(v, Ptr) and v.r.kind != 'cell': out.append((u, v.off))
    return out

def generic_cands(eng, view, eview):
    out = []
    pos = positions(view)
    lens = []
    seen = set()
    for l, t in live_terms(view, 64) + list(getattr(eng.c, 'bounds', lambda e, v: [])(eng, view)):
        k = t.get_id() if not isnum(t) else ('n', num(t))
        if k in seen: continue
        seen.add(k); lens.append((l, t))
    for n, r, g in ptrs(view):
        if r.n is not None and ('R', r.id) not in seen:
            seen.add(('R', r.id)); lens.append(("size(" + r.name + ")", r.n))
    for n, g in pos:
        i0 = g(eview)
        for l, t in lens:
            k = simp(t - i0)
            if isnum(k) and num(k) < 1 << 32:
                if num(k): out.append(Cand("%s-init<=%d" % (n, num(k)), lambda V, g=g, i0=i0, k=k: z3.ULE(simp(g(V) - i0), k)))
            out.append(Cand("%s<=%s" % (n, l), lambda V, g=g, t=t: z3.ULE(g(V), t)))
        out.append(Cand("%s>=init" % n, lambda V, g=g, i0=i0: z3.UGE(g(V), i0)))
        out.append(Cand("%s small" % n, lambda V, g=g, i0=i0: z3.And(small(g(V)), small(simp(g(V) - i0)))))
        out.append(Cand("%s<=init" % n, lambda V, g=g, i0=i0: z3.ULE(g(V), i0)))
    for n, v in view.phis.items():
        if isinstance(v, Ptr) and v.r.kind == 'strbuf' and isinstance(eview.phis.get(n), Ptr) and v.r is not eview.phis[n].r:
            for n2, g in ints(view, 64):
                out.append(Cand("%s<=cap(%s)" % (n2, n), lambda V, g=g, n=n: z3.ULE(g(V), V.phis[n].r.n)))
    # linear relations between pairs
    for (n1, g1), (n2, g2) in itertools.combinations(pos, 2):
        a0, b0 = g1(eview), g2(eview)
        out.append(Cand("%s-%s=init" % (n1, n2), lambda V, g1=g1, g2=g2, a0=a0, b0=b0: g1(V) - g2(V) == a0 - b0))
        out.append(Cand("%s+%s=init" % (n1, n2), lambda V, g1=g1, g2=g2, a0=a0, b0=b0: g1(V) + g2(V) == a0 + b0))
        out.append(Cand("%s<=%s" % (n1, n2), lambda V, g1=g1, g2=g2: z3.ULE(g1(V), g2(V))))
        out.append(Cand("%s<=%s" % (n2, n1), lambda V, g1=g1, g2=g2: z3.ULE(g2(V), g1(V))))
    for n, g in ints(view, 32):
        i0 = g(eview)
        out.append(Cand("%s>=0" % n, lambda V, g=g: g(V) >= 0))
        out.append(Cand("%s>=init(s)" % n, lambda V, g=g, i0=i0: g(V) >= i0))
        for l, t in live_terms(view, 32):
            out.append(Cand("%s<=%s(s)" % (n, l), lambda V, g=g, t=t: g(V) <= t))
            out.append(Cand("%s<=%s(u)" % (n, l), lambda V, g=g, t=t: z3.ULE(g(V), t)))
    for n, g in ints(view, 8): out.append(Cand("%s<=1" % n, lambda V, g=g: z3.ULE(g(V), BV(1, 8))))
    for n, v in view.phis.items():
        if isinstance(v, z3.BoolRef):
            out.append(Cand("%s=false" % n, lambda V, n=n: z3.Not(V.phis[n])))
            out.append(Cand("%s=true" % n, lambda V, n=n: V.phis[n]))
    return out

# ------------------------------------------------------------------ library primitives
LIB = {}
def lib(*names):
    def d(f):
        for n in names: LIB[n] = f
        return f
    return d

def strbuf(eng, st, name, esz, n, content=None):
    r = Region(name, esz, n, 'strbuf')
    st.mem[r.id] = content if content is not None else Base(ffun(name, B64, z3.BitVecSort(8 * esz)), 8 * esz)
    eng.rnames[r.id] = name
    return r

def seen_size(st, n):
    # no allocation exceeds 2^60 elements (std::length_error / bad_alloc otherwise)
    st.assume(z3.ULT(n, BV(1 << 60, 64)))

@lib('__vs_fresh')
def l_fresh(eng, st, I, a):
    n, w = simp(a[0]), num(simp(a[1]))
    seen_size(st, n)
    st.env[I.res] = Ptr(strbuf(eng, st, "str", w, n), c64(0))

@lib('__vs_grow')
def l_grow(eng, st, I, a):
    p, on, n, w = a[0], simp(a[1]), simp(a[2]), num(simp(a[3]))
    seen_size(st, n)
    r = strbuf(eng, st, "str", w, n)
    if isinstance(p, Ptr):
        m = simp(z3.If(z3.ULT(on, n), on, n))
        if not (isnum(m) and num(m) == 0):
            st.mem[r.id] = Cp(st.mem[r.id], c64(0), m, st.mem[p.r.id], p.off)
        st.dead = st.dead | {p.r.id}
    st.env[I.res] = Ptr(r, c64(0))

@lib('__vs_free')
def l_free(eng, st, I, a):
    if isinstance(a[0], Ptr): st.dead = st.dead | {a[0].r.id}

def l_fill(eng, st, I, a):
    p, n, v = a
    n = simp(n)
    if isnum(n) and num(n) == 0: return
    eng.check_access(st, p, n, "fill", I.line, True)
    st.mem[p.r.id] = Fl(st.mem[p.r.id], p.off, n, v); eng.note_write(st, p.r)
LIB['__vs_fill1'] = LIB['__vs_fill2'] = LIB['__vs_fill4'] = l_fill

def block_equal(eng, st, p, q, n, line):
    """fresh Bool e with e <=> forall k<n. p[k]==q[k] (both directions via witness)"""
    e = fbool("eq")
    if isinstance(p, MaybePtr): p = p.p
    if isinstance(q, MaybePtr): q = q.p
    if isinstance(p, NullP) or isinstance(q, NullP):
        eng.oblige(st, "no-null-deref/compare", n == 0, line); return z3.BoolVal(True)
    eng.check_access(st, p, n, "compare", line); eng.check_access(st, q, n, "compare", line)
    cp, cq = st.mem[p.r.id], st.mem[q.r.id]
    po, qo = p.off, q.off
    if isnum(n) and num(n) <= 16:
        return simp(z3.And([read(cp, add(po, c64(k))) == read(cq, add(qo, c64(k))) for k in range(num(n))] + [z3.BoolVal(True)]))
    # one side a short constant
    for a, b in ((p, q), (q, p)):
        if isnum(simp(a.r.n)) and num(simp(a.r.n)) <= 16 and isnum(a.off):
            m = num(simp(a.r.n)) - num(a.off)
            return simp(z3.And([z3.Implies(z3.UGT(n, k), read(cp, add(po, c64(k))) == read(cq, add(qo, c64(k)))) for k in range(m)] + [z3.BoolVal(True)]))
    w = fbv("neq", 64)
    st.assume(z3.Implies(z3.Not(e), z3.And(z3.ULT(w, n), read(cp, add(po, w)) != read(cq, add(qo, w)))))
    eng.w.on_equal(eng, st, e, p, q, n)
    # e => pointwise: instantiate at applications of either base function
    def mk(base_off):
        return lambda x, base_off=base_off: z3.Implies(z3.And(e, z3.ULT(x - base_off, n)),
                   read(cp, add(po, sub(x, base_off))) == read(cq, add(qo, sub(x, base_off))))
    for d in base_decls(cp): st.facts.append(Fact("equal", d, mk(po)))
    for d in base_decls(cq): st.facts.append(Fact("equal", d, mk(qo)))
    return e

@lib('__vs_equal')
def l_equal(eng, st, I, a):
    st.env[I.res] = block_equal(eng, st, a[0], a[1], simp(a[2]), I.line)

@lib('memcmp', 'bcmp')
def l_memcmp(eng, st, I, a):
    p, q, n = a
    esz = p.r.esz if isinstance(p, Ptr) else 1
    e = block_equal(eng, st, p, q, divexact(simp(n), esz), I.line)
    r = fbv("memcmp", 32); st.assume((r == 0) == e)
    st.env[I.res] = r

@lib('strlen')
def l_strlen(eng, st, I, a):
    p = a[0]
    if isinstance(p, Ptr) and p.r.values is not None and isnum(p.off):
        v = p.r.values[num(p.off):]
        if 0 in v: st.env[I.res] = c64(v.index(0)); return
    raise Unsupported("strlen")

@lib('memchr')
def l_memchr(eng, st, I, a):
    p, ch, n = a[0], simp(z3.Extract(7, 0, a[1])), simp(a[2])
    if isinstance(p, NullP):
        eng.oblige(st, "no-null-deref/memchr", n == 0, I.line); st.env[I.res] = NULL; return
    eng.check_access(st, p, n, "memchr", I.line)
    c, po = st.mem[p.r.id], p.off
    s1 = st.copy(); s2 = st
    k = fbv("chr", 64)
    s1.assume([z3.ULT(k, n), read(c, add(po, k)) == ch])
    tr = base_decls(c)
    s1.assume(FA(lambda x: z3.Implies(z3.ULT(x - po, k), read(c, x) != ch), tr, name="memchr-before"))
    s2.assume(FA(lambda x: z3.Implies(z3.ULT(x - po, n), read(c, x) != ch), tr, name="memchr-none"))
    if hasattr(eng.c, 'on_found'): eng.c.on_found(eng, s1, p, ch, k, True); eng.c.on_found(eng, s2, p, ch, n, False)
    return [(s1, Ptr(p.r, add(po, k))), (s2, NULL)]

@lib('_ZnamRKSt9nothrow_t', '_ZnwmRKSt9nothrow_t')
def l_new(eng, st, I, a):
    """memory, or null"""
    n = simp(a[0]); no = fbool("alloc-failed")
    r = eng.new_region(st, "heap", 1, n, 'heap'); eng.rnames[r.id] = "heap"
    st.ghost['alloc-failed'] = z3.Or(no, st.ghost.get('alloc-failed', z3.BoolVal(False)))
    st.env[I.res] = MaybePtr(no, Ptr(r, c64(0)))

@lib('_ZdaPv', '_ZdlPv', '_ZdaPvm', '_ZdlPvm')
def l_delete(eng, st, I, a):
    p = a[0]
    if isinstance(p, MaybePtr): p = p.p
    if isinstance(p, NullP): return
    eng.oblige(st, "delete/allocated-and-not-yet-freed", isinstance(p, Ptr) and p.r.kind == 'heap' and p.r.id not in st.dead and isnum(p.off) and num(p.off) == 0, I.line)
    if p.r.guard is not None: p.r.guard(eng, st, I.line)
    st.dead = st.dead | {p.r.id}
