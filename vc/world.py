"""Verification world: contracts by function name, constant tables, runner."""
import os, re, sys, time, traceback
import z3
import extract
from llir import Module
from engine import *

def base_name(d):
    """name of a library function from its demangled signature (None: not one of ours)"""
    m = re.match(r'ada::idna::(?:deflate::)?([\w:]+)(\[abi:cxx11\])?\(.*\)( const)?$', d)
    return m.group(1) if m and ")::" not in d else None

def rle(vals):
    out = []; i = 0
    while i < len(vals):
        j = i
        while j < len(vals) and vals[j] == vals[i]: j += 1
        out.append((i, j, vals[i])); i = j
    return out

class World:
    def __init__(self, mod, contracts):
        self.m = mod
        self.contracts = contracts          # mangled -> Contract
        self.const_content = {}
        self.tabfacts = {}
        self.globals = {}
        self.tab = None
        self.sorted_const = {}
        self.sets = {}          # name -> frozenset of code points the specification speaks of
        self.assumed = set()
    def member(self, S, c):
        """c in the finite set S of code points: a named predicate of the specification, a union of those, or explicit"""
        for n, X in self.sets.items():
            if X == S and len(S) > 8: return z3.Function("in." + n, z3.BitVecSort(32), z3.BoolSort())(c)
        if len(S) <= 8: return z3.Or([c == BV(x, 32) for x in sorted(S)] + [z3.BoolVal(False)])
        parts = [(n, X) for n, X in self.sets.items() if X and X <= S]
        if parts and frozenset().union(*[X for _, X in parts]) == S: return z3.Or([self.member(X, c) for _, X in parts])
        h = "set.%08x" % (hash(tuple(sorted(S))) & 0xffffffff)
        return z3.Function(h, z3.BitVecSort(32), z3.BoolSort())(c)
    def binary_search(self, eng, st, I, first, last, pv):
        """standard library: binary_search over an ascending range is membership"""
        if not (isinstance(first, Ptr) and isinstance(last, Ptr) and first.r is last.r and isnum(first.off) and isnum(last.off)): raise Unsupported("binary_search range")
        v = first.r.values
        if v is None: v = self.table_mem().values_of(first.r)
        if v is None: raise Unsupported("binary_search on a non-constant range")
        s = [int(x) for x in v[num(first.off):num(last.off)]]
        eng.oblige(st, "call/binary_search/range-is-sorted", all(a <= b for a, b in zip(s, s[1:])), I.line)
        c = eng.load(st, pv, ('i', 32), I.line)
        st.env[I.res] = simp(self.member(frozenset(s), c))
    def contract_for(self, mangled): return self.contracts.get(mangled)
    def global_region(self, eng, st, name, g):
        if self.tab is None:
            import tables
            self.tab = tables.TableMem(self)
        return self.tab.global_region(eng, st, name, g)
    def table_mem(self):
        if self.tab is None:
            import tables
            self.tab = tables.TableMem(self)
        return self.tab
    def sorted_of(self, eng, r):
        """sorted table behind a region: a published table or a constant ascending array"""
        if r.values is not None:
            if r.id not in self.sorted_const:
                import tables
                v = r.values; c = self.const_content[r.id]
                self.sorted_const[r.id] = tables.SortedT(self, c.f, len(v), 1, 0, r.name) if r.esz == 4 and len(v) > 2 and all(a < b for a, b in zip(v, v[1:])) and v[-1] < 1 << 31 else None
            return self.sorted_const[r.id]
        return self.table_mem().sorted_of_region(r)
    def atomic_load(self, eng, st, p, I): return self.table_mem().atomic_load(eng, st, p, I)
    def atomic_store(self, eng, st, p, v, I): return self.table_mem().atomic_store(eng, st, p, v, I)
    def cmpxchg(self, eng, st, p, a, b, I): return self.table_mem().cmpxchg(eng, st, p, a, b, I)
    def const_facts(self, eng, name, vals, f, esz):
        t = table_fact(name, vals, f, esz)
        if t is not None: eng.gfacts.append(t)
    def on_equal(self, eng, st, e, p, q, n):
        h = getattr(eng.c, 'on_equal', None)
        if h is not None: h(eng, st, e, p, q, n)

def table_fact(name, vals, f, esz):
    """value of a constant table at every index used (run-length encoded)"""
    w = 8 * esz
    runs = rle(vals)
    if len(runs) > 600: return None
    def fn(i):
        out = []
        if isnum(i):
            k = num(i)
            return [f(i) == BV(vals[k], w)] if k < len(vals) else []
        for a, b, v in runs:
            c = (i == c64(a)) if b == a + 1 else z3.And(z3.UGE(i, c64(a)), z3.ULT(i, c64(b)))
            out.append(z3.Implies(c, f(i) == BV(v, w)))
        return [z3.And(out)]
    return Fact("table " + name, f, fn)

class Contract:
    templates = ()
    rounds = 4
    budget = 400
    def __init__(self, name): self.name = name
    def bounds(self, eng, view): return []
    def setup(self, eng, st): raise NotImplementedError
    def post(self, eng, st, ret, line): raise NotImplementedError
    def call(self, eng, st, I, vals): raise Unsupported("no call rule for " + self.name)
    # helpers
    def param(self, eng, i): return eng.f.params[i][1]
    def data(self, eng, st, name, esz, n, f=None, writable=False, kind='data'):
        f = f if f is not None else ffun(name, B64, z3.BitVecSort(8 * esz))
        r = eng.new_region(st, name, esz, n, kind, Base(f, 8 * esz), writable)
        eng.rnames[r.id] = name
        return r
    def string(self, eng, st, name, esz, n, f=None, cap=None):
        """a std::basic_string object; returns pointer to it, its cells and its buffer"""
        o = Obj(name)
        rp = Region(name + ".data", 8, c64(1), 'cell', True, o, 0)
        rn = Region(name + ".size", 8, c64(1), 'cell', True, o, 8)
        o.fields = [(0, 8, rp), (8, 8, rn)]
        cap = cap if cap is not None else n
        buf = self.data(eng, st, name + ".buf", esz, cap, f, True, 'strbuf')
        st.mem[rp.id] = Cell(Ptr(buf, c64(0))); st.mem[rn.id] = Cell(n)
        eng.rnames[rp.id] = rp.name; eng.rnames[rn.id] = rn.name
        eng.sibling[rp.id] = rn.id
        return Ptr(rp, c64(0)), rp, rn, buf
    def cands_pair(self, eng, view, label, mk, ra=None, rb=None):
        """candidates mk(p, o) over ordered pairs of loop-carried positions"""
        pos = positions(view); out = []
        for n1, g1 in pos:
            for n2, g2 in pos:
                if n1 == n2: continue
                out.append(Cand("%s(%s,%s)" % (label, n1, n2), lambda V, g1=g1, g2=g2: mk(V, g1(V), g2(V))))
        return out
    def cands_one(self, eng, view, label, mk):
        return [Cand("%s(%s)" % (label, n), lambda V, g=g: mk(V, g(V))) for n, g in positions(view)]
    def pvals(self, eng, st, vals):
        for (t, n), v in zip(eng.f.params, vals): st.env[n] = v

