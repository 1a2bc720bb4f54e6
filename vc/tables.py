"""The published Unicode tables: layout read from src/table_blob.inc, values inflated with zlib.

Table facts used as hypotheses in proofs are evaluated exhaustively on these values on every run
(obligations table/<name>/<fact>, back end 'evaluation')."""
import os, re, zlib, json
import numpy as np
import z3
import extract
from engine import *

SECT = {   # global -> (section, element size)
    'idna_stage1': ('idna_stage1', 2), 'idna_stage2': ('idna_stage2', 2), 'idna_bool_blocks': ('idna_bool_blocks', 8),
    'idna_utf8_mappings': ('idna_utf8_mappings', 1), 'decomposition_index': ('decomposition_index', 1),
    'decomposition_block_flat': ('decomposition_block', 2), 'decomposition_data': ('decomposition_data', 4),
    'ccc_index': ('ccc_index', 1), 'ccc_block_flat': ('ccc_block', 1), 'composition_index': ('composition_index', 1),
    'composition_block_flat': ('composition_block', 2), 'composition_data': ('composition_data', 4),
    'id_continue': ('id_continue_flat', 4), 'id_start': ('id_start_flat', 4), 'dir_start': ('dir_start', 4),
    'dir_final': ('dir_final', 4), 'dir_value': ('dir_value', 1), 'combining_ranges': ('combining_flat', 4)}
DT = {1: '<u1', 2: '<u2', 4: '<u4', 8: '<u8'}

class TableError(Exception): pass
class Tables:
    def __init__(self):
        txt = open(extract.REPO + "/src/table_blob.inc").read()
        self.k = {a: int(b.rstrip('uU'), 0) for a, b in re.findall(r'constexpr\s+\w+\s+(\w+)\s*=\s*(0x[0-9A-Fa-f]+u?|\d+u?)\s*;', txt)}
        m = re.search(r'\bcompressed\[\]\s*=\s*\{(.*?)\}', txt, re.S)
        if not m: raise TableError("no compressed[] array")
        self.comp = bytes(int(x, 16) for x in re.findall(r'0x([0-9a-fA-F]{1,2})', m.group(1)))
        try:
            d = zlib.decompressobj(-15); self.raw = d.decompress(self.comp)
        except zlib.error as e: raise TableError("table stream: %s" % e)
        if len(self.raw) != self.k['uncompressed_size']: raise TableError("table stream inflates to %d bytes" % len(self.raw))
        self.crc_ok = zlib.crc32(self.raw) == self.k['uncompressed_crc32']
        self.t = {}
        for g, (s, w) in SECT.items():
            o, c = self.k['off_' + s], self.k['count_' + s]
            self.t[g] = np.frombuffer(self.raw, DT[w], c, o).astype(np.int64 if w < 8 else np.uint64)
        self.checked = []        # (name, ok)
    def check(self, name, ok):
        """one exhaustively evaluated table fact; a proof may use it only if it evaluated to true"""
        self.checked.append((name, bool(ok)))
        return bool(ok)
_T = []
def tables():
    if not _T: _T.append(Tables())
    return _T[0]

def ufun(g):
    w = SECT[g][1]
    return z3.Function("tab." + g, B64, z3.BitVecSort(8 * w))

class TableMem:
    """regions and ghost state of the published tables in one verification"""
    def __init__(self, world):
        self.w = world; self.T = tables()
        self.ready = z3.Const("tables.ready", z3.BoolSort())
        self.reg = {}; self.cell = {}; self.st = {}
        self.dem = {}
    def global_region(self, eng, st, name, g):
        b = self.dem.get(name)
        if b is None:
            m = re.match(r'_ZN3ada4idna\d+(\w+)E$', name); b = m.group(1) if m else name; self.dem[name] = b
        if b in SECT:
            if b not in self.cell:
                s, w = SECT[b]
                r = Region(b, w, c64(len(self.T.t[b])), 'data', False); self.reg[b] = r
                c = Region("&" + b, 8, c64(1), 'cell', False); self.cell[b] = c
                eng.rnames[r.id] = b; eng.rnames[c.id] = "&" + b
            r, c = self.reg[b], self.cell[b]
            if r.id not in st.mem: st.mem[r.id] = Base(ufun(b), 8 * r.esz)
            if c.id not in st.mem: st.mem[c.id] = Cell(MaybePtr(z3.Not(self.ready), Ptr(r, c64(0))))
            return Ptr(c, c64(0))
        if b == 'tables_init_state':
            if b not in self.cell:
                c = Region("&" + b, 1, c64(1), 'cell', False); self.cell[b] = c
            c = self.cell[b]
            if c.id not in st.mem: st.mem[c.id] = Cell(UNDEF)
            return Ptr(c, c64(0))
        return None
    def state_cell(self, p): return isinstance(p, Ptr) and p.r is self.cell.get('tables_init_state')
    def atomic_load(self, eng, st, p, I):
        if not self.state_cell(p): raise Unsupported("atomic load")
        v = fbv("init_state", 8)
        # another thread's release store of READY happens-before this acquire load (C16)
        st.assume(z3.Implies(v == 2, self.ready)); return v
    # ---- sorted tables: lb(c) = number of keys below c
    def sorted_table(self, g):
        """(key decl, n keys, stride, key offset) of a table whose keys are evaluated to be ascending"""
        if g not in self.st:
            v = self.T.t[g]
            if g in RANGES:
                lo, hi = v[0::2], v[1::2]
                ok = self.T.check(g + "/sorted-disjoint-ranges", len(lo) == len(hi) and (lo <= hi).all() and (hi[:-1] < lo[1:]).all() and v.max() < 1 << 31)
                self.st[g] = SortedT(self.w, ufun(g), len(lo), 2, 1, g) if ok else None
            else:
                ok = g in SORTED and self.T.check(g + "/strictly-increasing", (v[:-1] < v[1:]).all() and v.max() < 1 << 31)
                self.st[g] = SortedT(self.w, ufun(g), len(v), 1, 0, g) if ok else None
        return self.st[g]
    def sorted_of_region(self, r):
        for g, x in self.reg.items():
            if x is r: return self.sorted_table(g) if g in RANGES or g in SORTED else None
        return None
    def values_of(self, r):
        for g, x in self.reg.items():
            if x is r: return self.T.t[g]
        return None
    def in_ranges(self, g, cp):
        """membership of cp in the range table g"""
        t = self.sorted_table(g); L = t.lb(cp)
        return z3.And(z3.ULT(L, c64(t.n)), z3.ULE(t.f(2 * L), cp))

class SortedT:
    """ascending keys f(stride*k+off), k<n; lb(c) is the number of keys below c"""
    def __init__(self, w, f, n, stride, off, name):
        self.w, self.f, self.n, self.stride, self.off, self.name = w, f, n, stride, off, name
        self.lbf = z3.Function("lb." + name, f.range(), B64); self.reg = set()
    def lb(self, c): return self.lbf(c)
    def register(self, eng, c):
        """partition facts for one compared value (definition of lb on an ascending table)"""
        if c.get_id() in self.reg: return
        self.reg.add(c.get_id()); self.keep = getattr(self, 'keep', []) + [c]
        f, n, s = self.f, self.n, self.stride; L = self.lb(c)
        if s == 1:
            eng.gfacts.append(Fact("sorted " + self.name, f, lambda x: [z3.Implies(z3.ULT(x, c64(n)), z3.And(z3.ULT(f(x), c) == z3.ULT(x, L), z3.ULE(L, c64(n))))]))
        else:
            def fn(x):
                k = z3.LShR(x, 1); odd = z3.Extract(0, 0, x) == 1; inb = z3.ULT(x, c64(2 * n))
                return [z3.ULE(L, c64(n)), z3.Implies(z3.And(inb, odd), z3.ULT(f(x), c) == z3.ULT(k, L)),
                        z3.Implies(z3.And(inb, z3.Not(odd), z3.ULT(k, L)), z3.ULT(f(x), c)),
                        z3.Implies(z3.And(inb, z3.Not(odd), z3.UGT(k, L)), z3.UGT(f(x), c))]
            eng.gfacts.append(Fact("ranges " + self.name, f, fn))
        eng.gfacts.append(Fact("lb " + self.name, self.lbf, lambda y: [z3.ULE(self.lbf(y), c64(n))]))

RANGES = ('id_start', 'id_continue', 'combining_ranges')
SORTED = ('dir_final', 'dir_start')

def loop_uses(eng, h):
    """names of the globals and integer constants used inside a loop"""
    c = eng.__dict__.setdefault('_loop_uses', {})
    if h not in c:
        out = set(); ks = set()
        def scan(v):
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'glob': out.add(v[1])
            elif isinstance(v, tuple) and len(v) == 2 and v[0] == 'int': ks.add(v[1])
            elif isinstance(v, (tuple, list)):
                for x in v: scan(x)
        for b in eng.loops.body[h]:
            for I in eng.f.blocks[b].phis + eng.f.blocks[b].insts:
                scan(I.a)
                if I.op == 'switch': ks.update(cv for cv, lab in I.a[2])
        c[h] = (sorted(out), ks)
    return c[h]
def loop_globals(eng, h): return loop_uses(eng, h)[0]

def auto_lb(eng, view, ev):
    """binary search loops: every sorted table touched, every 32-bit value that can be compared"""
    tabs = {}
    def see(r):
        t = eng.w.sorted_of(eng, r)
        if t is not None: tabs[t.name] = t
    for n, v in list(view.phis.items()) + [(u, view.st.env[u]) for u in view.live]:
        if isinstance(v, Ptr) and v.r.kind == 'data': see(v.r)
        if isinstance(v, Ptr) and v.r.kind == 'cell' and isinstance(view.st.mem[v.r.id], Cell):
            p = view.st.mem[v.r.id].v
            if isinstance(p, MaybePtr): p = p.p
            if isinstance(p, Ptr): see(p.r)
    for g in loop_globals(eng, view.hdr):
        m = re.match(r'_ZN3ada4idna\d+(\w+)E$', g); g = m.group(1) if m else g
        if g in RANGES or g in SORTED:
            t = eng.w.table_mem().sorted_table(g)
            if t is not None: tabs[t.name] = t
    if not tabs: return []
    cs = {}
    for u, t in live_terms(view, 32): cs[u] = t
    for u in view.live:
        v = view.st.env[u]
        if isinstance(v, Ptr) and v.r.kind == 'data' and v.r.esz == 4 and eng.w.sorted_of(eng, v.r) is None and v.r.id not in view.mod:
            cs["*" + u] = read(view.st.mem[v.r.id], v.off)
    cs = {k: c for k, c in cs.items() if not isnum(c)}
    out = []
    for t in tabs.values():
        for u, c in cs.items():
            t.register(eng, c)
            out += lb_cands(eng, view, t.lb(c), t.n, "%s(%s)" % (t.name, u), t.stride)
    return out

def lb_cands(eng, view, L, n, tag, s):
    out = []; pos = positions(view)
    Ls = L * c64(s) if s > 1 else L
    for nm, g in pos:
        if s == 2:
            out.append(Cand("even(%s)" % nm, lambda V, g=g: z3.Extract(0, 0, g(V)) == 0))
            out.append(Cand("odd(%s)" % nm, lambda V, g=g: z3.Extract(0, 0, g(V)) == 1))
        for k, lk in ((s, Ls),) if s == 1 else ((s, Ls), (1, L)):
            out.append(Cand("%s<=%d*lb.%s" % (nm, k, tag), lambda V, g=g, lk=lk: z3.ULE(g(V), lk)))
            out.append(Cand("%s>=%d*lb.%s" % (nm, k, tag), lambda V, g=g, lk=lk: z3.UGE(g(V), lk)))
            out.append(Cand("%s<=%d*n.%s" % (nm, k, tag), lambda V, g=g, k=k: z3.ULE(g(V), c64(k * n))))
    for n1, g1 in pos:
        for n2, g2 in pos:
            if n1 == n2: continue
            for k, lk in ((s, Ls),) if s == 1 else ((s, Ls), (1, L)):
                out.append(Cand("%d*lb.%s-%s<=%d*%s" % (k, tag, n1, k, n2), lambda V, g1=g1, g2=g2, k=k, lk=lk: z3.And(z3.ULE(lk - g1(V), g2(V) * c64(k)), z3.ULE(g2(V), c64(n)))))
                out.append(Cand("%s+%d*%s<=%d*n.%s" % (n1, k, n2, k, tag), lambda V, g1=g1, g2=g2, k=k: z3.And(z3.ULE(g2(V), c64(n)), z3.ULE(g1(V) + g2(V) * c64(k), c64(k * n)))))
    return out

# ---------------------------------------------------------------- shipped data by code point
BIDI = "NONE BN CS ES ON EN L R NSM AL AN ET WS RLO LRO PDF RLE RLI FSI PDI LRI B S LRE".split()
COLS = 'status mapping bidi ccc nfd combining not_nfc id_start id_continue joining virama'.split()
_S = {}
def shipped(col, f="shipped"):
    """column of data/<f>.txt as a list over all 0x110000 code points"""
    if f not in _S:
        d = {c: [None] * 0x110000 for c in COLS}
        for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", f + ".txt")):
            if l[0] == '#': continue
            p = l.rstrip("\n").split(";"); a, b = int(p[0], 16), int(p[1], 16) + 1
            for c, x in zip(COLS, p[2:]): d[c][a:b] = [x] * (b - a)
        _S[f] = d
    return _S[f][col]
def cpset(col, vals=('1',), f="shipped"): return frozenset(i for i, x in enumerate(shipped(col, f)) if x in vals)
def expand_ranges(v):
    a = np.zeros(0x110000, bool)
    for lo, hi in zip(v[0::2], v[1::2]): a[int(lo):int(hi) + 1] = True
    return a
def col_bool(col, f="shipped"): return np.array([x == '1' for x in shipped(col, f)])
