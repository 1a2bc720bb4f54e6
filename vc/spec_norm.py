"""C05, C17, C18: contracts of the normalization functions.

CCC(c), DL(c), DV(c,k): combining class, length and k-th code point of the full canonical decomposition (DL = 0: none;
Hangul syllables arithmetically); evaluated against the shipped data of every code point.
PC(i): number of code points the decomposition of the elements before i has."""
from world import *
from tables import *
from spec_map import prefix_sum, z64
from seq import *; from seq import _fresh_counter
B8 = z3.BitVecSort(8); B16 = z3.BitVecSort(16); B32 = z3.BitVecSort(32); BOOL = z3.BoolSort()
CCC = z3.Function("norm.ccc", B32, B8)
DL = z3.Function("norm.declen", B32, B64)
DV = z3.Function("norm.dec", B32, B64, B32)
MAXDL = 18
SB, LB, VB, TB, SC = 0xAC00, 0x1100, 0x1161, 0x11A7, 11172
def c32(x): return BV(x, 32)
def inr(c, lo, n): return z3.And(z3.UGE(c, c32(lo)), z3.ULT(c, c32(lo + n)))
def hangul(c): return inr(c, SB, SC)
def valid(c): return z3.ULT(c, c32(0x110000))

def rowoff(index, cols, c):
    """offset of the cell of c in a two-stage table"""
    return z64(ufun(index)(z64(z3.LShR(c, 8)))) * c64(cols) + z64(c & c32(255))
def layout_ccc(c): return z3.If(valid(c), ufun('ccc_block_flat')(rowoff('ccc_index', 256, c)), BV(0, 8))
def dcell(c, j=0): return ufun('decomposition_block_flat')(add(rowoff('decomposition_index', 257, c), c64(j)))
def dbase(c): return z64(z3.LShR(dcell(c), BV(2, 16)))
def draw(c): return z64(z3.LShR(dcell(c, 1), BV(2, 16))) - dbase(c)
def layout_dl(c):
    s = c - c32(SB)
    return z3.If(hangul(c), z3.If(z3.URem(s, c32(28)) == 0, c64(2), c64(3)),
                 z3.If(valid(c), z3.If((dcell(c) & BV(1, 16)) != 0, c64(0), draw(c)), c64(0)))
def layout_dv(c, k):
    s = c - c32(SB)
    h = z3.If(k == 0, c32(LB) + z3.UDiv(s, c32(588)), z3.If(k == 1, c32(VB) + z3.UDiv(z3.URem(s, c32(588)), c32(28)), c32(TB) + z3.URem(s, c32(28))))
    return z3.If(hangul(c), h, ufun('decomposition_data')(dbase(c) + k))

_D = {}
def two_stage(T, name, index, block, cols, rows):
    ix, bl = T.t[index], T.t[block]
    return T.check(name + "/index-covers-every-code-point", len(ix) * 256 >= 0x110000) and T.check(name + "/every-block-number-is-inside", len(bl) == rows * cols and (ix < rows).all())
def ccc_data(T):
    if 'ccc' in _D: return _D['ccc']
    _D['ccc'] = None
    rows = len(T.t['ccc_block_flat']) // 256
    if not two_stage(T, "ccc", 'ccc_index', 'ccc_block_flat', 256, rows): return None
    cp = np.arange(0x110000); v = T.t['ccc_block_flat'][T.t['ccc_index'][cp >> 8] * 256 + (cp & 255)]
    T.check("ccc/every-code-point-has-its-shipped-combining-class", all((int(x) == int(y or 0)) for x, y in zip(v, shipped('ccc'))))
    _D['ccc'] = v
    return v
def dec_data(T):
    """(lengths, canonical flags, base) per code point"""
    if 'dec' in _D: return _D['dec']
    _D['dec'] = None
    bl, dd = T.t['decomposition_block_flat'], T.t['decomposition_data']; rows = len(bl) // 257
    if not two_stage(T, "decomposition", 'decomposition_index', 'decomposition_block_flat', 257, rows): return None
    cp = np.arange(0x110000); o = T.t['decomposition_index'][cp >> 8] * 257 + (cp & 255)
    a, b = bl[o], bl[o + 1]; ln = (b >> 2) - (a >> 2)
    ok = T.check("decomposition/lengths-between-0-and-%d" % MAXDL, ((ln >= 0) & (ln <= MAXDL)).all())
    ok = T.check("decomposition/every-decomposition-is-inside-the-data", (((a >> 2) + ln) <= len(dd)).all()) and ok
    ok = T.check("decomposition/values-are-code-points", (dd < 0x110000).all()) and ok
    if not ok: return None
    can = np.where((a & 1) != 0, 0, ln); nfd = shipped('nfd'); good = True
    for c in range(0x110000):
        want = [int(x, 16) for x in nfd[c].split()] if nfd[c] else []
        if 0xAC00 <= c < 0xAC00 + SC: good &= can[c] == 0; continue
        n = int(can[c]); base = int(a[c] >> 2)
        if n != len(want) or (n and [int(x) for x in dd[base:base + n]] != want): good = False; break
    T.check("decomposition/every-code-point-has-its-shipped-canonical-decomposition", good)
    _D['dec'] = (can, a >> 2)
    return _D['dec']

def ccc_facts(eng, layout):
    T = eng.w.table_mem().T
    if ccc_data(T) is None: return
    rows = len(T.t['ccc_block_flat']) // 256; ix = ufun('ccc_index')
    eng.gfacts.append(Fact("ccc-index", ix, lambda x: [z3.Implies(z3.ULT(x, c64(4352)), z3.ULT(ix(x), BV(rows, 8)))]))
    if layout: eng.gfacts.append(Fact("ccc-layout", CCC, lambda c: [CCC(c) == layout_ccc(c)], maxgen=2))
    else: eng.gfacts.append(Fact("ccc-range", CCC, lambda c: [z3.Or(valid(c), CCC(c) == 0)], maxgen=3))
def dec_facts(eng, layout, skip=()):
    skip = {x.get_id() for x in skip}       # the length of these follows by congruence from the elements the code reads
    T = eng.w.table_mem().T
    if dec_data(T) is None: return
    rows = len(T.t['decomposition_block_flat']) // 257; ix = ufun('decomposition_index'); nd = len(T.t['decomposition_data'])
    eng.gfacts.append(Fact("dec-index", ix, lambda x: [z3.Implies(z3.ULT(x, c64(4352)), z3.ULT(ix(x), BV(rows, 8)))]))
    def lay(c):
        return [DL(c) == layout_dl(c), z3.ULE(DL(c), c64(MAXDL)), z3.Implies(valid(c), z3.And(z3.ULE(z3.LShR(dcell(c), BV(2, 16)), z3.LShR(dcell(c, 1), BV(2, 16))), z3.ULE(draw(c), c64(MAXDL)), z3.ULE(dbase(c) + draw(c), c64(nd))))]
    if layout:
        eng.gfacts.append(Fact("dec-layout", DL, lambda c: lay(c) if c.get_id() not in skip else [z3.ULE(DL(c), c64(MAXDL))], maxgen=1))
        eng.gfacts.append(Fact("dec-values", DV, lambda c, k: [DV(c, k) == layout_dv(c, k)], maxgen=1))
    else: eng.gfacts.append(Fact("dec-range", DL, lambda c: [z3.ULE(DL(c), c64(MAXDL)), z3.Implies(z3.Not(valid(c)), DL(c) == 0)], maxgen=3))

class GetCcc(Contract):
    """the combining class of any 32-bit value (tables available); 0 above U+10FFFF"""
    def setup(self, eng, st):
        self.c = fbv("cp", 32); self.pvals(eng, st, [self.c]); st.assume(eng.w.table_mem().ready)
        ccc_facts(eng, True); st.assume(CCC(self.c) == layout_ccc(self.c))
    def post(self, eng, st, ret, line):
        eng.oblige(st, "post/returns-the-combining-class", ret == CCC(self.c), line)
    def call(self, eng, st, I, vals):
        eng.oblige(st, "call/get_ccc/tables-available", eng.w.table_mem().ready, I.line)
        st.env[I.res] = CCC(vals[0])

class CanonicalLength(Contract):
    """length of the canonical decomposition; 0 for Hangul syllables, for compatibility decompositions and beyond U+10FFFF"""
    def setup(self, eng, st):
        self.c = fbv("cp", 32); self.pvals(eng, st, [self.c]); st.assume(eng.w.table_mem().ready)
        dec_facts(eng, True); st.assume(z3.ULE(DL(self.c), c64(MAXDL)))
    def val(self, c): return z3.If(hangul(c), c64(0), DL(c))
    def post(self, eng, st, ret, line):
        eng.oblige(st, "post/returns-the-length-of-the-canonical-decomposition", ret == self.val(self.c), line)
    def call(self, eng, st, I, vals):
        eng.oblige(st, "call/canonical_decomp_length/tables-available", eng.w.table_mem().ready, I.line)
        st.env[I.res] = self.val(vals[0])

# ---------------------------------------------------------------- decomposition of a string
SOMED = z3.Function("seq.decomposes", SEQ, BOOL)      # some element has a decomposition
DECLEN = z3.Function("seq.declen", SEQ, B64)          # length of the decomposed string
DECOMP = z3.Function("seq.decomposed", SEQ, SEQ)
SORTED_ = z3.Function("seq.sorted", SEQ, SEQ)         # stable sort of every run of non-starters by combining class
COMPOSED = z3.Function("seq.composed", SEQ, SEQ)      # canonical composition
LIM = 1 << 34
def W(c): d = DL(c); return z3.If(d == 0, c64(1), d)

class Dec:
    """the decomposition of A[0..n)"""
    def __init__(self, eng, st, c, A, n, back=False):
        self.A, self.n = A, n
        self.PC = ffun("dec.before", B64, B64); self.J, self.K = fbv("J", 64), fbv("K", 64); J = self.J
        dec_facts(eng, True, [A(J)])
        st.assume(z3.ULT(J, n)); st.assume(z3.ULT(self.K, W(A(J))))
        prefix_sum(eng, st, c.name, self.PC, lambda i: W(A(i)), n, MAXDL, [J, J + 1], back=back)
        # every element contributes at least one code point
        PC = self.PC
        st.assume(Fact("sum-at-least", PC, lambda p: [z3.Implies(z3.ULE(p, n), z3.ULE(p, PC(p)))], maxgen=3))
        p, v, w = fbv("lemma", 64), fbv("lemma", 64), fbv("lemma", 64)
        eng.lemma("sum-at-least-step", z3.Implies(z3.And(z3.ULE(p, v), z3.UGE(w, 1), z3.ULE(w, c64(MAXDL)), z3.ULT(v, c64(1 << 45))), z3.ULE(p + 1, v + w)))
    def val(self, j, k):
        c = self.A(j); return z3.If(DL(c) == 0, c, DV(c, k))

class ComputeLength(Contract):
    """(is there an element with a decomposition, number of code points the decomposition adds)"""
    def setup(self, eng, st):
        n = self.n = z3.ZeroExt(64 - 34, fbv("len", 34)); A = self.A = ffun("in", B64, B32)
        r = self.data(eng, st, "in", 4, n, A); self.pvals(eng, st, [n, Ptr(r, c64(0))]); st.assume(eng.w.table_mem().ready)
        self.d = Dec(eng, st, self, A, n); self.some = fbool("some.decomposes")
        st.assume(Fact("decomposes-witness", A, lambda k: [z3.Implies(z3.And(z3.ULT(k, n), DL(A(k)) != 0), self.some)]))
    def none(self, i): return FA(lambda k: z3.Implies(z3.ULT(k, i), DL(self.A(k)) == 0), [self.A], name="plain")
    @property
    def templates(self): return [self.tmpl]
    def tmpl(self, eng, view, ev):
        d = self.d; out = self.cands_pair(eng, view, "extra", lambda V, p, o: z3.And(z3.ULE(p, d.n), o == d.PC(p) - p))
        flags = [(nm, lambda V, nm=nm: V.phis[nm]) for nm, v in view.phis.items() if isinstance(v, z3.BoolRef)] + [(nm, lambda V, g=g: g(V) != 0) for nm, g in ints(view, 8)]
        for nm, f in flags:
            out.append(Cand("flag-only-if(%s)" % nm, lambda V, f=f: z3.Implies(f(V), self.some)))
            for pn, g in positions(view):
                def mk(V, f=f, g=g):
                    q = self.none(g(V)); return FA(lambda k: z3.Or(f(V), q.body(k)), q.triggers, name="plain")
                out.append(Cand("flag(%s,%s)" % (nm, pn), mk))
        return out
    def post(self, eng, st, ret, line):
        d = self.d; fl, extra = ret; fl = z3.Extract(0, 0, fl) == 1 if not z3.is_bool(fl) else fl
        eng.oblige(st, "post/true-only-if-an-element-decomposes", z3.Implies(fl, self.some), line)
        g = self.none(d.n)
        eng.oblige(st, "post/false-only-if-none-decomposes", FA(lambda k: z3.Or(fl, g.body(k)), g.triggers), line)
        eng.oblige(st, "post/second-is-the-number-of-added-code-points", extra == d.PC(d.n) - d.n, line)
    def call(self, eng, st, I, vals):
        n, p = vals; S = seq_of(eng, st, p, n, "dec.in")
        eng.oblige(st, "call/compute_decomposition_length/tables-available", eng.w.table_mem().ready, I.line)
        eng.oblige(st, "call/compute_decomposition_length/length", z3.ULT(n, c64(LIM)), I.line)
        st.assume(z3.ULE(n, DECLEN(S))); st.assume(z3.ULE(DECLEN(S), n * c64(MAXDL))); st.assume(z3.Or(SOMED(S), DECLEN(S) == n))
        st.env[I.res] = [z3.If(SOMED(S), BV(1, 8), BV(0, 8)), DECLEN(S) - n]

class Decompose(Contract):
    """replaces every element by its full canonical decomposition, given the number of code points that adds"""
    ort = 500
    def setup(self, eng, st):
        n = self.n = z3.ZeroExt(64 - 34, fbv("len", 34)); A = self.A = ffun("in", B64, B32)
        self.sp, self.rp, self.rn, buf = self.string(eng, st, "input", 4, n, A)
        self.d = Dec(eng, st, self, A, n, True); st.assume(eng.w.table_mem().ready)
        self.pvals(eng, st, [self.sp, self.d.PC(n) - n])
    def content_ok(self, st, lo):
        d = self.d; p = st.mem[self.rp.id].v
        if not isinstance(p, Ptr): return z3.BoolVal(False)
        at = d.PC(d.J) + d.K
        return z3.Implies(z3.UGE(at, lo), read(st.mem[p.r.id], add(p.off, at)) == d.val(d.J, d.K))
    def untouched(self, st, hi):
        p = st.mem[self.rp.id].v
        if not isinstance(p, Ptr): return z3.BoolVal(False)
        c = st.mem[p.r.id]
        return FA(lambda k: z3.Implies(z3.And(z3.ULT(sub(k, p.off), hi), z3.ULT(sub(k, p.off), self.n)), read(c, k) == self.A(sub(k, p.off))), base_decls(c), name="untouched")
    @property
    def templates(self): return [self.tmpl]
    def tmpl(self, eng, view, ev):
        d = self.d
        out = self.cands_pair(eng, view, "at", lambda V, p, o: z3.And(z3.ULE(p, d.n), o == d.PC(p)))
        out += self.cands_one(eng, view, "content", lambda V, w: self.content_ok(V.st, w))
        out += self.cands_one(eng, view, "untouched", lambda V, p: self.untouched(V.st, p))
        # an inner loop writing one decomposition from its end: positions shift by the number still to write
        lows = [(u, t) for u, t in live_terms(view, 64)]
        for cn, cg in ints(view, 16) + ints(view, 64):
            for pn, pg in positions(view):
                if pn == cn: continue
                c0, p0 = cg(ev), pg(ev); z = lambda x: z64(x) if x.size() < 64 else x
                out.append(Cand("step(%s,%s)" % (cn, pn), lambda V, cg=cg, pg=pg, c0=c0, p0=p0, z=z: z3.And(pg(V) == p0 - (z(c0) - z(cg(V))), z3.ULE(z(cg(V)), z(c0)))))
        for u, t in lows: out.append(Cand("untouched-live(%s)" % u, lambda V, t=t: self.untouched(V.st, t)))
        return out
    def post(self, eng, st, ret, line):
        d = self.d
        eng.oblige(st, "post/size-of-the-result", st.mem[self.rn.id].v == d.PC(d.n), line)
        eng.oblige(st, "post/result-is-the-concatenation-of-the-decompositions", self.content_ok(st, c64(0)), line)
    def call(self, eng, st, I, vals):
        sp, extra = vals; p, n = string_data(st, sp); S = seq_of(eng, st, p, n, "dec.in")
        eng.oblige(st, "call/decompose/tables-available", eng.w.table_mem().ready, I.line)
        eng.oblige(st, "call/decompose/length", z3.ULT(n, c64(LIM)), I.line)
        for t in st.ghost.get('seqs', ()): extensional(st, S, t)
        eng.oblige(st, "call/decompose/the-number-of-added-code-points-is-right", extra == DECLEN(S) - n, I.line)
        R = DECOMP(S); st.assume(LEN(R) == DECLEN(S)); put_seq(eng, st, sp, R, 4, "decomposed")
