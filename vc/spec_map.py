"""C04: contract of the mapping step.

LK(c): what the lookup structure of the shipped tables says of c: 0xFFFF valid, 0xFFFE disallowed, otherwise the
offset of a NUL-terminated UTF-8 replacement; evaluated against the shipped status and mapping of every code point.
NL(s), EV(s,k), BP(s,k): length, k-th code point and its byte position of the replacement at offset s.
PC(i): number of code points the elements before i contribute."""
from world import *
from tables import *
B8 = z3.BitVecSort(8); B16 = z3.BitVecSort(16); B32 = z3.BitVecSort(32); BOOL = z3.BoolSort()
LK = z3.Function("map.lookup", B32, B16)
NL = z3.Function("map.len", B16, B64)
EV = z3.Function("map.cp", B16, B64, B32)
BP = z3.Function("map.pos", B16, B64, B64)
ENT = z3.Function("map.entry", B16, BOOL)
VALID, DIS = BV(0xFFFF, 16), BV(0xFFFE, 16)
MAXNL = 18
def z64(x): return z3.ZeroExt(64 - x.size(), x)

def table_lookup(c):
    """the documented two-level layout: block table, bit blocks for pure valid/disallowed blocks, one range of ignored code points"""
    s1, s2, bb = ufun('idna_stage1'), ufun('idna_stage2'), ufun('idna_bool_blocks')
    ref = s1(z64(z3.LShR(c, 6)))
    bit = z3.ZeroExt(16, ref & BV(0x7FFF, 16)) * BV(64, 32) + (c & 63)
    word = bb(z64(z3.LShR(bit, 6)))
    b = z3.Extract(0, 0, z3.LShR(word, z64(bit & 63))) == 1
    low = z3.If(z3.Extract(15, 15, ref) == 1, z3.If(b, VALID, DIS), s2(z64(z3.ZeroExt(16, ref) + (c & 63))))
    return z3.If(z3.ULT(c, BV(0x33480, 32)), low, z3.If(z3.And(z3.UGE(c, BV(0xE0100, 32)), z3.ULT(c, BV(0xE01F0, 32))), BV(0, 16), DIS))

_D = []
def data(T):
    """the layout evaluated for every code point"""
    if _D: return _D[0]
    s1, s2, bb = T.t['idna_stage1'], T.t['idna_stage2'], T.t['idna_bool_blocks']; um = T.t['idna_utf8_mappings']
    ok = T.check("mapping/stage-1-covers-every-code-point-below-33480", len(s1) * 64 >= 0x33480)
    nb = (s1 & 0x8000) != 0
    ok = T.check("mapping/every-block-reference-is-inside", ((s1[nb] & 0x7FFF) < len(bb)).all() and ((s1[~nb] + 63) < len(s2)).all()) and ok
    if not ok: return None
    lk = np.full(0x110000, 0xFFFE, np.int64); cp = np.arange(0x33480)
    ref = s1[cp >> 6]; isb = (ref & 0x8000) != 0
    bit = np.where(isb, (ref & 0x7FFF) * 64 + (cp & 63), 0); val = (bb[bit >> 6] >> (bit & 63).astype(np.uint64)) & np.uint64(1)
    lk[:0x33480] = np.where(isb, np.where(val == 1, 0xFFFF, 0xFFFE), s2[np.where(isb, 0, ref + (cp & 63))]); lk[0xE0100:0xE01F0] = 0
    raw = bytes(int(x) for x in um); ents = {}
    good = True
    for s in sorted(set(int(x) for x in lk if x < 0xFFFE)):
        e = raw.find(b'\0', s) if s < len(raw) else -1
        try: ents[s] = [ord(ch) for ch in raw[s:e].decode('utf-8')] if e >= 0 else None
        except UnicodeDecodeError: ents[s] = None
        if ents[s] is None or len(ents[s]) > MAXNL: good = False
    good = T.check("mapping/every-entry-is-NUL-terminated-well-formed-UTF-8-of-at-most-%d-code-points" % MAXNL, good)
    same = good
    if good:
        for c, (st, mp) in enumerate(zip(shipped('status'), shipped('mapping'))):
            if st is None: same &= lk[c] == 0xFFFE; continue
            want = 0xFFFF if st == 'V' else 0xFFFE if st == 'D' else None
            if want is not None: same &= lk[c] == want
            else: same &= lk[c] < 0xFFFE and ents[int(lk[c])] == ([] if st == 'I' else [int(x, 16) for x in mp.split()])
    T.check("mapping/every-code-point-has-its-shipped-status-and-replacement", same)
    _D.append((lk, ents) if good else None)
    return _D[0]

def map_facts(eng, A, layout=True):
    """facts about the tables, usable once they are evaluated; A: the element function of the input"""
    tab = eng.w.table_mem(); T = tab.T
    d = data(T)
    if d is None: return
    lk, ents = d; n1, n2, nb, nu = [len(T.t[g]) for g in ('idna_stage1', 'idna_stage2', 'idna_bool_blocks', 'idna_utf8_mappings')]
    s1, UM = ufun('idna_stage1'), ufun('idna_utf8_mappings')
    g = eng.gfacts
    g.append(Fact("block-refs", s1, lambda x: [z3.Implies(z3.ULT(x, c64(n1)), z3.If(z3.Extract(15, 15, s1(x)) == 1, z3.ULT(z64(s1(x) & BV(0x7FFF, 16)), c64(nb)), z3.ULT(z64(s1(x)) + 63, c64(n2))))]))
    g.append(Fact("lookup", LK, lambda c: [LK(c) == table_lookup(c), z3.Or(LK(c) == VALID, LK(c) == DIS, ENT(LK(c)))] if layout else [z3.Or(LK(c) == VALID, LK(c) == DIS, ENT(LK(c)))]))
    g.append(Fact("element", A, lambda k: [z3.Or(LK(A(k)) == VALID, LK(A(k)) == DIS, ENT(LK(A(k))))]))
    g.append(Fact("entry-range", ENT, lambda s: [z3.Implies(ENT(s), z3.And(z3.ULT(z64(s), c64(nu)), z3.ULE(NL(s), c64(MAXNL)), BP(s, c64(0)) == z64(s), s != VALID, s != DIS))]))
    def entry(s, k):
        p = BP(s, k)
        alts = [z3.And(c, BP(s, add(k, c64(1))) == p + l, EV(s, k) == v) for l, c, v in sequences(UM, p, c64(nu))]
        inr = z3.ULT(k, NL(s))
        return [z3.Implies(z3.And(ENT(s), inr), z3.And(z3.ULT(p, c64(nu)), z3.Or(alts))),
                z3.Implies(z3.And(ENT(s), k == NL(s)), z3.And(z3.ULT(p, c64(nu)), UM(p) == 0))]
    g.append(Fact("entry-text", BP, entry, maxgen=2))

def prefix_sum(eng, st, key, PC, W, n, bound, marks=(), maxgen=3, back=False):
    """PC(i) = sum of W over the elements before i; W <= bound; monotone (proved by induction here).
    marks: positions every PC(p) is compared with"""
    B = c64(bound); B2 = c64(1 << (bound - 1).bit_length())       # a power of two keeps the bound cheap
    st.assume(PC(c64(0)) == 0)
    st.assume(Fact("sum-step", PC, lambda p: [z3.Implies(z3.ULT(p, n), z3.And(PC(add(p, c64(1))) == PC(p) + W(p), z3.ULE(W(p), B)))], maxgen=min(maxgen, 1)))
    if back: st.assume(Fact("sum-step-back", PC, lambda p: [z3.Implies(z3.And(p != 0, z3.ULE(p, n)), z3.And(PC(p) == PC(add(p, c64(-1))) + W(add(p, c64(-1))), z3.ULE(W(add(p, c64(-1))), B)))], maxgen=0))
    def mono(p):
        out = [z3.Implies(z3.ULE(p, n), z3.ULE(PC(p), p * B2))]
        for m in list(marks) + [n]:
            if m.get_id() == p.get_id(): continue
            out.append(z3.Implies(z3.And(z3.ULE(p, m), z3.ULE(m, n)), z3.ULE(PC(p), PC(m))))
            out.append(z3.Implies(z3.And(z3.ULE(m, p), z3.ULE(p, n)), z3.ULE(PC(m), PC(p))))
        return out
    st.assume(Fact("sum-mono", PC, mono, maxgen=maxgen))
    # induction step of both lemmas, for arbitrary values
    p, q, v, u, w = [fbv("lemma", 64) for _ in range(5)]
    lim = z3.And(z3.ULE(w, B), z3.ULT(p, c64(1 << 40)), z3.ULE(v, p * B2))
    eng.lemma("sum-bound-step", z3.Implies(lim, z3.ULE(v + w, (p + 1) * B2)))
    eng.lemma("sum-mono-step", z3.Implies(z3.And(lim, z3.ULE(u, v)), z3.ULE(u, v + w)))

class Mapped:
    """the mapped form of the elements A[0..n)"""
    def __init__(self, eng, st, c, A, n):
        self.A, self.n = A, n
        self.PC = ffun("map.before", B64, B64)
        self.J, self.K = fbv("J", 64), fbv("K", 64)
        self.bad = fbool("some.disallowed")
        map_facts(eng, A, 'idna_lookup' not in eng.w.names)
        J = self.J
        st.assume(z3.ULT(J, n)); st.assume(z3.ULT(self.K, self.W(J)))
        prefix_sum(eng, st, c.name, self.PC, self.W, n, MAXNL, [J, J + 1])
        st.assume(Fact("disallowed-witness", A, lambda k: [z3.Implies(z3.And(z3.ULT(k, n), LK(A(k)) == DIS), self.bad)]))
    def W(self, i):
        s = LK(self.A(i)); return z3.If(s == VALID, c64(1), z3.If(s == DIS, c64(0), NL(s)))
    def val(self, j, k):
        s = LK(self.A(j)); return z3.If(s == VALID, self.A(j), EV(s, k))

def map_params(self, eng, st):
    n = self.n = z3.ZeroExt(64 - 35, fbv("len", 35)); A = self.A = ffun("in", B64, B32)
    self.r = self.data(eng, st, "in", 4, n, A)
    self.sp, self.rp, self.rn, buf = self.string(eng, st, "out", 4, length_var("oldsize"), cap=length_var("oldcap"))
    st.assume(z3.ULE(st.mem[self.rn.id].v, buf.n))
    self.pvals(eng, st, [n, Ptr(self.r, c64(0)), self.sp])

class Map(Contract):
    """true exactly when the tables are available and no element is disallowed; then out is the concatenation of the mappings"""
    def setup(self, eng, st):
        map_params(self, eng, st)
        self.m = Mapped(eng, st, self, self.A, self.n)
    def content_ok(self, st, w):
        m = self.m; p = st.mem[self.rp.id].v
        if not isinstance(p, Ptr): return z3.BoolVal(False)
        at = m.PC(m.J) + m.K
        return z3.Implies(z3.ULT(at, w), read(st.mem[p.r.id], add(p.off, at)) == m.val(m.J, m.K))
    def nodis(self, i): return FA(lambda k: z3.Implies(z3.ULT(k, i), LK(self.A(k)) != DIS), [self.A], name="allowed")
    @property
    def templates(self): return [self.tmpl]
    def tmpl(self, eng, view, ev):
        m = self.m
        out = self.cands_pair(eng, view, "mapped", lambda V, p, o: z3.And(z3.ULE(p, m.n), o == m.PC(p)))
        out += self.cands_one(eng, view, "content", lambda V, w: self.content_ok(V.st, w))
        out += [Cand("content-at-size", lambda V: self.content_ok(V.st, V.st.mem[self.rn.id].v))]
        out += self.cands_one(eng, view, "allowed", lambda V, p: self.nodis(p))
        out += entry_cands(eng, view, ev)
        return out
    def post(self, eng, st, ret, line):
        m = self.m; ens = st.ghost.get('ensured', z3.BoolVal(False)); sz = st.mem[self.rn.id].v
        eng.oblige(st, "post/success-only-with-tables", z3.Implies(ret, z3.And(ens, eng.w.table_mem().ready)), line)
        g = self.nodis(m.n)
        eng.oblige(st, "post/success-only-without-disallowed-code-points", FA(lambda k: z3.Or(z3.Not(ret), g.body(k)), g.triggers), line)
        eng.oblige(st, "post/failure-only-with-a-disallowed-code-point", z3.Implies(z3.And(z3.Not(ret), ens), m.bad), line)
        eng.oblige(st, "post/result-size", z3.Implies(ret, sz == m.PC(m.n)), line)
        eng.oblige(st, "post/result-is-the-concatenation-of-the-mappings", z3.Implies(ret, self.content_ok(st, sz)), line)

class Lookup(Contract):
    """the 16-bit lookup value the tables give the code point"""
    def setup(self, eng, st):
        self.cp = fbv("cp", 32); self.pvals(eng, st, [self.cp]); st.assume(eng.w.table_mem().ready)
        map_facts(eng, ffun("none", B64, B32)); st.assume(z3.Or(LK(self.cp) == VALID, LK(self.cp) == DIS, ENT(LK(self.cp))))
    def post(self, eng, st, ret, line):
        eng.oblige(st, "post/returns-what-the-tables-say", ret == LK(self.cp), line)
    def call(self, eng, st, I, vals):
        eng.oblige(st, "call/idna_lookup/tables-available", eng.w.table_mem().ready, I.line)
        st.env[I.res] = LK(vals[0])

def um_region(eng, st):
    tab = eng.w.table_mem(); tab.global_region(eng, st, 'idna_utf8_mappings', None)
    return tab.reg['idna_utf8_mappings']
class CountCps(Contract):
    """the number of code points of the replacement text at ptr"""
    def setup(self, eng, st):
        self.s = fbv("entry", 16); r = um_region(eng, st); map_facts(eng, ffun("none", B64, B32))
        st.assume(ENT(self.s)); st.assume(ENT(self.s) == (BP(self.s, c64(0)) == z64(self.s)))
        self.pvals(eng, st, [Ptr(r, z64(self.s))])
    @property
    def templates(self): return [entry_cands]
    def post(self, eng, st, ret, line):
        eng.oblige(st, "post/returns-the-length-of-the-replacement", ret == NL(self.s), line)
    def call(self, eng, st, I, vals):
        p = vals[0]
        if isinstance(p, MaybePtr): eng.oblige(st, "no-null-deref/utf8_count_codepoints", z3.Not(p.isnull), I.line); p = p.p
        if not (isinstance(p, Ptr) and p.r is um_region(eng, st) and p.sub == 0): raise Unsupported("utf8_count_codepoints argument")
        s = simp(z3.Extract(15, 0, p.off))
        eng.oblige(st, "call/utf8_count_codepoints/points-at-an-entry", z3.And(p.off == z64(s), ENT(s)), I.line)
        st.env[I.res] = NL(s)

class NextCp(Contract):
    """decodes the well-formed sequence at *ptr and moves *ptr past it"""
    def setup(self, eng, st):
        B = self.B = ffun("text", B64, B8); n = length_var("size"); r = self.data(eng, st, "text", 1, n, B)
        self.p = length_var("pos"); self.cell = Region("ptr", 8, c64(1), 'cell'); st.mem[self.cell.id] = Cell(Ptr(r, self.p))
        self.seqs = sequences(B, self.p, n); st.assume(z3.Or([c for l, c, v in self.seqs]))
        self.pvals(eng, st, [Ptr(self.cell, c64(0))])
    def post(self, eng, st, ret, line):
        q = st.mem[self.cell.id].v
        if not (isinstance(q, Ptr) and q.sub == 0): eng.oblige(st, "post/pointer", False, line); return
        eng.oblige(st, "post/returns-the-code-point-and-advances-past-it", z3.Or([z3.And(c, ret == v, q.off == self.p + l) for l, c, v in self.seqs]), line)
    def call(self, eng, st, I, vals):
        cell = vals[0]; p = st.mem[cell.r.id].v
        if not (isinstance(p, Ptr) and p.r.esz == 1 and p.sub == 0 and p.r.n is not None): raise Unsupported("utf8_next argument")
        c = st.mem[p.r.id]; seqs = sequences(lambda k: read(c, k), p.off, p.r.n)
        eng.oblige(st, "call/utf8_next/a-well-formed-sequence-is-there", z3.Or([x for l, x, v in seqs]), I.line)
        (l, x, v) = seqs[-1]; ln, val = c64(l), v
        for l, x, v in seqs[-2::-1]: ln, val = z3.If(x, c64(l), ln), z3.If(x, v, val)
        d = fbv("seqlen", 64); st.assume(d == ln)
        st.mem[cell.r.id] = Cell(Ptr(p.r, p.off + d)); eng.note_write(st, cell.r)
        st.env[I.res] = val

def sequences(B, p, n):
    """[(length, condition, value)] for a (lenient) UTF-8 sequence inside the text, not NUL"""
    b = [B(add(p, c64(j))) for j in range(4)]
    r = lambda x, lo, hi: z3.And(z3.UGE(x, BV(lo, 8)), z3.ULE(x, BV(hi, 8)))
    X = lambda x, h, l: z3.Extract(h, l, x); Z = BV
    forms = [(1, r(b[0], 1, 0x7F), z3.ZeroExt(24, b[0])), (2, r(b[0], 0xC2, 0xDF), z3.Concat(Z(0, 21), X(b[0], 4, 0), X(b[1], 5, 0))),
             (3, r(b[0], 0xE0, 0xEF), z3.Concat(Z(0, 16), X(b[0], 3, 0), X(b[1], 5, 0), X(b[2], 5, 0))),
             (4, r(b[0], 0xF0, 0xF4), z3.Concat(Z(0, 11), X(b[0], 2, 0), X(b[1], 5, 0), X(b[2], 5, 0), X(b[3], 5, 0)))]
    return [(l, z3.And(c, z3.ULT(p, n), z3.ULT(p + l, n)), v) for l, c, v in forms]
def entry_cands(eng, view, ev):
    """a pointer into the replacement texts stands at code point (counter - its entry value) of the entry it started at"""
    out = []
    pp = [(nm, r, g) for nm, r, g in ptrs(view)]
    for nm, r, g in pp:
        if r.name != 'idna_utf8_mappings': continue
        off0 = g(ev)
        if isnum(off0): continue
        s = simp(z3.Extract(15, 0, off0))
        for cn, cg in ints(view, 64):
            c0 = cg(ev)
            out.append(Cand("entry(%s,%s)" % (nm, cn), lambda V, g=g, cg=cg, c0=c0, s=s: z3.And(g(V) == BP(s, simp(cg(V) - c0)), z3.ULE(simp(cg(V) - c0), NL(s)))))
    return out

# ---------------------------------------------------------------- the mapping as a function on sequences (for callers)
from seq import *; from seq import _fresh_counter
MAPOK = z3.Function("seq.mappable", SEQ, BOOL)      # no disallowed element
MAPPED = z3.Function("seq.mapped", SEQ, SEQ)        # concatenation of the mappings
def map_call(self, eng, st, I, vals):
    n, p, sp = vals
    S = seq_of(eng, st, p, n, "map.in")
    ens = fbool("map.tables"); ok = fbool("map.ok")
    st.assume(z3.Implies(ens, eng.w.table_mem().ready)); st.assume(ok == z3.And(ens, MAPOK(S)))
    st.ghost['ensured'] = z3.And(st.ghost.get('ensured', z3.BoolVal(True)), ens)
    R = z3.Const("map.out!%d" % next(_fresh_counter), SEQ)
    st.assume(z3.Implies(ok, R == MAPPED(S)))       # on failure the output is some string
    put_seq(eng, st, sp, R, 4, "mapped")
    st.env[I.res] = ok
Map.call = map_call

class MapView(Contract):
    """the mapped string, or the empty string when the mapping fails"""
    def setup(self, eng, st):
        n = z3.ZeroExt(64 - 35, fbv("len", 35)); r = self.data(eng, st, "in", 4, n)
        self.sp, self.rp, self.rn, buf = self.string(eng, st, "result", 4, c64(0))
        self.S = seq_of(eng, st, Ptr(r, c64(0)), n, "in"); self.pvals(eng, st, [self.sp, n, Ptr(r, c64(0))])
        self.st0 = None
    def post(self, eng, st, ret, line):
        ens = st.ghost.get('ensured', z3.BoolVal(False)); S = self.S
        for t in st.ghost.get('seqs', ()): extensional(st, S, t)
        ok = z3.And(ens, MAPOK(S)); a, b = same_as_seq(st, self.sp, MAPPED(S))
        eng.oblige(st, "post/size-of-the-result", z3.Implies(ok, a), line)
        eng.oblige(st, "post/result-is-the-mapped-string", FA(lambda k: z3.Implies(ok, b.body(k)), b.triggers), line)
        eng.oblige(st, "post/empty-on-failure", z3.Implies(z3.Not(ok), string_data(st, self.sp)[1] == 0), line)

def map_columns(T):
    """status and mapping of every code point as the arrays define them (see data)"""
    d = data(T)
    if d is None: return ['?'] * 0x110000, ['?'] * 0x110000
    lk, ents = d; S = []; P = []
    for x in lk:
        x = int(x); e = ents.get(x)
        S.append('V' if x == 0xFFFF else 'D' if x == 0xFFFE else 'I' if not e else 'M'); P.append('' if not e else ' '.join('%x' % v for v in e))
    return S, P
