"""C16: contracts of the one-time table initialisation.

Global invariant (checked at every atomic operation of this call, relied on for the other threads):
the state only moves 0 -> 1 -> 2 or 0 -> 1 -> 3; the thread whose compare-exchange made 0 -> 1 is the
only one that writes the table pointers or the state; the step 1 -> 2 is a release store, made only when
every pointer designates its own section of one buffer filled and verified by the initializer."""
from world import *
from tables import *
READY, FAILED, UNINIT, BUSY = 2, 3, 0, 1
ACQ = ('acquire', 'acq_rel', 'seq_cst'); REL = ('release', 'acq_rel', 'seq_cst')
B32 = z3.BitVecSort(32)
CRCS = z3.Function("crc.state", B64, B32)

class InitMem(TableMem):
    """the tables while they are being initialised"""
    def __init__(self, w, c):
        super().__init__(w); self.c = c
        # ghost: what this call knows of the state (0 nothing, 2 ready seen, 3 failed seen); its own part (0 none, 1 initializer, 2/3 its outcome)
        self.seen = Region("ghost.seen", 1, c64(1), 'cell'); self.own = Region("ghost.own", 1, c64(1), 'cell')
    def start(self, eng, st):
        for r in (self.seen, self.own): st.mem[r.id] = Cell(BV(0, 8)); eng.rnames[r.id] = r.name
    def get(self, st, r): return st.mem[r.id].v
    def put(self, eng, st, r, v): st.mem[r.id] = Cell(simp(v)); eng.note_write(st, r)
    def global_region(self, eng, st, name, g):
        m = re.match(r'_ZN3ada4idna\d+(\w+)E$', name); b = m.group(1) if m else name
        if b in SECT or b == 'tables_buffer':
            if b not in self.cell:
                c = Region("&" + b, 8, c64(1), 'cell'); self.cell[b] = c; eng.rnames[c.id] = "&" + b
                c.guard = lambda e, s, line: e.oblige(s, "guarantee/only-the-initializer-writes-table-pointers-and-before-READY", self.get(s, self.own) == BUSY, line)
            c = self.cell[b]
            if c.id not in st.mem: st.mem[c.id] = Cell(NULL)
            return Ptr(c, c64(0))
        if name == '_ZSt7nothrow':
            if name not in self.cell: self.cell[name] = Region(name, 1, c64(1), 'cell', False)
            st.mem.setdefault(self.cell[name].id, Cell(UNDEF)); return Ptr(self.cell[name], c64(0))
        return super().global_region(eng, st, name, g)
    def observe(self, eng, st, order):
        v = fbv("init_state", 8); seen, own = self.get(st, self.seen), self.get(st, self.own)
        st.assume([z3.ULE(v, BV(3, 8)), z3.Implies(seen == READY, v == READY), z3.Implies(seen == FAILED, v == FAILED), z3.Implies(own != 0, v == own), z3.Implies(v == FAILED, z3.Not(self.ready))])
        if order in ACQ: st.assume(z3.Implies(z3.And(v == READY, own == 0), self.ready))
        return v
    def learn(self, eng, st, v): self.put(eng, st, self.seen, z3.If(z3.Or(v == READY, v == FAILED), v, self.get(st, self.seen)))
    def atomic_load(self, eng, st, p, I):
        if not self.state_cell(p): raise Unsupported("atomic load")
        v = self.observe(eng, st, I.a[1]); self.learn(eng, st, v); return v
    def cmpxchg(self, eng, st, p, a, b, I):
        if not self.state_cell(p): raise Unsupported("compare-exchange")
        eng.oblige(st, "guarantee/compare-exchange-only-from-uninit-to-in-progress", z3.And(a == UNINIT, b == BUSY), I.line)
        eng.oblige(st, "guarantee/not-initializer-twice", self.get(st, self.own) == 0, I.line)
        ok = fbool("won"); st.assume(z3.Implies(ok, self.get(st, self.seen) == 0))
        v = self.observe(eng, st, I.a[4] if len(I.a) > 4 else 'monotonic')
        st.assume(z3.Implies(ok, v == a))
        if not (len(I.a) > 5 and I.a[5] == 'weak'): st.assume(z3.Implies(v == a, ok))
        self.learn(eng, st, v); self.put(eng, st, self.own, z3.If(ok, BV(BUSY, 8), self.get(st, self.own)))
        return [v, ok]
    def atomic_store(self, eng, st, p, v, I):
        if not self.state_cell(p): raise Unsupported("atomic store")
        v = simp(v); L = I.line
        eng.oblige(st, "guarantee/only-the-initializer-stores-the-state-and-once", self.get(st, self.own) == BUSY, L)
        eng.oblige(st, "guarantee/state-moves-to-ready-or-failed-only", z3.Or(v == READY, v == FAILED), L)
        if not isnum(v): raise Unsupported("stored state is not a constant")
        if num(v) == READY: self.publish(eng, st, I)
        self.put(eng, st, self.own, v)
    def publish(self, eng, st, I):
        L = I.line; T = self.T
        eng.oblige(st, "publish/READY-is-a-release-store", I.a[2] in REL, L)
        buf = None
        for g, (s, w) in SECT.items():
            c = self.cell.get(g); v = st.mem[c.id].v if c is not None and c.id in st.mem else NULL
            if isinstance(v, MaybePtr):
                eng.oblige(st, "publish/%s-not-null" % g, z3.Not(v.isnull), L); v = v.p
            ok = isinstance(v, Ptr) and v.r.kind == 'heap' and (buf is None or buf is v.r)
            if ok: buf = v.r
            eng.oblige(st, "publish/%s-designates-its-own-section" % g, z3.And(v.off == c64(T.k['off_' + s]), BV(v.sub, 64) == 0) if ok else False, L)
        if buf is None: return
        eng.oblige(st, "publish/buffer-is-allocated", buf.id not in st.dead, L)
        eng.oblige(st, "publish/buffer-holds-the-whole-table-image", z3.UGE(buf.n, c64(T.k['uncompressed_size'])), L)
        inf = st.ghost.get('inflated'); crc = [x for x in st.ghost.get('crc', ()) if x[0] is buf and x[1] is st.mem[buf.id]]
        eng.oblige(st, "publish/buffer-was-decompressed-in-full", z3.And(inf[2] == c64(T.k['uncompressed_size'])) if inf and inf[0] is buf and inf[1] is st.mem[buf.id] else False, L)
        eng.oblige(st, "publish/checksum-of-the-whole-image-matches", z3.Or([z3.And(x[2] == c64(T.k['uncompressed_size']), x[3] == BV(T.k['uncompressed_crc32'], 32)) for x in crc] + [z3.BoolVal(False)]), L)
        buf.guard = lambda e, s, line: e.oblige(s, "guarantee/published-buffer-is-not-freed", self.get(s, self.own) != READY, line)

class EnsureTables(Contract):
    """returns true only when every table pointer is set to its own section of the verified buffer"""
    def setup(self, eng, st):
        self.mem = eng.w.tab = InitMem(eng.w, self); self.mem.start(eng, st)
        T = self.mem.T
        T.check("blob/stream-inflates-to-the-declared-size", len(T.raw) == T.k['uncompressed_size'])
        T.check("blob/checksum-constant-is-the-CRC-of-the-image", T.crc_ok)
        T.check("blob/compressed-size", len(T.comp) == T.k['compressed_size'])
        sec = sorted((T.k['off_' + s], T.k['off_' + s] + w * T.k['count_' + s], w) for s, w in SECT.values())
        T.check("blob/sections-disjoint-aligned-inside", all(a[1] <= b[0] for a, b in zip(sec, sec[1:])) and sec[-1][1] <= T.k['uncompressed_size'] and all(o % w == 0 for o, e, w in sec))
    @property
    def templates(self): return [self.tmpl]
    def tmpl(self, eng, view, ev):
        out = []
        for r in (self.mem.seen, self.mem.own):
            for k in range(4): out.append(Cand("%s=%d" % (r.name, k), lambda V, r=r, k=k: V.st.mem[r.id].v == k))
        sid = self.mem.seen.id
        out.append(Cand("seen is 0, READY or FAILED", lambda V: z3.Or([V.st.mem[sid].v == x for x in (0, READY, FAILED)])))
        for w in (32, 64):
            for n, g in ints(view, w):
                i0 = g(ev); out.append(Cand("nothing seen after the first %s" % n, lambda V, g=g, i0=i0: z3.Or(V.st.mem[sid].v == 0, g(V) == i0)))
        return out
    def post(self, eng, st, ret, line):
        m, T = self.mem, self.mem.T; own, seen = m.get(st, m.own), m.get(st, m.seen)
        eng.oblige(st, "post/true-only-when-tables-are-published", z3.Implies(ret, z3.Or(own == READY, z3.And(own == 0, m.ready))), line)
        eng.oblige(st, "post/never-false-after-READY-was-seen-or-stored", z3.Implies(z3.Not(ret), z3.And(own != READY, seen != READY)), line)
        eng.oblige(st, "post/initializer-reports-an-outcome-to-the-others", own != BUSY, line)
        g = st.ghost; inf = g.get('inflated'); size = c64(T.k['uncompressed_size'])
        cause = [g.get('alloc-failed', z3.BoolVal(False))] + ([inf[2] != size] if inf else []) + [x[3] != BV(T.k['uncompressed_crc32'], 32) for x in g.get('crc', ()) if inf and x[0] is inf[0] and x[1] is inf[1]]
        eng.oblige(st, "post/initialisation-fails-only-for-a-cause", z3.Implies(own == FAILED, z3.Or(cause)), line)
    def call(self, eng, st, I, vals):
        r = fbool("ensure")
        st.assume(z3.Implies(r, eng.w.table_mem().ready))
        st.env[I.res] = r
        st.ghost['ensured'] = z3.And(st.ghost.get('ensured', z3.BoolVal(True)), r)

class TablesAreReady(Contract):
    """true only when the tables are published"""
    def setup(self, eng, st):
        self.mem = eng.w.tab = InitMem(eng.w, self); self.mem.start(eng, st)
    def post(self, eng, st, ret, line):
        eng.oblige(st, "post/true-only-when-tables-are-published", z3.Implies(ret, self.mem.ready), line)
    def call(self, eng, st, I, vals):
        r = fbool("ready"); st.assume(z3.Implies(r, eng.w.table_mem().ready)); st.env[I.res] = r

class Crc(Contract):
    """the CRC-32 (ISO HDLC) of data[0..len)"""
    def setup(self, eng, st):
        n = self.n = length_var("len"); A = self.A = ffun("data", B64, z3.BitVecSort(8))
        r = self.data(eng, st, "data", 1, n, A)
        self.pvals(eng, st, [Ptr(r, c64(0)), n])
        # definition: state after k bytes
        st.assume(CRCS(c64(0)) == BV(0xFFFFFFFF, 32))
        st.assume(Fact("crc-def", A, lambda k: [CRCS(k + 1) == bits(CRCS(k) ^ z3.ZeroExt(24, A(k)), 8)]))
    @property
    def templates(self): return [self.tmpl]
    def tmpl(self, eng, view, ev):
        out = []
        for n, g in ints(view, 32):
            for pn, p in positions(view): out.append(Cand("crc(%s,%s)" % (n, pn), lambda V, g=g, p=p: g(V) == CRCS(p(V))))
            for kn, kg in ints(view, 32) + ints(view, 64):
                if kn == n: continue
                i0 = g(ev); out.append(Cand("%s = bits(init, %s)" % (n, kn), lambda V, g=g, kg=kg, i0=i0: z3.And(z3.ULE(kg(V), BV(8, kg(V).size())), z3.Or([z3.And(kg(V) == k, g(V) == bits(i0, k)) for k in range(9)]))))
        return out
    def post(self, eng, st, ret, line):
        eng.oblige(st, "post/returns-the-CRC-32-of-the-bytes", ret == ~CRCS(self.n), line)
    def call(self, eng, st, I, vals):
        p, n = vals
        if isinstance(p, MaybePtr): p = p.p
        if not isinstance(p, Ptr): raise Unsupported("crc argument")
        eng.check_access(st, p, n, "crc", I.line)
        r = fbv("crc", 32); st.env[I.res] = r
        if isnum(p.off) and num(p.off) == 0: st.ghost['crc'] = st.ghost.get('crc', ()) + ((p.r, st.mem[p.r.id], n, r),)
def bits(c, k):
    for _ in range(k): c = z3.LShR(c, 1) ^ (BV(0xEDB88320, 32) & (0 - (c & 1)))
    return c
