"""C09, C10: contracts of the label validity functions."""
from world import *
from tables import *
B8 = z3.BitVecSort(8); B32 = z3.BitVecSort(32); BOOL = z3.BoolSort()
DIR = z3.Function("bidi.class", B32, B8)
EN, L_, R_, NSM, AL, AN, ES, CS, ET, ON, BN = [BIDI.index(x) for x in "EN L R NSM AL AN ES CS ET ON BN".split()]
ALLOW_L = (L_, EN, ES, CS, ET, ON, BN, NSM)
ALLOW_R = (R_, AL, AN, EN, ES, CS, ET, ON, BN, NSM)
def among(c, cls): return z3.Or([DIR(c) == BV(x, 8) for x in cls])
def rtl(c): return among(c, (R_, AL, AN))

def label_sets(w):
    j = shipped('joining'); sel = lambda v: frozenset(i for i, x in enumerate(j) if x == v)
    w.sets.update({'virama': cpset('virama'), 'joining-L': sel('1'), 'joining-D': sel('2'), 'joining-R': sel('4')})
def vir(w, c): return w.member(w.sets['virama'], c)
def ld(w, c): return z3.Or(w.member(w.sets['joining-L'], c), w.member(w.sets['joining-D'], c))
def rd(w, c): return z3.Or(w.member(w.sets['joining-R'], c), w.member(w.sets['joining-D'], c))

def table_dir(tab, c):
    """Bidi class as the three direction tables give it"""
    t = tab.sorted_table('dir_final'); lb = t.lb(c)
    return z3.If(z3.And(z3.ULT(lb, c64(t.n)), z3.ULE(ufun('dir_start')(lb), c)), ufun('dir_value')(lb), BV(0, 8))
def dir_facts(eng, st):
    """definition of bidi.class over the tables, and the range of its values"""
    tab = eng.w.table_mem(); T = tab.T; t = tab.sorted_table('dir_final')
    n = len(T.t['dir_final'])
    ok = T.check("dir/same-number-of-rows", len(T.t['dir_start']) == n == len(T.t['dir_value']))
    ok = T.check("dir/classes-below-24", (T.t['dir_value'] <= 23).all()) and ok
    if ok: eng.gfacts.append(Fact("class-range", DIR, lambda c: [z3.ULE(DIR(c), BV(23, 8))]))
    cls = np.zeros(0x110000, np.int64)
    for a, b, v in zip(T.t['dir_start'], T.t['dir_final'], T.t['dir_value']): cls[int(a):int(b) + 1] = int(v)
    T.check("dir/every-code-point-has-its-Bidi-class", (T.t['dir_final'] < 0x110000).all() and all(x is None or int(c) == BIDI.index(x) for c, x in zip(cls, shipped('bidi'))))
    return cls
def dir_definition(eng):
    tab = eng.w.table_mem(); t = tab.sorted_table('dir_final')
    def fn(c):
        t.register(eng, c)
        return [DIR(c) == table_dir(tab, c)]
    eng.gfacts.append(Fact("class-definition", DIR, fn, maxgen=1))

class FindDirection(Contract):
    """the Bidi class of the code point (tables available)"""
    templates = [auto_lb]
    def setup(self, eng, st):
        self.cp = fbv("cp", 32); self.pvals(eng, st, [self.cp])
        tab = eng.w.table_mem(); st.assume(tab.ready)
        dir_facts(eng, st); tab.sorted_table('dir_final').register(eng, self.cp)
        st.assume(DIR(self.cp) == table_dir(tab, self.cp))
    def post(self, eng, st, ret, line):
        eng.oblige(st, "post/returns-the-class-from-the-tables", ret == DIR(self.cp), line)
    def call(self, eng, st, I, vals):
        eng.oblige(st, "call/find_direction/tables-available", eng.w.table_mem().ready, I.line)
        st.assume(z3.ULE(DIR(vals[0]), BV(23, 8)))
        st.env[I.res] = DIR(vals[0])

class Label:
    """a label A[0..n), n < 2^31"""
    def __init__(self, eng, st, c):
        n = self.n = z3.ZeroExt(33, fbv("len", 31)); A = self.A = ffun("label", B64, B32)
        self.r = c.data(eng, st, "label", 4, n, A)
        label_sets(eng.w)
def view_label(eng, st, c):
    l = Label(eng, st, c)
    c.pvals(eng, st, [l.n, Ptr(l.r, c64(0))])
    return l
def arg_label(st, vals):
    n, p = vals[0], vals[1]
    if not isinstance(p, Ptr): raise Unsupported("label argument")
    return n, (lambda k: read(st.mem[p.r.id], add(p.off, k))), base_decls(st.mem[p.r.id]), p.off

class LastNotNsm(Contract):
    """index of the last character that is not NSM; npos if there is none"""
    def setup(self, eng, st):
        l = self.l = view_label(eng, st, self); st.assume(eng.w.table_mem().ready)
        if 'find_direction' not in eng.w.names: dir_facts(eng, st); dir_definition(eng)
    @property
    def templates(self): return [self.tmpl, auto_lb]
    def tmpl(self, eng, view, ev):
        l = self.l
        out = self.cands_one(eng, view, "nsm-from", lambda V, p: self.nsm(p, l.n)) + self.cands_one(eng, view, "nsm-after", lambda V, p: self.nsm(p + 1, l.n))
        for n, g in ints(view, 32):
            out.append(Cand("nsm-after32(%s)" % n, lambda V, g=g: self.nsm(z3.SignExt(32, g(V)) + 1, l.n)))
            out.append(Cand("nsm-from32(%s)" % n, lambda V, g=g: self.nsm(z3.SignExt(32, g(V)), l.n)))
            out.append(Cand("range32(%s)" % n, lambda V, g=g: z3.And(g(V) >= BV(-1, 32), z3.ULE(z3.SignExt(32, g(V)) + 1, l.n))))
        return out
    def nsm(self, a, b): return FA(lambda k: z3.Implies(z3.And(z3.UGE(k, a), z3.ULT(k, b)), DIR(self.l.A(k)) == NSM), [self.l.A], name="nsm")
    def post(self, eng, st, ret, line):
        l = self.l
        eng.oblige(st, "post/npos-or-an-index-of-a-non-NSM-character", z3.Or(ret == c64(2**64 - 1), z3.And(z3.ULT(ret, l.n), DIR(l.A(ret)) != NSM)), line)
        g = self.nsm(ret + 1, l.n)
        eng.oblige(st, "post/only-NSM-after-it", g, line)
    def call(self, eng, st, I, vals):
        n, A, tr, o = arg_label(st, vals)
        eng.oblige(st, "call/find_last_not_of_nsm/tables-available", eng.w.table_mem().ready, I.line)
        eng.oblige(st, "call/find_last_not_of_nsm/length-below-2^31", z3.ULT(n, c64(1 << 31)), I.line)
        r = fbv("lastnonnsm", 64); none = c64(2**64 - 1)
        st.assume(z3.Or(r == none, z3.And(z3.ULT(r, n), DIR(A(r)) != NSM)))
        st.assume(FA(lambda x: z3.Implies(z3.And(z3.ULT(x - o, n), z3.Or(r == none, z3.UGT(x - o, r))), DIR(A(x - o)) == NSM), tr, name="nsm-after"))
        st.env[I.res] = r

class IsRtl(Contract):
    """true exactly when the label has a character of class R, AL or AN"""
    def setup(self, eng, st):
        l = self.l = view_label(eng, st, self); st.assume(eng.w.table_mem().ready)
        if 'find_direction' not in eng.w.names: dir_facts(eng, st); dir_definition(eng)
        self.H = fbool("has-rtl")
        st.assume(Fact("rtl-witness", l.A, lambda k: [z3.Implies(z3.And(z3.ULT(k, l.n), rtl(l.A(k))), self.H)]))
    @property
    def templates(self): return [lambda e, v, ev: rtl_cands(e, v, self.l, self.H), auto_lb]
    def post(self, eng, st, ret, line):
        l = self.l
        eng.oblige(st, "post/true-only-with-an-RTL-character", z3.Implies(ret, self.H), line)
        eng.oblige(st, "post/false-only-without-RTL-characters", FA(lambda k: z3.Or(ret, z3.UGE(k, l.n), z3.Not(rtl(l.A(k)))), [l.A], name="rtl"), line)
    def call(self, eng, st, I, vals):
        n, A, tr, o = arg_label(st, vals)
        eng.oblige(st, "call/is_rtl_label/tables-available", eng.w.table_mem().ready, I.line)
        r = fbool("isrtl"); w = fbv("rtlpos", 64)
        st.assume(z3.Implies(r, z3.And(z3.ULT(w, n), rtl(A(w)))))
        st.assume(FA(lambda x: z3.Or(r, z3.UGE(x - o, n), z3.Not(rtl(A(x - o)))), tr, name="rtl"))
        st.env[I.res] = r
def rtl_cands(eng, view, l, H):
    """loops that look for RTL characters: bit masks of classes seen, flags, plain search"""
    out = []
    for pn, p in label_positions(view, l):
        no = lambda V, p=p, cond=None: FA(lambda k: z3.Implies(z3.And(z3.ULT(k, p(V)), z3.ULT(k, l.n)), z3.Or(z3.Not(rtl(l.A(k))), cond(V))), [l.A], name="rtl")
        for nm, g in ints(view, 64) + ints(view, 32):
            bits = sum(1 << c for c in (R_, AL, AN))
            has = lambda V, g=g: (g(V) & BV(bits, g(V).size())) != 0
            out.append(Cand("mask-has-rtl(%s,%s)" % (nm, pn), lambda V, no=no, has=has: no(V, cond=has)))
        for nm, v in view.phis.items():
            if isinstance(v, z3.BoolRef): out.append(Cand("flag-rtl(%s,%s)" % (nm, pn), lambda V, no=no, nm=nm: no(V, cond=lambda V: V.phis[nm])))
        out.append(Cand("no-rtl-before(%s)" % pn, lambda V, no=no: no(V, cond=lambda V: z3.BoolVal(False))))
    for nm, g in ints(view, 64) + ints(view, 32):
        bits = sum(1 << c for c in (R_, AL, AN))
        out.append(Cand("mask-only-if-rtl(%s)" % nm, lambda V, g=g: z3.Implies((g(V) & BV(bits, g(V).size())) != 0, H)))
    for nm, v in view.phis.items():
        if isinstance(v, z3.BoolRef): out.append(Cand("flag-only-if-rtl(%s)" % nm, lambda V, nm=nm: z3.Implies(V.phis[nm], H)))
    return out

def label_positions(view, l):
    """loop-carried quantities that can be positions in the label"""
    pp = ptrs(view)
    other = any(r is not l.r for n, r, g in pp)
    return ([] if other else ints(view, 64)) + [(n, g) for n, r, g in pp if r is l.r]

def uses_dir(eng, h):
    """does the loop look at Bidi classes (directly, or through one of the helpers under contract)"""
    gl, ks = loop_uses(eng, h); helpers = [eng.w.names.get(k) for k in ('find_direction', 'is_rtl_label', 'find_last_not_of_nsm')]
    return any(g in helpers or '9dir_' in g for g in gl)

class Valid(Contract):
    """shared: ghost description of the label"""
    joiners = bidi = True
    def setup(self, eng, st):
        l = self.l = view_label(eng, st, self); n, A = l.n, l.A; w = eng.w
        tab = w.table_mem(); T = tab.T
        if 'find_direction' not in w.names: dir_definition(eng)
        self.cls = dir_facts(eng, st)
        v = T.t['combining_ranges']; self.comb = expand_ranges(v)
        T.check("combining/ranges-are-the-combining-marks", (self.comb == col_bool('combining')).all())
        self.comb0 = tab.in_ranges('combining_ranges', A(c64(0)))
        tab.sorted_table('combining_ranges').register(eng, A(c64(0)))
        if self.joiners:
            # F: position of the first character of Joining_Type L or D; G: one past the last of type R or D
            self.F, self.G = fbv("firstLD", 64), fbv("lastRD+1", 64); F, G = self.F, self.G
            st.assume([z3.ULE(F, n), z3.ULE(G, n), z3.Implies(z3.ULT(F, n), ld(w, A(F))), z3.Implies(G != 0, rd(w, A(G - 1)))])
            st.assume(Fact("firstLD", A, lambda k: [z3.Implies(z3.And(z3.ULT(k, n), ld(w, A(k))), z3.ULE(F, k)), z3.Implies(z3.And(z3.ULT(k, n), rd(w, A(k))), z3.ULT(k, G))]))
    def badj(self, w, i):
        A = self.l.A
        v = z3.And(i != 0, vir(w, A(i - 1)))
        return z3.Or(z3.And(A(i) == 0x200D, z3.Not(v)), z3.And(A(i) == 0x200C, z3.Not(v), z3.Not(z3.And(z3.ULT(self.F, i), z3.UGT(self.G, i + 1)))))
    def all_before(self, p, P, name, a=c64(0)):
        l = self.l
        return FA(lambda k: z3.Implies(z3.And(z3.UGE(k, a), z3.ULT(k, p), z3.ULT(k, l.n)), P(k)), [l.A], name=name, maxgen=0)
    @property
    def templates(self): return [self.tmpl, auto_lb]
    def tmpl(self, eng, view, ev):
        w, A = eng.w, self.l.A; out = []
        gl, ks = loop_uses(eng, view.hdr); P = {}
        if self.joiners:
            if 0x200C in ks or 0x200D in ks: P['joiners-good'] = lambda k: z3.Not(self.badj(w, k))
            if any(BSEARCH.match(g) for g in gl): P['no-LD'] = lambda k: z3.Not(ld(w, A(k))); P['no-RD'] = lambda k: z3.Not(rd(w, A(k)))
        bidi = uses_dir(eng, view.hdr)
        if bidi: P.update(self.more_preds(eng))
        pos = label_positions(view, self.l)
        for nm, p in pos:
            i0 = p(ev)
            for x, f in P.items():
                out.append(Cand("%s(%s)" % (x, nm), lambda V, p=p, f=f, x=x: self.all_before(p(V), f, x)))
                if not (isnum(i0) and num(i0) == 0):
                    out.append(Cand("%s(init..%s)" % (x, nm), lambda V, p=p, f=f, x=x, i0=i0: self.all_before(p(V), f, x, i0)))
        return out + (self.more_cands(eng, view, ev) if bidi else [])
    def more_preds(self, eng): return {}
    def more_cands(self, eng, view, ev): return []

class ValidC09(Valid):
    """true only if no leading combining mark and every joiner is in context"""
    def post(self, eng, st, ret, line):
        l, w = self.l, eng.w
        empty = l.n == 0
        eng.oblige(st, "post/valid-label-does-not-begin-with-a-combining-mark", z3.Implies(z3.And(ret, z3.Not(empty)), z3.Not(self.comb0)), line)
        eng.oblige(st, "post/valid-label-has-every-joiner-in-context", FA(lambda k: z3.Implies(z3.And(ret, z3.ULT(k, l.n)), z3.Not(self.badj(w, k))), [l.A], name="joiner"), line)

class ValidNever(Valid):
    """a label without RTL characters is never rejected for Bidi reasons"""
    def setup(self, eng, st):
        super().setup(eng, st); l = self.l; n, A, w, T = l.n, l.A, eng.w, eng.w.table_mem().T
        if T.check("dir/every-NSM-character-is-a-combining-mark", self.comb[self.cls == NSM].all()):
            st.assume(z3.Implies(DIR(A(c64(0))) == NSM, self.comb0))
        self.BADJ, self.H = fbool("bad-joiner"), fbool("has-rtl")
        st.assume(Fact("badj-witness", A, lambda k: [z3.Implies(z3.And(z3.ULT(k, n), self.badj(w, k)), self.BADJ), z3.Implies(z3.And(z3.ULT(k, n), rtl(A(k))), self.H)], maxgen=0))
    def more_cands(self, eng, view, ev): return rtl_cands(eng, view, self.l, self.H)
    def post(self, eng, st, ret, line):
        s = st.copy(); s.assume([z3.Not(ret), st.ghost.get('ensured', z3.BoolVal(True)), z3.Not(self.H)])
        eng.oblige(s, "post/no-RTL-character-never-rejected-for-Bidi", z3.Or(self.comb0, self.BADJ), line, assume=False)

class ValidRules(Valid):
    """true only under the six conditions of the Bidi rule if the label has an RTL character"""
    joiners = False
    def setup(self, eng, st):
        super().setup(eng, st); l = self.l
        self.LN = fbv("lastnonnsm", 64); LN = self.LN
        self.H = fbool("has-rtl")
        st.assume(z3.Implies(z3.ULT(LN, l.n), DIR(l.A(LN)) != NSM))
        st.assume(Fact("last-non-nsm", l.A, lambda k: [z3.Implies(z3.And(z3.ULT(k, l.n), DIR(l.A(k)) != NSM), z3.And(z3.ULE(k, LN), z3.ULT(LN, l.n))), z3.Implies(z3.And(z3.ULT(k, l.n), rtl(l.A(k))), self.H)], maxgen=1))
    def more_preds(self, eng):
        A = self.l.A
        return {'allowed-LTR': lambda k: among(A(k), ALLOW_L), 'allowed-RTL': lambda k: among(A(k), ALLOW_R), 'not-EN': lambda k: DIR(A(k)) != EN, 'not-AN': lambda k: DIR(A(k)) != AN}
    def more_cands(self, eng, view, ev):
        out = []; l = self.l; A = l.A; P = self.more_preds(eng); LN = self.LN
        fl = [n for n, v in view.phis.items() if isinstance(v, z3.BoolRef)]
        by = [(n, lambda V, n=n: V.phis[n]) for n in fl] + [(n, lambda V, g=g: g(V) != 0) for n, g in ints(view, 8)]
        for nm, p in label_positions(view, l):
            for fn, g in by:
                for x in ('not-EN', 'not-AN'):
                    out.append(Cand("%s unless %s(%s)" % (x, fn, nm), lambda V, p=p, g=g, x=x: (lambda b: FA(lambda k: z3.Or(g(V), b.body(k)), b.triggers, name=x, maxgen=0))(self.all_before(p(V), P[x], x))))
            out.append(Cand("LN>=%s" % nm, lambda V, p=p: z3.ULE(p(V), LN + 1)))
            for x, cl in (('RTL', (R_, AL, EN, AN)), ('LTR', (L_, EN))):
                out.append(Cand("%s-end-if-past(%s)" % (x, nm), lambda V, p=p, cl=cl: z3.Implies(z3.And(z3.UGT(p(V), LN), z3.ULT(LN, l.n)), among(A(LN), cl))))
        for a, ga in by:
            for b, gb in by:
                if a < b: out.append(Cand("not both %s %s" % (a, b), lambda V, ga=ga, gb=gb: z3.Not(z3.And(ga(V), gb(V)))))
        return out + rtl_cands(eng, view, l, self.H)
    def post(self, eng, st, ret, line):
        l = self.l; A, n, LN = l.A, l.n, self.LN
        j, k = fbv("j", 64), fbv("k", 64)
        s = st.copy(); r = fbv("rtlpos", 64); s.assume([ret, z3.ULT(r, n), rtl(A(r))])
        first = A(c64(0))
        eng.oblige(s, "post/rule-1-first-character-L-R-or-AL", among(first, (L_, R_, AL)), line, assume=False)
        ltr = DIR(first) == L_
        eng.oblige(s, "post/rule-2-classes-in-an-RTL-label", FA(lambda k: z3.Or(ltr, z3.UGE(k, n), among(A(k), ALLOW_R)), [A]), line, assume=False)
        eng.oblige(s, "post/rule-5-classes-in-an-LTR-label", FA(lambda k: z3.Or(z3.Not(ltr), z3.UGE(k, n), among(A(k), ALLOW_L)), [A]), line, assume=False)
        eng.oblige(s, "post/rule-3-end-of-an-RTL-label", z3.Or(ltr, z3.And(z3.ULT(LN, n), among(A(LN), (R_, AL, EN, AN)))), line, assume=False)
        eng.oblige(s, "post/rule-6-end-of-an-LTR-label", z3.Or(z3.Not(ltr), z3.And(z3.ULT(LN, n), among(A(LN), (L_, EN)))), line, assume=False)
        eng.oblige(s, "post/rule-4-no-mix-of-EN-and-AN", z3.Or(ltr, z3.Not(z3.And(z3.ULT(j, n), z3.ULT(k, n), DIR(A(j)) == EN, DIR(A(k)) == AN))), line, assume=False)

class ValidNoTables(Valid):
    """C16: touches no table and reports the label invalid when initialisation failed"""
    joiners = False
    templates = [auto_lb]
    def setup(self, eng, st):
        l = self.l = Label(eng, st, self); self.pvals(eng, st, [l.n, Ptr(l.r, c64(0))])
        if 'find_direction' not in eng.w.names: dir_facts(eng, st); dir_definition(eng)
    def post(self, eng, st, ret, line):
        eng.oblige(st, "post/failed-initialisation-is-reported-as-invalid", z3.Implies(z3.And(ret, self.l.n != 0), z3.And(eng.w.table_mem().ready, st.ghost.get('ensured', z3.BoolVal(False)))), line)
