"""C03, C11, C12, C20: contracts of to_ascii and to_unicode, and the call rules of the functions they are built from.

The functions called are functions on sequences of code points: U8DEC (UTF-8 decoding), MAPPED (mapping), NFC,
PUNY / PENC (Punycode decoding / encoding), U8ENC (UTF-8 encoding), with predicates where they can fail, and VALID
(label validity).  A domain is cut into labels: ND(s) is the next dot at or after s, O(s) the place in the result
where the label starting at s goes, RL(s) and VAL(s,k) length and content of what replaces it."""
from world import *
from tables import loop_uses
from seq import *; from seq import _fresh_counter
import spec_utf as U, spec_map as M, spec_label as B, spec_norm as N
from spec_map import MAPOK, MAPPED, MAXNL
B8 = z3.BitVecSort(8)
F = z3.Function
U8OK, U8DEC, LEADS = F("seq.utf8", SEQ, BOOL), F("seq.utf8.decoded", SEQ, SEQ), F("seq.leads", SEQ, B64)
U8ENCOK, U8ENC, U8ENCLEN = F("seq.scalars", SEQ, BOOL), F("seq.utf8.encoded", SEQ, SEQ), F("seq.utf8.bytes", SEQ, B64)
NFC, VALID = F("seq.nfc", SEQ, SEQ), F("seq.valid.label", SEQ, BOOL)
PUNYOK, PUNY = F("seq.punycode", SEQ, BOOL), F("seq.punycode.decoded", SEQ, SEQ)
PENCOK, PENC = F("seq.encodable", SEQ, BOOL), F("seq.punycode.encoded", SEQ, SEQ)
ASCII, NASC = F("seq.ascii", SEQ, BOOL), F("seq.nonascii.at", SEQ, B64)
DOT, K80 = BV(0x2E, 32), BV(0x80, 32)
def ule(a, b): return z3.ULE(a, b)
def ult(a, b): return z3.ULT(a, b)
def imp(a, b): return z3.Implies(a, b)

def attempt(eng, st, name):
    """may the tables be used in this call?  (every attempt succeeds when the hypothesis ENS of the caller holds)"""
    ens = fbool(name + ".tables")
    st.assume(imp(ens, eng.w.table_mem().ready))
    st.ghost['ensured'] = z3.And(st.ghost.get('ensured', z3.BoolVal(True)), ens)
    h = getattr(eng.c, 'ENS', None)
    if h is not None: st.assume(imp(h, ens))
    return ens
def split(st, c):
    s1 = st.copy(); s1.assume(c); st.assume(z3.Not(c)); return s1, st
def anystr(st, name): return z3.Const("%s!%d" % (name, next(_fresh_counter)), SEQ)
def need(eng, st, fn, n, lim, line): eng.oblige(st, "call/%s/length" % fn, ult(n, c64(lim)), line)
def write_seq(eng, st, p, s, n, esz, line, name):
    """the block at p of n elements is overwritten with s (None: anything)"""
    if isinstance(p, MaybePtr): p = p.p
    if not (isinstance(p, Ptr) and p.r.esz == esz and p.sub == 0 and p.r.kind != 'cell'): raise Unsupported("output block")
    eng.check_access(st, p, n, "output", line, True)
    c = seq_base(st, s, esz, name) if s is not None else Base(ffun(name, B64, z3.BitVecSort(8 * esz)), 8 * esz)
    whole = simp(z3.And(p.off == 0, n == p.r.n))
    st.mem[p.r.id] = c if z3.is_true(whole) else Cp(st.mem[p.r.id], p.off, n, c, c64(0)); eng.note_write(st, p.r)

def u32len_call(self, eng, st, I, v):
    p, n = v; need(eng, st, "utf32_length_from_utf8", n, 1 << 40, I.line); S = seq_of(eng, st, p, n, "bytes")
    st.assume([ule(LEADS(S), n), imp(U8OK(S), (LEADS(S) == 0) == (n == 0))]); st.env[I.res] = LEADS(S)
def u8to32_call(self, eng, st, I, v):
    p, n, out = v; need(eng, st, "utf8_to_utf32", n, 1 << 40, I.line); S = seq_of(eng, st, p, n, "bytes"); k = LEADS(S)
    st.assume(ule(k, n)); good, bad = split(st, U8OK(S)); R = U8DEC(S)
    good.assume([LEN(R) == k, (k == 0) == (n == 0)])
    write_seq(eng, good, out, R, k, 4, I.line, "scalars"); write_seq(eng, bad, out, None, k, 4, I.line, "partial")
    return [(good, k), (bad, c64(0))]
def u8len_call(self, eng, st, I, v):
    p, n = v; need(eng, st, "utf8_length_from_utf32", n, 1 << 40, I.line); S = seq_of(eng, st, p, n, "cps"); k = U8ENCLEN(S)
    st.assume([ule(n, k), ule(k, 4 * n)]); st.env[I.res] = k
def u32to8_call(self, eng, st, I, v):
    p, n, out = v; need(eng, st, "utf32_to_utf8", n, 1 << 40, I.line); S = seq_of(eng, st, p, n, "cps"); k = U8ENCLEN(S)
    st.assume([ule(n, k), ule(k, 4 * n)]); good, bad = split(st, U8ENCOK(S)); R = U8ENC(S)
    good.assume(LEN(R) == k)
    write_seq(eng, good, out, R, k, 1, I.line, "utf8"); write_seq(eng, bad, out, None, k, 1, I.line, "partial")
    return [(good, k), (bad, c64(0))]
U.Utf32LengthFromUtf8.call, U.Utf8ToUtf32.call = u32len_call, u8to32_call
U.Utf8LengthFromUtf32.call, U.Utf32ToUtf8.call = u8len_call, u32to8_call

def ascii_map_call(self, eng, st, I, v):
    p, n = v; need(eng, st, "ascii_map", n, 1 << 40, I.line)
    if not (isinstance(p, Ptr) and p.r.esz == 1): raise Unsupported("ascii_map argument")
    eng.check_access(st, p, n, "ascii_map", I.line, True)
    old = st.mem[p.r.id]; o = p.off; f = ffun("lowered", B64, B8); a = fbool("all.ascii"); w = fbv("nonascii", 64)
    st.assume(imp(z3.Not(a), z3.And(ult(w, n), z3.UGE(read(old, add(o, w)), BV(0x80, 8)))))
    st.assume(FA(lambda k: imp(z3.And(a, ult(k, n)), f(k) == U.lower8(read(old, add(o, k)))), [f], name="lowered"))
    st.mem[p.r.id] = Cp(old, o, n, Base(f, 8), c64(0)); eng.note_write(st, p.r)
U.AsciiMap.call = ascii_map_call

_map0 = M.Map.call
def map_call(self, eng, st, I, v):
    if not getattr(eng.c, 'whole', False): return _map0(self, eng, st, I, v)
    n, p, sp = v; need(eng, st, "map", n, 1 << 35, I.line); S = seq_of(eng, st, p, n, "map.in")
    ens = attempt(eng, st, "map"); good, bad = split(st, z3.And(ens, MAPOK(S)))
    R = MAPPED(S); good.assume(ule(LEN(R), n * c64(MAXNL)))
    put_seq(eng, good, sp, R, 4, "mapped"); put_seq(eng, bad, sp, anystr(bad, "map.partial"), 4, "partial")
    return [(good, z3.BoolVal(True)), (bad, z3.BoolVal(False))]
M.Map.call = map_call

NFCLIM = 1 << 34
class IsAlreadyNfc(Contract):
    def call(self, eng, st, I, v):
        n, p = v; need(eng, st, "is_already_nfc", n, NFCLIM, I.line); S = seq_of(eng, st, p, n, "nfc.in")
        ens = attempt(eng, st, "is_already_nfc"); r = fbool("already.nfc")
        same_elements(st, r, S, NFC(S)); st.assume(imp(z3.And(ens, NFC(S) == S), r)); st.env[I.res] = r
class Normalize(Contract):
    def call(self, eng, st, I, v):
        sp = v[0]; S = string_seq(eng, st, sp, "nfc.in"); n = LEN(S); need(eng, st, "normalize", n, NFCLIM, I.line)
        ens = attempt(eng, st, "normalize"); good, bad = split(st, ens); R = NFC(S)
        good.assume(ule(LEN(R), n * c64(MAXNL)))
        put_seq(eng, good, sp, R, 4, "nfc"); put_seq(eng, bad, sp, anystr(bad, "nfc.partial"), 4, "partial")
        return [(good, z3.BoolVal(True)), (bad, z3.BoolVal(False))]
def valid_call(self, eng, st, I, v):
    n, p = v; need(eng, st, "is_label_valid", n, 1 << 31, I.line); S = seq_of(eng, st, p, n, "label")
    ens = attempt(eng, st, "is_label_valid"); r = fbool("label.valid")
    st.assume(imp(n != 0, r == z3.And(ens, VALID(S)))); st.env[I.res] = r
B.Valid.call = valid_call
class Decode(Contract):
    def call(self, eng, st, I, v):
        n, p, sp = v; need(eng, st, "punycode_to_utf32", n, 1 << 30, I.line); S = seq_of(eng, st, p, n, "puny.in")
        eng.oblige(st, "call/punycode_to_utf32/output-is-empty", string_data(st, sp)[1] == 0, I.line)
        if hasattr(eng.c, 'alias'): eng.c.alias(eng, st, S, n)
        good, bad = split(st, PUNYOK(S)); R = PUNY(S); good.assume(ule(LEN(R), n))
        put_seq(eng, good, sp, R, 4, "decoded"); put_seq(eng, bad, sp, anystr(bad, "puny.partial"), 4, "partial")
        return [(good, z3.BoolVal(True)), (bad, z3.BoolVal(False))]
class Encode(Contract):
    def call(self, eng, st, I, v):
        n, p, sp = v; need(eng, st, "utf32_to_punycode", n, 1 << 30, I.line); S = seq_of(eng, st, p, n, "puny.in")
        good, bad = split(st, PENCOK(S)); R = PENC(S)
        q, m = string_data(good, sp); old = good.mem[q.r.id]; k = LEN(R); t = simp(m + k)
        good.assume([ult(k, c64(1 << 60)), ult(t, c64(1 << 60))])
        good.assume(Fact("punycode-is-ascii", EL, lambda t, k: [ult(EL(t, k), K80)] if t.get_id() == R.get_id() else []))
        base = strbuf(eng, good, "encoded", 1, t); c = good.mem[base.id]
        good.mem[base.id] = Cp(Cp(c, c64(0), m, old, q.off), m, k, seq_base(good, R, 1, "penc"), c64(0))
        set_string(eng, good, sp, base, t)
        put_seq(eng, bad, sp, anystr(bad, "penc.partial"), 1, "partial")
        return [(good, z3.BoolVal(True)), (bad, z3.BoolVal(False))]

def ascii_facts(eng):
    """ASCII(S): no element is above 0x7F"""
    eng.gfacts.append(Fact("ascii-def", ASCII, lambda s: [z3.Or(ASCII(s), z3.And(ult(NASC(s), LEN(s)), z3.UGE(EL(s, NASC(s)), K80)))]))
    eng.gfacts.append(Fact2("ascii-elements", ASCII, EL, lambda a, b: [imp(z3.And(a[0] == b[0], ASCII(a[0]), ult(b[1], LEN(b[0]))), ult(EL(b[0], b[1]), K80))]))

class Labels:
    """the labels of the element sequence EA(0..n); LS(s): a label starts at s"""
    def __init__(self, eng, st, EA, decl, pick, n):
        self.EA, self.n, self.decl = EA, n, decl
        self.ND, self.ASC, self.WA = ffun("nextdot", B64, B64), ffun("ascii.label", B64, BOOL), ffun("nonascii.in", B64, B64)
        ND, ASC, WA = self.ND, self.ASC, self.WA
        st.assume(Fact("next-dot", ND, lambda s: [imp(ule(s, n), z3.And(ule(s, ND(s)), ule(ND(s), n), imp(ult(ND(s), n), EA(ND(s)) == DOT)))], maxgen=2))
        st.assume(Fact2("before-next-dot", ND, decl, lambda a, b: [imp(z3.And(ule(a[0], pick(b)), ult(pick(b), ND(a[0])), ule(a[0], n)), EA(pick(b)) != DOT)] if pick(b) is not None else [], maxgen=2))
        st.assume(Fact("ascii-label", ASC, lambda s: [z3.Or(ASC(s), z3.And(ule(s, WA(s)), ult(WA(s), ND(s)), z3.UGE(EA(WA(s)), K80)))], maxgen=2))
        st.assume(Fact2("ascii-label-elements", ASC, decl, lambda a, b: [imp(z3.And(ASC(a[0]), ule(a[0], pick(b)), ult(pick(b), ND(a[0]))), ult(EA(pick(b)), K80))] if pick(b) is not None else [], maxgen=2))
    def LS(self, s): return z3.Or(s == 0, self.EA(s - 1) == DOT)
    def NX(self, s): return z3.If(ult(self.ND(s), self.n), self.ND(s) + 1, self.n)
    def dot(self, s): return z3.If(ult(self.ND(s), self.n), c64(1), c64(0))
    def len(self, s): return self.ND(s) - s
    def places_(self, st, RL, extra):
        O, n = self.O, self.n
        st.assume(O(c64(0)) == 0)
        st.assume(Fact("place", O, lambda s: [imp(z3.And(ult(s, n), self.LS(s)), O(self.NX(s)) == O(s) + RL(s) + self.dot(s))] + extra(s), maxgen=0))
    def prefix(self, s):
        E = self.EA
        return z3.And(z3.UGE(self.len(s), 4), E(s) == ord('x'), E(s + 1) == ord('n'), E(s + 2) == ord('-'), E(s + 3) == ord('-'))

def minp(p, n): return z3.If(ule(p, n), p, n)
LIMIT = 16384
class Domain(Contract):
    """shared: the result string at the head of a loop over labels"""
    whole = True
    fork_back = True
    decide_select = True
    budget = 500
    def begin(self, eng, st, n, name):
        self.ENS = fbool("tables.available"); self.n = n
        st.ghost['ens'] = self.ENS
        self.HYP = self.ENS
        self.A = ffun("in", B64, B8); self.r = self.data(eng, st, "in", 1, n, self.A)
        self.sp, self.rp, self.rn, self.buf = self.string(eng, st, name, 1, length_var("oldsize"), cap=length_var("oldcap"))
        st.assume(ule(st.mem[self.rn.id].v, self.buf.n))
        ascii_facts(eng)
    def on_equal(self, eng, st, e, p, q, n):
        if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.r.esz == q.r.esz): return
        S, T = seq_of(eng, st, p, n, "eq.a"), seq_of(eng, st, q, n, "eq.b")
        st.assume(e == (S == T))
    def on_found(self, eng, st, p, ch, k, found):
        if self.L is None or not (isnum(ch) and num(ch) == 0x2E) or not eng.feasible(st): return
        a = simp(p.off); eng.hint(st, self.L.ND(a) == (add(a, k) if found else self.L.n))
    def result(self, eng, st):
        """the result string so far"""
        p, m = st.mem[self.rp.id].v, st.mem[self.rn.id].v
        if not isinstance(p, Ptr): raise Unsupported("result string")
        return built(eng, st, st.mem[p.r.id], p.off, m)
    def prefixes(self, eng, st, L, R):
        """PRE(s): the result for the labels before the label start s; PRE(n): the whole result"""
        cat_facts(eng); st.assume(LEN(EMPTY) == 0); n = L.n; self.R = R
        PRE = self.PRE = ffun("result.before", B64, SEQ); one = ONE(DOT)
        st.assume(PRE(c64(0)) == EMPTY)
        st.assume(Fact("result-step", L.ND, lambda s: [imp(z3.And(ult(s, n), L.LS(s), ult(L.ND(s), n)), PRE(L.ND(s) + 1) == CAT(CAT(PRE(s), R(s)), one)),
                                                        imp(z3.And(ult(s, n), L.LS(s), L.ND(s) == n), PRE(n) == CAT(PRE(s), R(s)))], maxgen=1))
    @property
    def templates(self): return [self.tmpl]
    def more(self, eng, view, ev): return []
    def at_back(self, eng, st, view, bview):
        if self.rn.id not in view.mod or self.L is None: return
        L = self.L
        for nm, v in view.phis.items():
            if isinstance(v, Ptr) and v.r.kind != 'cell': a, b = v.off, bview.phis[nm].off
            elif isinstance(v, z3.BitVecRef) and v.size() == 64: a, b = v, bview.phis[nm]
            else: continue
            ok = eng.hint(st, L.NX(a) == minp(b, L.n)); got = None
            if ok:
                eng.hint(st, L.ND(a) == b - 1) or eng.hint(st, L.ND(a) == L.n)
                for i, c in enumerate(self.cases(a)):
                    if eng.hint(st, c): got = i; break
            if os.environ.get("VC_HINT"): print("HINT", nm, ok, got, st.path[-20:], file=sys.stderr)
    def cases(self, s): return []
    def before(self, eng, V, p):
        r = self.result(eng, V.st)
        return imp(self.HYP, r == z3.If(ult(p, self.L.n), self.PRE(p), self.PRE(self.L.n)))
    def tmpl(self, eng, view, ev):
        L = self.L; out = []
        outer = self.rn.id in view.mod
        if outer and L is not None:
            for nm, g in positions(view):
                if nm not in view.phis: continue
                out += [Cand("label-start(%s)" % nm, lambda V, g=g: z3.Or(z3.UGE(g(V), L.n), L.LS(g(V)))),
                        Cand("past-end(%s)" % nm, lambda V, g=g: ule(g(V), L.n + 1)),
                        Cand("result-before(%s)" % nm, lambda V, g=g: self.before(eng, V, g(V)))]
            out += self.more(eng, view, ev)
        # scans: every element passed is ASCII / no dot
        walks = [(nm, r, g, lambda V: c64(0)) for nm, r, g in ptrs(view)]
        for nm, g in ints(view, 64):
            for u in view.live:
                v = view.st.env[u]
                if isinstance(v, Ptr) and v.r.kind != 'cell': walks.append((nm + "@" + u, v.r, lambda V, g=g, v=v: add(v.off, g(V)), None))
        if not outer:
            for nm, r, g, _ in walks:
                if r.kind == 'cell' or view.st.mem[r.id].w not in (8, 32): continue
                i0 = g(ev); w = view.st.mem[r.id].w
                def scan(V, cond, g=g, r=r, i0=i0):
                    c = V.st.mem[r.id]
                    return FA(lambda k: imp(z3.And(z3.UGE(k, i0), ult(k, g(V))), cond(read(c, k))), base_decls(c), name="scan")
                out.append(Cand("ascii(%s)" % nm, lambda V, scan=scan, w=w: scan(V, lambda x: ult(x, BV(0x80, w)))))
                out.append(Cand("nodot(%s)" % nm, lambda V, scan=scan, w=w: scan(V, lambda x: x != BV(0x2E, w))))
        # copying: what was there stays, what is added is the narrowed source
        dest = [(nm, g, lambda V, r=r: V.st.mem[r.id]) for nm, r, g in ptrs(view) if r.id in view.mod]
        if outer: dest.append(("out.size", lambda V: V.st.mem[self.rn.id].v, lambda V: V.st.mem[V.st.mem[self.rp.id].v.r.id]))
        for nm, g, cont in dest:
            w0 = g(ev)
            c0 = cont(ev); 
            def kept(V, g=g, cont=cont, w0=w0, c0=c0):
                c = cont(V); return FA(lambda k: imp(ult(k, w0), read(c, k) == read(c0, k)), base_decls(c), name="kept")
            out.append(Cand("kept(%s)" % nm, kept))
            for nm2, r2, g2, _ in walks:
                if r2.id in view.mod or r2.kind == 'cell' or view.st.mem[r2.id].w < 8: continue
                q0 = g2(ev); src = view.st.mem[r2.id]
                def copied(V, g=g, cont=cont, w0=w0, q0=q0, src=src):
                    c = cont(V); return FA(lambda k: imp(z3.And(z3.UGE(k, w0), ult(k, g(V))), read(c, k) == z3.Extract(7, 0, read(src, add(q0, sub(k, w0))))), base_decls(c), name="copied")
                out.append(Cand("copied(%s,%s)" % (nm, nm2), copied))
        return out

class ToUnicode(Domain):
    """within the size limit always true; the result is the labels in order, each kept or replaced by the UTF-8 form of
    its decoding when all the conditions hold, with the dots between them.  ENS: every use of the tables succeeds"""
    def setup(self, eng, st):
        n = length_var("len"); self.begin(eng, st, n, "output")
        A = self.A; E = lambda k: z3.ZeroExt(24, A(k))
        L = self.L = Labels(eng, st, E, A, lambda a: a[0], n)
        sub = SUBF(self.A)
        COND = self.COND = ffun("replaced", B64, BOOL)
        self.LAB = lambda s: sub(simp(s + 4), simp(L.len(s) - 4))
        def R(s):
            lab = sub(simp(s), simp(L.len(s)))
            return z3.If(COND(s), U8ENC(PUNY(self.LAB(s))), lab)
        self.prefixes(eng, st, L, R)
        st.assume(Fact("kept-label", sub, lambda o, k: [LEN(sub(o, k)) == k]))
        st.assume(Fact("replaced", COND, lambda s: [COND(s) == self.cond(s)]))
        self.pvals(eng, st, [n, Ptr(self.r, c64(0)), self.sp])
    def cond(self, s):
        D = PUNY(self.LAB(s)); L = self.L
        return z3.And(L.prefix(s), L.ASC(s), PUNYOK(self.LAB(s)), z3.Not(ASCII(D)), MAPOK(D), MAPPED(D) == D, NFC(D) == D, LEN(D) != 0, VALID(D), U8ENCOK(D))
    def cases(self, s): return [z3.Not(self.COND(s)), self.COND(s)]
    def post(self, eng, st, ret, line):
        n, L, ENS = self.n, self.L, self.ENS; big = z3.UGT(n, c64(LIMIT)); sz = st.mem[self.rn.id].v
        eng.oblige(st, "post/succeeds-exactly-within-the-size-limit", ret == z3.Not(big), line)
        eng.oblige(st, "post/empty-result-beyond-the-size-limit", imp(big, sz == 0), line)
        s = st.copy(); s.assume([ret, ENS])
        if eng.feasible(s): eng.oblige(s, "post/result-is-the-labels-kept-or-replaced-and-the-dots", self.result(eng, s) == self.PRE(n), line, assume=False)
XN = [BV(ord(x), 32) for x in "xn--"]
def upper(x): return z3.And(z3.UGE(x, BV(0x41, 32)), ule(x, BV(0x5A, 32)))
def plain(x): return z3.And(ult(x, K80), z3.Not(upper(x)))
class ToAscii(Domain):
    """ASCII input is lowercased; other input is decoded, mapped, normalized and goes label by label"""
    fork_loops = True
    def setup(self, eng, st):
        n = length_var("len"); self.begin(eng, st, n, "out"); self.HYP = z3.BoolVal(True)
        A = self.A; cat_facts(eng); self.K0 = fbv("position", 64)
        S = self.S = SUBF(A)(c64(0), n); X = self.X = U8DEC(S); Q = self.Q = MAPPED(X); M = self.M = NFC(Q)
        AI, w = fbool("ascii.input"), fbv("nonascii.input", 64); self.AI = AI
        st.assume(z3.Or(AI, z3.And(ult(w, n), z3.UGE(A(w), BV(0x80, 8)))))
        st.assume(Fact("ascii-input", A, lambda k: [imp(z3.And(AI, ult(k, n)), ult(A(k), BV(0x80, 8)))]))
        # lemmas taken over: ASCII is normalized, mapping and normalization leave no capital letter
        st.assume(imp(ASCII(Q), NFC(Q) == Q))
        st.assume(Fact("elements-of-sub", EL, lambda t, k: [imp(ult(k, t.arg(2)), EL(t, k) == EL(t.arg(0), t.arg(1) + k))] if t.decl().eq(SUBQ) else []))
        st.assume(Fact("sub", SUBQ, lambda q, o, k: [LEN(SUBQ(q, o, k)) == k, imp(z3.And(o == 0, k == LEN(q)), SUBQ(q, o, k) == q)]))
        st.assume(Fact("elements-of-cat", EL, lambda t, k: [EL(t, k) == z3.If(ult(k, LEN(t.arg(0))), EL(t.arg(0), k), EL(t.arg(1), k - LEN(t.arg(0))))] if t.decl().eq(CAT) else [], maxgen=2))
        N = LEN(M)
        L = self.L = Labels(eng, st, lambda k: EL(M, k), EL, lambda b: b[1] if guard(b[0], M) is not None else None, N)
        self.lab = lambda s: SUBQ(M, simp(s), simp(L.len(s)))
        self.tail = lambda s: SUBQ(M, simp(s + 4), simp(L.len(s) - 4))
        def step(pre, s):
            enc = pre
            for x in XN: enc = CAT(enc, ONE(x))
            return z3.If(L.len(s) == 0, pre, z3.If(L.ASC(s), CAT(pre, self.lab(s)), CAT(enc, PENC(self.lab(s)))))
        PLAIN = self.PLAIN = F("seq.plain", SEQ, BOOL)
        st.assume(PLAIN(EMPTY))
        st.assume(Fact("plain-cat", CAT, lambda x, y: [PLAIN(CAT(x, y)) == z3.And(PLAIN(x), PLAIN(y))]))
        st.assume(Fact("plain-one", ONE, lambda v: [PLAIN(ONE(v)) == plain(v)]))
        st.assume(Fact("plain-label", L.ND, lambda s: [imp(L.ASC(s), PLAIN(self.lab(s))), PLAIN(PENC(self.lab(s)))], maxgen=1))
        PRE = self.PRE = ffun("result.before", B64, SEQ); OKP = self.OKP = ffun("accepted.before", B64, BOOL); OK = self.OK = ffun("accepted", B64, BOOL); one = ONE(DOT)
        st.assume([LEN(EMPTY) == 0, PRE(c64(0)) == EMPTY, OKP(c64(0))])
        st.assume(Fact("result-step", L.ND, lambda s: [imp(z3.And(ult(s, N), L.LS(s), ult(L.ND(s), N)), z3.And(PRE(L.ND(s) + 1) == CAT(step(PRE(s), s), one), OKP(L.ND(s) + 1) == z3.And(OKP(s), OK(s)))),
                                                        imp(z3.And(ult(s, N), L.LS(s), L.ND(s) == N), z3.And(PRE(N) == step(PRE(s), s), OKP(N) == z3.And(OKP(s), OK(s)))),
                                                        imp(z3.And(OKP(N), ult(s, N), L.LS(s)), OK(s))], maxgen=1))
        st.assume(Fact("accepted", OK, lambda s: [OK(s) == self.cond(s)]))
        self.pvals(eng, st, [n, Ptr(self.r, c64(0)), self.sp])
    def cond(self, s):
        L, D, lab = self.L, PUNY(self.tail(s)), self.lab(s)
        ace = z3.And(L.ASC(s), PUNYOK(self.tail(s)), z3.Not(ASCII(D)), MAPOK(D), MAPPED(D) == D, NFC(D) == D, VALID(D))
        return z3.If(L.prefix(s), ace, z3.Or(L.ASC(s), z3.And(VALID(lab), PENCOK(lab))))
    def at_loop(self, eng, st):
        if st.ghost.get('ascii.hint') or not any(isinstance(c, Base) and getattr(c, 'seq', None) is not None and c.seq.eq(self.Q) for c in st.mem.values()): return
        if eng.hint(st, self.M == self.Q): st.ghost['ascii.hint'] = True
    def alias(self, eng, st, S, n):
        """the argument as a stretch of the mapped domain"""
        seen = []
        for v in list(st.env.values()):
            if not (isinstance(v, Ptr) and v.r.kind != 'cell' and v.r.id in st.mem): continue
            c = st.mem[v.r.id]; own = getattr(c, 'seq', None)
            if not isinstance(c, Base) or own is None or guard(own, self.M) is None: continue
            for d in (4, 0):
                T = SUBQ(own, simp(v.off + d), simp(n))
                if any(T.eq(x) for x in seen): continue
                seen.append(T); s = st.copy(); extensional(s, S, T)
                h = eng.hint(s, S == T)
                if os.environ.get("VC_HINT"): print("HINT-A", h, str(T)[:100], st.path[-20:], file=sys.stderr)
                if h: st.assume(S == T); return
    def at_back(self, eng, st, view, bview):
        if self.rn.id not in view.mod: return
        Domain.at_back(self, eng, st, view, bview)
        X = self.result(eng, st)
        Y = X.arg(0) if X.decl().eq(CAT) and X.arg(1).decl().eq(ONE) else X
        p0, m0 = view.st.mem[self.rp.id].v, view.st.mem[self.rn.id].v
        c0 = view.st.mem[p0.r.id]
        if not isinstance(c0, Base) or Y.num_args() != 2 or not Y.decl().name().startswith("sub."): return
        H = part_of(c0, c64(0), simp(m0)); st.assume(LEN(H) == m0)
        cn = st.mem[st.mem[self.rp.id].v.r.id]
        for d in base_decls(cn):
            if "sub." + d.name() == Y.decl().name() and isnum(Y.arg(0)) and num(Y.arg(0)) == 0: named_elements(st, d, Y, Y.arg(1))
        named_elements(st, c0.f, H, m0)
        for nm, v in view.phis.items():
            if isinstance(v, Ptr) and v.r.kind != 'cell' and isinstance(st.mem.get(v.r.id), Base) and getattr(st.mem[v.r.id], 'seq', None) is not None:
                T = CAT(H, self.lab(v.off)); h = self.appended(eng, st, Y, T, m0, v.off, st.mem[v.r.id])
                if os.environ.get("VC_HINT"): print("HINT-T", nm, h, str(Y)[:100], st.path[-20:], file=sys.stderr)
                if h: st.assume(Y == T); return
    def appended(self, eng, st, Y, T, m0, a, src):
        """Y == T, element by element: those before m0, then those of the label at a (lemma proved in steps)"""
        if not eng.hint(st, self.L.ASC(a)) or not eng.hint(st, LEN(Y) == LEN(T)): return False
        d = DIFF(Y, T); k = d - m0; eq = EL(Y, d) == EL(T, d)
        lo = st.copy(); lo.assume(ult(d, m0))
        hi = st.copy(); hi.assume([z3.UGE(d, m0), ult(d, LEN(Y))])
        for x in (ult(k, self.L.len(a)), ult(a + k, self.L.ND(a)), ult(a + k, self.L.n), ule(a, a + k), EL(self.M, a + k) == elem(read(src, a + k)), ult(elem(read(src, a + k)), K80), EL(self.lab(a), k) == EL(self.M, a + k)):
            h = eng.hint(hi, x, 6000)
            if os.environ.get("VC_HINT"): print("HINT-S", h, str(x)[:60].replace("\n", ""), file=sys.stderr)
        return eng.hint(lo, eq, 6000) and eng.hint(hi, eq, 6000)
    def cases(self, s): return [z3.And(self.OK(s), self.L.ASC(s)), z3.And(self.OK(s), z3.Not(self.L.ASC(s)))]
    def refused(self, eng, st):
        """which label is to blame"""
        for a in st.ghost.get('labels', ()):
            if all(eng.hint(st, x, 6000) for x in (ult(a, self.L.n), self.L.LS(a), z3.Not(self.OK(a)))): return
    def more(self, eng, view, ev):
        out = []; N = self.L.n; OKP = self.OKP
        view.st.ghost['labels'] = tuple(v.off for v in view.phis.values() if isinstance(v, Ptr) and v.r.kind != 'cell' and getattr(view.st.mem.get(v.r.id), 'seq', None) is not None)
        for nm, g in positions(view):
            if nm in view.phis: out.append(Cand("accepted(%s)" % nm, lambda V, g=g: z3.And(imp(ult(g(V), N), OKP(g(V))), imp(ule(N, g(V)), OKP(N)))))
            if nm in view.phis: out.append(Cand("plain(%s)" % nm, lambda V, g=g: z3.And(imp(ult(g(V), N), self.PLAIN(self.PRE(g(V)))), imp(ule(N, g(V)), self.PLAIN(self.PRE(N))))))
        return out
    def post(self, eng, st, ret, line):
        n, N, ENS, AI = self.n, self.L.n, self.ENS, self.AI; big = z3.UGT(n, c64(LIMIT)); sz = st.mem[self.rn.id].v
        eng.oblige(st, "post/refused-beyond-the-size-limit", imp(big, z3.Not(ret)), line)
        eng.oblige(st, "post/empty-result-on-failure", imp(z3.Not(ret), sz == 0), line)
        eng.oblige(st, "post/ascii-input-is-never-refused", imp(z3.And(AI, z3.Not(big)), ret), line)
        s = st.copy(); s.assume([ret, AI]); k = self.K0
        if eng.feasible(s):
            p = s.mem[self.rp.id].v; b = read(s.mem[p.r.id], add(p.off, k))
            eng.oblige(s, "post/ascii-input-keeps-its-length", sz == n, line, assume=False)
            eng.oblige(s, "post/ascii-input-is-lowercased", imp(ult(k, n), b == U.lower8(self.A(k))), line, assume=False)
            eng.oblige(s, "post/ascii-result-is-ascii-without-capitals", imp(ult(k, sz), plain(elem(b))), line, assume=False)
        s = st.copy(); s.assume([ret, z3.Not(AI)])
        if eng.feasible(s):
            eng.oblige(s, "post/accepted-input-is-well-formed-and-mappable", z3.And(U8OK(self.S), MAPOK(self.X)), line, assume=False)
            eng.oblige(s, "post/every-label-of-accepted-input-is-acceptable", self.OKP(N), line, assume=False)
            eng.oblige(s, "post/result-is-the-labels-kept-or-encoded-and-the-dots", self.result(eng, s) == self.PRE(N), line)
            eng.oblige(s, "post/result-is-ascii-without-capitals", self.PLAIN(self.result(eng, s)), line, assume=False)
        s = st.copy(); s.assume([z3.Not(ret), ENS, z3.Not(big), U8OK(self.S), MAPOK(self.X)])
        if eng.feasible(s): self.refused(eng, s); eng.oblige(s, "post/refused-only-for-a-reason", z3.Not(self.OKP(N)), line, assume=False)
class ToAsciiOfAscii(Domain):
    """the case of ASCII input: beyond the limit refused, otherwise lowercased"""
    cap = 120
    fork_back, L = False, None
    def setup(self, eng, st):
        n = length_var("len"); self.begin(eng, st, n, "out"); A = self.A; self.K0 = fbv("position", 64)
        st.assume(Fact("ascii-input", A, lambda k: [imp(ult(k, n), ult(A(k), BV(0x80, 8)))]))
        self.pvals(eng, st, [n, Ptr(self.r, c64(0)), self.sp])
    def post(self, eng, st, ret, line):
        n, k = self.n, self.K0; big = z3.UGT(n, c64(LIMIT)); sz = st.mem[self.rn.id].v
        eng.oblige(st, "post/ascii-input-refused-exactly-beyond-the-size-limit", ret == z3.Not(big), line)
        eng.oblige(st, "post/empty-result-on-failure", imp(z3.Not(ret), sz == 0), line)
        s = st.copy(); s.assume(ret)
        if eng.feasible(s):
            p = s.mem[self.rp.id].v; b = read(s.mem[p.r.id], add(p.off, k))
            eng.oblige(s, "post/ascii-input-keeps-its-length", sz == n, line, assume=False)
            eng.oblige(s, "post/ascii-input-is-lowercased", imp(ult(k, n), b == U.lower8(self.A(k))), line, assume=False)
class ToAsciiBeyondLimit(Domain):
    """the case of input beyond the size limit"""
    fork_back, L = False, None
    def setup(self, eng, st):
        n = length_var("len"); self.begin(eng, st, n, "out"); st.assume(z3.UGT(n, c64(LIMIT)))
        self.pvals(eng, st, [n, Ptr(self.r, c64(0)), self.sp])
    def post(self, eng, st, ret, line):
        eng.oblige(st, "post/refused-beyond-the-size-limit", z3.Not(ret), line)
        eng.oblige(st, "post/empty-result-beyond-the-size-limit", st.mem[self.rn.id].v == 0, line)
class ToUnicodeLimit(Domain):
    """to_unicode never fails except for the size of its input (the content of the result is ToUnicode's concern)"""
    L = None
    def setup(self, eng, st):
        n = length_var("len"); self.begin(eng, st, n, "output"); self.pvals(eng, st, [n, Ptr(self.r, c64(0)), self.sp])
    def on_equal(self, eng, st, e, p, q, n): pass
    def post(self, eng, st, ret, line):
        big = z3.UGT(self.n, c64(LIMIT))
        eng.oblige(st, "post/succeeds-exactly-within-the-size-limit", ret == z3.Not(big), line)
        eng.oblige(st, "post/empty-result-beyond-the-size-limit", imp(big, st.mem[self.rn.id].v == 0), line)
def domain_call(self, eng, st, I, v):
    """as called from the string form: some answer, and on success some result"""
    n, p, sp = v; need(eng, st, "domain", n, 1 << 40, I.line)
    if not (isinstance(p, (Ptr, NullP, MaybePtr))): raise Unsupported("domain argument")
    R = z3.Const("domain.result", SEQ); r = fbool("converted"); st.ghost['converted'] = r
    good, bad = split(st, r); good.ghost['result'] = R
    put_seq(eng, good, sp, R, 1, "converted"); put_seq(eng, bad, sp, anystr(bad, "partial"), 1, "partial")
    return [(good, z3.BoolVal(True)), (bad, z3.BoolVal(False))]
ToAsciiOfAscii.call = ToAsciiBeyondLimit.call = ToUnicodeLimit.call = ToUnicode.call = domain_call
class StringForm(Contract):
    """the string form: the result of the other form, and on failure the empty string (keeps: the input)"""
    whole, keeps = True, False
    def setup(self, eng, st):
        n = length_var("len"); A = ffun("in", B64, B8); r = self.data(eng, st, "in", 1, n, A); self.n, self.A, self.K = n, A, fbv("position", 64)
        self.sp, self.rp, self.rn, _ = self.string(eng, st, "result", 1, c64(0)); self.pvals(eng, st, [self.sp, n, Ptr(r, c64(0))])
    def post(self, eng, st, ret, line):
        p, m = string_data(st, self.sp); k = self.K
        if 'converted' not in st.ghost: eng.oblige(st, "post/conversion-was-asked-for", z3.BoolVal(False), line); return
        R, r = st.ghost.get('result'), st.ghost['converted']
        at = lambda: read(st.mem[p.r.id], add(p.off, k))
        if R is not None:
            eng.oblige(st, "post/size-of-the-result", m == LEN(R), line, assume=False)
            if isinstance(p, Ptr): eng.oblige(st, "post/the-converted-domain", imp(ult(k, LEN(R)), elem(at()) == EL(R, k)), line, assume=False)
        elif not self.keeps: eng.oblige(st, "post/empty-on-failure", m == 0, line, assume=False)
        else:
            eng.oblige(st, "post/size-of-the-input-on-failure", m == self.n, line, assume=False)
            if isinstance(p, Ptr): eng.oblige(st, "post/the-input-on-failure", imp(ult(k, self.n), at() == self.A(k)), line, assume=False)
class ToUnicodeString(StringForm):
    keeps = True
def SUBF(f):
    from seq import _SUB
    if f.name() not in _SUB: _SUB[f.name()] = z3.Function("sub." + f.name(), B64, B64, SEQ)
    return _SUB[f.name()]
