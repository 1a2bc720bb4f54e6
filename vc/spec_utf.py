"""C01, C02, C03, C19: contracts of the transcoding and ASCII functions."""
from world import *
B8 = z3.BitVecSort(8); B32 = z3.BitVecSort(32); BOOL = z3.BoolSort()
def ule(a, b): return z3.ULE(a, b)
def ult(a, b): return z3.ULT(a, b)
def zx32(b): return z3.ZeroExt(32 - b.size(), b)
MAXLEN = BV(1 << 40, 64)

class Utf8Spec:
    """Unicode Table 3-7 (well-formed UTF-8 byte sequences) over the bytes B[0..n)"""
    def __init__(self, B, n, tag="u8"):
        self.B, self.n = B, n
        self.R = ffun(tag + ".reach", B64, B64, BOOL)   # R(p,o): [0,p) is the encoding of o scalar values
        self.S = ffun(tag + ".scalar", B64, B32)        # S(k): k-th scalar value
        self.bad = fbool(tag + ".illformed")
        self.cnt = ffun(tag + ".leads", B64, B64)       # number of non-continuation bytes in [0,p)
    def b(self, p, k=0): return self.B(add(p, c64(k)))
    @staticmethod
    def rng(x, a, b): return z3.And(z3.UGE(x, BV(a, 8)), z3.ULE(x, BV(b, 8)))
    def seqs(self, p):
        """[(length, well-formed sequence of that length starts at p, its scalar value)]"""
        b0, b1, b2, b3 = [self.b(p, k) for k in range(4)]
        r = self.rng; room = lambda k: z3.And(ult(p, self.n), z3.UGE(self.n - p, c64(k)))
        t = lambda x: r(x, 0x80, 0xBF)
        z = zx32
        w1 = z3.And(room(1), r(b0, 0, 0x7F))
        w2 = z3.And(room(2), r(b0, 0xC2, 0xDF), t(b1))
        w3 = z3.And(room(3), t(b2), z3.Or(z3.And(b0 == 0xE0, r(b1, 0xA0, 0xBF)), z3.And(r(b0, 0xE1, 0xEC), t(b1)),
                    z3.And(b0 == 0xED, r(b1, 0x80, 0x9F)), z3.And(r(b0, 0xEE, 0xEF), t(b1))))
        w4 = z3.And(room(4), t(b2), t(b3), z3.Or(z3.And(b0 == 0xF0, r(b1, 0x90, 0xBF)), z3.And(r(b0, 0xF1, 0xF3), t(b1)),
                    z3.And(b0 == 0xF4, r(b1, 0x80, 0x8F))))
        v2 = z3.Concat(BV(0, 21), z3.Extract(4, 0, b0), z3.Extract(5, 0, b1))
        v3 = z3.Concat(BV(0, 16), z3.Extract(3, 0, b0), z3.Extract(5, 0, b1), z3.Extract(5, 0, b2))
        v4 = z3.Concat(BV(0, 11), z3.Extract(2, 0, b0), z3.Extract(5, 0, b1), z3.Extract(5, 0, b2), z3.Extract(5, 0, b3))
        return [(1, w1, z(b0)), (2, w2, v2), (3, w3, v3), (4, w4, v4)]
    def lead(self, x): return z3.Or(ult(x, BV(0x80, 8)), z3.UGE(x, BV(0xC0, 8)))
    def step(self, p, o):
        out = []; any_ = []
        for l, w, v in self.seqs(p):
            out.append(z3.Implies(z3.And(self.R(p, o), w), z3.And(self.R(add(p, c64(l)), add(o, c64(1))), self.S(o) == v)))
            any_.append(w)
        out.append(z3.Implies(z3.And(self.R(p, o), ult(p, self.n), z3.Not(z3.Or(any_))), self.bad))
        return out
    def facts(self, st):
        n, cnt = self.n, self.cnt
        st.assume(self.R(c64(0), c64(0)))
        st.assume(Fact("utf8-step", self.R, self.step, maxgen=1))
        st.assume([cnt(c64(0)) == 0])
        # definition of cnt, and its monotonicity (proved by induction in lemma_cnt)
        st.assume(Fact("leads-step", cnt, lambda p: [
            z3.Implies(ult(p, n), cnt(p + 1) == cnt(p) + z3.If(self.lead(self.b(p)), c64(1), c64(0)))], maxgen=4))
        st.assume(Fact("leads-mono", cnt, lambda p: [z3.Implies(ule(p, n), z3.And(ule(cnt(p), cnt(n)), ule(cnt(p), p), ule(cnt(n) - cnt(p), n - p), small(cnt(p))))]))

class Utf8ToUtf32(Contract):
    """ret = o>0: the input is well-formed and out[0..o) are its scalar values; ret = 0: empty or ill-formed"""
    def setup(self, eng, st):
        n = length_var("len")
        self.n = n
        self.B = ffun("in", B64, B8)
        self.u = Utf8Spec(self.B, n); self.u.facts(st)
        src = self.data(eng, st, "in", 1, n, self.B)
        self.out = self.data(eng, st, "out", 4, self.u.cnt(n), None, True)
        self.pvals(eng, st, [Ptr(src, c64(0)), n, Ptr(self.out, c64(0))])
    def content_ok(self, st, o):
        c = st.mem[self.out.id]
        return FA(lambda k: z3.Implies(ult(k, o), read(c, k) == self.u.S(k)), base_decls(c) + [self.u.S], name="out[k]=S[k]")
    @property
    def templates(self): return [type(self).tmpl]
    @staticmethod
    def tmpl(eng, view, eview):
        self = eng.c; u = self.u
        out = self.cands_pair(eng, view, "reach", lambda V, p, o: z3.And(u.R(p, o), (p == 0) == (o == 0)))
        out += self.cands_pair(eng, view, "room", lambda V, p, o: z3.And(ule(p, u.n), ule(o, u.cnt(p))))
        out += self.cands_one(eng, view, "content", lambda V, o: self.content_ok(V.st, o))
        return out
    def post(self, eng, st, ret, line):
        u = self.u
        eng.oblige(st, "post/accepts-only-well-formed-and-rejects-only-ill-formed",
                   z3.If(z3.And(ret == 0, u.n != 0), u.bad, u.R(u.n, ret)), line)
        eng.oblige(st, "post/output-is-the-scalar-values", self.content_ok(st, ret), line)

class Utf32LengthFromUtf8(Contract):
    def setup(self, eng, st):
        n = length_var("len")
        self.B = ffun("in", B64, B8); self.u = Utf8Spec(self.B, n); self.u.facts(st)
        src = self.data(eng, st, "in", 1, n, self.B)
        self.pvals(eng, st, [Ptr(src, c64(0)), n])
    @property
    def templates(self):
        return [lambda eng, view, ev: self.cands_pair(eng, view, "leads", lambda V, p, o: z3.And(ule(p, self.u.n), o == self.u.cnt(p)))
                + self.cands_pair(eng, view, "leads-left", lambda V, p, o: z3.And(ule(p, self.u.n), o == self.u.cnt(self.u.n) - self.u.cnt(p)))]
    def post(self, eng, st, ret, line):
        eng.oblige(st, "post/counts-lead-bytes", ret == self.u.cnt(self.u.n), line)

class Utf32Spec:
    """shortest UTF-8 forms of the elements A[0..n)"""
    def __init__(self, A, n, tag="u32"):
        self.A, self.n = A, n
        self.ok = ffun(tag + ".scalars", B64, BOOL)     # A[0..i) are scalar values
        self.plen = ffun(tag + ".bytes", B64, B64)      # predicted length of A[0..i)
        self.T = ffun(tag + ".byte", B64, B8)           # T(x): byte x of the encoding
        self.bad = fbool(tag + ".nonscalar")
    @staticmethod
    def scalar(v): return z3.And(ule(v, BV(0x10FFFF, 32)), z3.Or(ult(v, BV(0xD800, 32)), z3.UGT(v, BV(0xDFFF, 32))))
    @staticmethod
    def size(v):
        return z3.If(ult(v, BV(0x80, 32)), c64(1), z3.If(ult(v, BV(0x800, 32)), c64(2), z3.If(ult(v, BV(0x10000, 32)), c64(3), c64(4))))
    @staticmethod
    def enc(v):
        """[(condition, [bytes])]: Table 3-6"""
        x = lambda hi, lo: z3.Extract(hi, lo, v)
        C = lambda *a: z3.Concat(*a)
        t = lambda hi, lo: C(BV(2, 2), x(hi, lo))
        return [(ult(v, BV(0x80, 32)), [x(7, 0)]),
                (z3.And(z3.UGE(v, BV(0x80, 32)), ult(v, BV(0x800, 32))), [C(BV(6, 3), x(10, 6)), t(5, 0)]),
                (z3.And(z3.UGE(v, BV(0x800, 32)), ult(v, BV(0x10000, 32))), [C(BV(14, 4), x(15, 12)), t(11, 6), t(5, 0)]),
                (z3.UGE(v, BV(0x10000, 32)), [C(BV(30, 5), x(20, 18)), t(17, 12), t(11, 6), t(5, 0)])]
    def facts(self, st):
        n, A, ok, plen, T = self.n, self.A, self.ok, self.plen, self.T
        st.assume([ok(c64(0)), plen(c64(0)) == 0])
        st.assume(Fact("scalars-step", ok, lambda i: [
            z3.Implies(z3.And(ok(i), ult(i, n), self.scalar(A(i))), ok(i + 1)),
            z3.Implies(z3.And(ok(i), ult(i, n), z3.Not(self.scalar(A(i)))), self.bad)], maxgen=2))
        def pl(i):
            out = [z3.Implies(ult(i, n), plen(i + 1) == plen(i) + self.size(A(i)))]
            for c, bs in self.enc(A(i)):
                out.append(z3.Implies(z3.And(ult(i, n), self.scalar(A(i)), c), z3.And([T(plen(i) + j) == b for j, b in enumerate(bs)])))
            return out
        st.assume(Fact("encoding-step", plen, pl, maxgen=1))
        st.assume(Fact("bytes-mono", plen, lambda p: [z3.Implies(ule(p, n), z3.And(ule(plen(p), plen(n)), ule(p, plen(p)), small(plen(p)), ule(n - p, plen(n) - plen(p))))]))

class Utf32ToUtf8(Contract):
    """ret = plen(n) and out[0..ret) is the encoding, if every element is a scalar value; else ret = 0"""
    def setup(self, eng, st):
        n = length_var("len"); self.A = ffun("in", B64, B32)
        self.u = Utf32Spec(self.A, n); self.u.facts(st)
        src = self.data(eng, st, "in", 4, n, self.A)
        self.out = self.data(eng, st, "out", 1, self.u.plen(n), None, True)
        self.pvals(eng, st, [Ptr(src, c64(0)), n, Ptr(self.out, c64(0))])
    def content_ok(self, st, o):
        c = st.mem[self.out.id]
        return FA(lambda k: z3.Implies(ult(k, o), read(c, k) == self.u.T(k)), base_decls(c) + [self.u.T], name="out[k]=T[k]")
    @property
    def templates(self): return [self.tmpl]
    def tmpl(self, eng, view, eview):
        u = self.u
        return self.cands_pair(eng, view, "encoded", lambda V, p, o: z3.And(u.ok(p), ule(p, u.n), o == u.plen(p))) \
            + self.cands_one(eng, view, "content", lambda V, o: self.content_ok(V.st, o))
    def post(self, eng, st, ret, line):
        u = self.u
        eng.oblige(st, "post/succeeds-exactly-on-scalar-values-with-predicted-length",
                   z3.If(z3.And(ret == 0, u.n != 0), u.bad, z3.And(u.ok(u.n), ret == u.plen(u.n))), line)
        eng.oblige(st, "post/output-is-the-shortest-encoding", self.content_ok(st, ret), line)

class Utf8LengthFromUtf32(Contract):
    def setup(self, eng, st):
        n = length_var("len"); self.A = ffun("in", B64, B32)
        self.u = Utf32Spec(self.A, n); self.u.facts(st)
        src = self.data(eng, st, "in", 4, n, self.A)
        self.pvals(eng, st, [Ptr(src, c64(0)), n])
    @property
    def templates(self):
        u = self.u
        return [lambda eng, view, ev: self.cands_pair(eng, view, "bytes", lambda V, p, o: z3.And(ule(p, u.n), o == u.plen(p)))
                + self.cands_pair(eng, view, "bytes-left", lambda V, p, o: z3.And(ule(p, u.n), o == u.plen(u.n) - u.plen(p)))]
    def post(self, eng, st, ret, line):
        eng.oblige(st, "post/predicts-the-encoded-length", ret == self.u.plen(self.u.n), line)

def lower8(b): return z3.If(z3.And(z3.UGE(b, BV(0x41, 8)), ule(b, BV(0x5A, 8))), b + BV(32, 8), b)

class AsciiMap(Contract):
    """in place: every byte lowered if the buffer is ASCII; never touches anything else"""
    def setup(self, eng, st):
        n = length_var("len"); self.n = n
        self.B = ffun("in", B64, B8); self.asc = fbool("ascii")
        self.r = self.data(eng, st, "in", 1, n, self.B, True)
        st.assume(FA(lambda k: z3.Implies(z3.And(self.asc, ult(k, n)), ult(self.B(k), BV(0x80, 8))), [self.B], name="ascii"))
        self.pvals(eng, st, [Ptr(self.r, c64(0)), n])
    def done(self, st, i):
        c = st.mem[self.r.id]
        return FA(lambda k: z3.Implies(z3.And(self.asc, ult(k, i)), read(c, k) == lower8(self.B(k))), base_decls(c) + [self.B], name="lowered")
    def rest(self, st, i):
        c = st.mem[self.r.id]
        return FA(lambda k: z3.Implies(z3.And(z3.UGE(k, i), ult(k, self.n)), read(c, k) == self.B(k)), base_decls(c) + [self.B], name="untouched")
    @property
    def templates(self):
        return [lambda eng, view, ev: self.cands_one(eng, view, "lowered", lambda V, i: self.done(V.st, i))
                + self.cands_one(eng, view, "untouched", lambda V, i: self.rest(V.st, i))]
    def post(self, eng, st, ret, line):
        eng.oblige(st, "post/lowers-exactly-A-Z", self.done(st, self.n), line)

FORBIDDEN = [(0, 0x20)] + [(ord(c), ord(c)) for c in '#/:<>?@[\\]^|%'] + [(0x7F, 0xFF)]
def forbidden(b): return z3.Or([z3.And(z3.UGE(b, BV(x, 8)), ule(b, BV(y, 8))) for x, y in FORBIDDEN])

class ContainsForbidden(Contract):
    """true exactly when some byte is a forbidden domain code point (URL standard) or above 0x7F"""
    def setup(self, eng, st):
        n = length_var("len"); self.n = n
        self.B = ffun("in", B64, B8); self.some = fbool("some.forbidden")
        self.r = self.data(eng, st, "in", 1, n, self.B)
        st.assume(Fact("forbidden-witness", self.B, lambda k: [z3.Implies(z3.And(ult(k, n), forbidden(self.B(k))), self.some)]))
        self.pvals(eng, st, [n, Ptr(self.r, c64(0))])
    def none(self, i, j):
        return FA(lambda k: z3.Implies(z3.And(z3.UGE(k, i), ult(k, j)), z3.Not(forbidden(self.B(k)))), [self.B], name="none-forbidden")
    @property
    def templates(self):
        return [lambda eng, view, ev: self.cands_one(eng, view, "none-before", lambda V, i: self.none(c64(0), i))
                + self.cands_one(eng, view, "none-after", lambda V, i: self.none(i, self.n))
                + [Cand("flag->some(%s)" % x, lambda V, x=x: z3.Implies(V.phis[x], self.some)) for x, v in view.phis.items() if isinstance(v, z3.BoolRef)]]
    def post(self, eng, st, ret, line):
        eng.oblige(st, "post/true-only-if-one-is-forbidden", z3.Implies(ret, self.some), line)
        g = self.none(c64(0), self.n)
        eng.oblige(st, "post/false-only-if-none-is-forbidden", FA(lambda k: z3.Or(ret, g.body(k)), g.triggers), line)
