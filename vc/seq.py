"""Strings as values: a sort of sequences, so that contracts of whole-string functions compose.

LEN(s), EL(s,k); two sequences are the same value exactly when length and elements agree (extensionality, with a
position where they differ).  Specification functions map sequences to sequences."""
from engine import *
_fresh_counter = itertools.count()
SEQ = z3.DeclareSort("Str_")
BOOL = z3.BoolSort(); B32 = z3.BitVecSort(32)
LEN = z3.Function("seq.len", SEQ, B64)
EL = z3.Function("seq.el", SEQ, B64, B32)          # elements of byte strings are zero-extended
SUBQ = z3.Function("seq.sub", SEQ, B64, B64, SEQ)
DIFF = z3.Function("seq.diff", SEQ, SEQ, B64)
_SUB = {}
def elem(v): return z3.ZeroExt(32 - v.size(), v) if v.size() < 32 else v

def narrow(c, o, n):
    """content and offset of [o, o+n) with copies that certainly cover it resolved"""
    while isinstance(c, Cp):
        k = simp(sub(o, c.d)); e = simp(z3.And(z3.ULE(k, c.n), z3.ULE(n, c.n - k)))
        if z3.is_true(e) or (isnum(k) and num(k) == 0 and simp(n).eq(simp(c.n))): o = add(c.s, k); c = c.src; continue
        return c, o
    return c, o

def part_of(c, o, n):
    """a stretch of named content; of a known sequence when the content is one"""
    own = getattr(c, 'seq', None)
    if own is not None: return SUBQ(own, o, n)
    f = _SUB.get(c.f.name())
    if f is None: f = _SUB[c.f.name()] = z3.Function("sub." + c.f.name(), B64, B64, SEQ)
    return f(o, n)

def seq_of(eng, st, p, n, name="seq"):
    """the sequence value of the elements p[0..n) in the current state"""
    if isinstance(p, MaybePtr): p = p.p
    if isinstance(p, NullP):
        s = z3.Const("%s!%d" % (name, next(_fresh_counter)), SEQ); st.assume(LEN(s) == n); return s
    if not isinstance(p, Ptr) or p.r.kind == 'cell' or p.sub: raise Unsupported("sequence argument")
    c, o = narrow(st.mem[p.r.id], p.off, n)
    own = getattr(c, 'seq', None)
    if isinstance(c, Base):
        if own is not None and certain(eng, st, z3.And(o == 0, n == LEN(own))): return own
        # the same stretch of the same unchanged content is the same term
        s = part_of(c, simp(o), simp(n))
        if any(x.eq(s) for x in st.ghost.get('seqs', ())): return s
        if own is not None: st.assume(z3.Implies(z3.And(simp(o) == 0, n == LEN(own)), s == own))
    else: s = z3.Const("%s!%d" % (name, next(_fresh_counter)), SEQ)
    st.assume(LEN(s) == n); sid = s.get_id()
    st.assume(Fact("elements", EL, lambda t, k: [z3.Implies(z3.ULT(k, n), EL(s, k) == elem(read(c, add(o, k))))] if t.get_id() == sid else []))
    for d in base_decls(c):
        st.assume(Fact("elements-of", d, lambda *a: [z3.Implies(z3.ULT(sub(a[0], o), n), EL(s, sub(a[0], o)) == elem(read(c, a[0])))]))
    if not isinstance(c, Base):
        for t in st.ghost.get('seqs', ()): extensional(st, s, t)
    st.ghost['seqs'] = st.ghost.get('seqs', ()) + (s,)
    return s


def guard(t, s):
    """when an element of t is an element of s: None (not considered), or the condition"""
    if t.eq(s): return z3.BoolVal(True)
    return t == s if t.num_args() and (t.decl().eq(s.decl()) or (t.decl().name() in SAME and s.decl().name() in SAME)) else None
SAME = ("seq.nfc", "seq.mapped")

def extensional(st, a, b):
    """a == b unless the lengths differ or an element differs"""
    d = DIFF(a, b)
    st.assume(z3.Or(a == b, LEN(a) != LEN(b), z3.And(z3.ULT(d, LEN(a)), EL(a, d) != EL(b, d))))

def same_elements(st, cond, a, b):
    """cond implies that a and b are the same value"""
    st.assume(z3.Implies(cond, a == b))
    ia, ib = a.get_id(), b.get_id()
    st.assume(Fact("same", EL, lambda t, k: [z3.Implies(cond, EL(a, k) == EL(b, k))] if t.get_id() in (ia, ib) else []))

def seq_base(st, s, esz, name):
    """content whose first LEN(s) elements are s"""
    n = LEN(s); c = Base(ffun(name, B64, z3.BitVecSort(8 * esz)), 8 * esz); c.seq = s; sid = s.get_id()
    st.assume(Fact("string-is-seq", c.f, lambda k: [z3.Implies(z3.ULT(k, n), elem(c.f(k)) == EL(s, k))]))
    st.assume(Fact("seq-is-string", EL, lambda t, k: [z3.Implies(z3.And(guard(t, s), z3.ULT(k, n)), elem(c.f(k)) == EL(t, k))] if guard(t, s) is not None else []))
    if not any(x.eq(s) for x in st.ghost.get('seqs', ())): st.ghost['seqs'] = st.ghost.get('seqs', ()) + (s,)
    return c

def set_string(eng, st, sp, buf, n):
    pc, nc = string_obj(sp)
    old = st.mem[pc.id].v
    if isinstance(old, Ptr): st.dead = st.dead | {old.r.id}
    st.mem[pc.id] = Cell(Ptr(buf, c64(0))); st.mem[nc.id] = Cell(n)
    eng.note_write(st, pc); eng.note_write(st, nc); eng.sibling[pc.id] = nc.id

def put_seq(eng, st, sp, s, esz, name="res"):
    """store the sequence s into the std::basic_string object at sp (new buffer)"""
    n = LEN(s)
    st.assume(z3.ULT(n, BV(1 << 60, 64)))
    c = seq_base(st, s, esz, name); buf = strbuf(eng, st, name, esz, n, c)
    set_string(eng, st, sp, buf, n)
    return buf

def string_obj(sp):
    """(data cell, size cell) of the string object sp points at"""
    if not (isinstance(sp, Ptr) and sp.r.obj is not None): raise Unsupported("string object")
    o = sp.r.obj; base = sp.r.boff
    f = {fo - base: fr for fo, fs, fr in o.fields}
    return f[0], f[8]

def string_data(st, sp):
    pc, nc = string_obj(sp)
    return st.mem[pc.id].v, st.mem[nc.id].v

def string_seq(eng, st, sp, name="str"):
    p, n = string_data(st, sp); return seq_of(eng, st, p, n, name)

def same_as_seq(st, sp, s):
    """the string at sp has the elements of s: [size formula, FA]"""
    p, n = string_data(st, sp)
    if not isinstance(p, Ptr): return [n == LEN(s), FA(lambda k: z3.Not(z3.ULT(k, n)), [])]
    c = st.mem[p.r.id]
    return [n == LEN(s), FA(lambda k: z3.Implies(z3.ULT(k, n), elem(read(c, add(p.off, k))) == EL(s, k)), base_decls(c))]

# ---- strings by construction: what was appended to what
CAT, ONE, EMPTY = z3.Function("seq.cat", SEQ, SEQ, SEQ), z3.Function("seq.one", B32, SEQ), z3.Const("seq.empty", SEQ)
def cat_facts(eng):
    eng.gfacts.append(Fact("cat", CAT, lambda x, y: [LEN(CAT(x, y)) == LEN(x) + LEN(y), z3.Implies(LEN(y) == 0, CAT(x, y) == x), z3.Implies(LEN(x) == 0, CAT(x, y) == y)]))
    eng.gfacts.append(Fact("one", ONE, lambda v: [LEN(ONE(v)) == 1]))
def cat(x, y):
    if x.eq(EMPTY): return y
    if y.eq(EMPTY): return x
    if y.decl().eq(CAT): return cat(cat(x, y.arg(0)), y.arg(1))     # always nested to the left
    return CAT(x, y)
def literal(vs):
    r = EMPTY
    for v in vs: r = cat(r, ONE(v))
    return r
def named_elements(st, f, Y, n):
    """Y consists of the first n elements of the content named f"""
    st.assume(Fact("elements-of-part", EL, lambda t, k: [z3.Implies(z3.And(t == Y, z3.ULT(k, n)), EL(t, k) == elem(f(k)))] if t.eq(Y) else []))
    st.assume(Fact("part-elements", f, lambda k: [z3.Implies(z3.ULT(k, n), EL(Y, k) == elem(f(k)))]))
def certain(eng, st, g):
    g = simp(g)
    if z3.is_true(g) or z3.is_false(g): return z3.is_true(g)
    return eng.prover.check(list(st.pc) + [z3.Not(g)], 300)[0] == 'unsat'
def built(eng, st, c, o, n):
    """the elements [o, o+n) of the content as a sequence, following how the content came about"""
    yes = lambda g: certain(eng, st, g)
    o, n = simp(o), simp(n)
    if yes(n == 0): st.assume(LEN(EMPTY) == 0); return EMPTY
    if isinstance(c, Base):
        own = getattr(c, 'seq', None)
        if own is not None and yes(z3.And(o == 0, n == LEN(own))): return own
        s = part_of(c, o, n); st.assume(LEN(s) == n); return s
    if isnum(n) and num(n) <= 16 and (isinstance(c, (Const, Zero)) or (isinstance(c, Cp) and isinstance(c.src, Const))) and (not isinstance(c, Cp) or yes(z3.And(z3.UGE(o, c.d), z3.ULE(o + n, c.d + c.n)))):
        return literal([elem(simp(read(c, add(o, c64(k))))) for k in range(num(n))])
    if isinstance(c, (Cp, Fl)):
        d, e = c.d, c.d + c.n
        if yes(z3.Or(z3.ULE(o + n, d), z3.UGE(o, e))): return built(eng, st, c.prev, o, n)
        if isinstance(c, Cp):
            if yes(z3.And(z3.UGE(o, d), z3.ULE(o + n, e))): return built(eng, st, c.src, add(c.s, sub(o, d)), n)
            if yes(z3.And(z3.ULE(o, d), z3.UGE(o + n, d), z3.ULE(o + n, e))): return cat(built(eng, st, c.prev, o, sub(d, o)), built(eng, st, c.src, c.s, sub(o + n, d)))
            if yes(z3.And(z3.ULE(d, o), z3.ULE(o, e), z3.UGE(o + n, e))): return cat(built(eng, st, c.src, add(c.s, sub(o, d)), sub(e, o)), built(eng, st, c.prev, e, sub(o + n, e)))
    if isinstance(c, St):
        if yes(c.idx == o + n - 1): return cat(built(eng, st, c.prev, o, sub(n, c64(1))), ONE(elem(c.val)))
        if yes(z3.Or(z3.ULT(c.idx, o), z3.UGE(c.idx, o + n))): return built(eng, st, c.prev, o, n)
    s = z3.Const("part!%d" % next(_fresh_counter), SEQ); st.assume(LEN(s) == n); return s
