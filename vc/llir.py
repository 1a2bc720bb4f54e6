"""Parser for the subset of textual LLVM IR that extract.py produces."""
import re

class IRError(Exception):
    pass

# ---- types: ('i',n) ('ptr',) ('arr',n,T) ('struct',[T..],packed) ('void',) ('named',name) ('label',)
TOK = re.compile(r'\s*(c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"|[%@]"[^"]*"|[%@][-\w.$]+|![-\w.$]*|#\d+|\.\.\.|"[^"]*"|-?0x[0-9A-Fa-f]+|-?\d+|[A-Za-z_][\w.$]*|[()\[\]{}<>,=*:;|])')

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise IRError("token: " + s[i:i+60])
        out.append(m.group(1)); i = m.end()
    return out

class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        if self.next() != x:
            raise IRError("expected %s at %s" % (x, self.t[max(0, self.i-5):self.i+5]))
    def type(self):
        x = self.next()
        if re.fullmatch(r'i\d+', x):
            return ('i', int(x[1:]))
        if x == 'ptr': return ('ptr',)
        if x == 'void': return ('void',)
        if x == 'label': return ('label',)
        if x == 'metadata': return ('meta',)
        if x in ('float', 'double'): return (x,)
        if x == '[':
            n = int(self.next()); self.expect('x'); t = self.type(); self.expect(']')
            return ('arr', n, t)
        if x == '{':
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'): break
                    self.expect(',')
            return ('struct', tuple(fs), False)
        if x == '<':
            if self.peek() == '{':
                self.next(); fs = []
                while True:
                    fs.append(self.type())
                    if self.accept('}'): break
                    self.expect(',')
                self.expect('>')
                return ('struct', tuple(fs), True)
            n = int(self.next()); self.expect('x'); t = self.type(); self.expect('>')
            return ('vec', n, t)
        if x.startswith('%'):
            return ('named', x[1:].strip('"'))
        raise IRError("type " + x)
    ATTRS = {'noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
             'returned', 'immarg', 'dead_on_unwind', 'writable', 'inreg', 'nofree', 'nest', 'swiftself', 'noreturn', 'allocalign', 'allocptr'}
    def skip_attrs(self):
        out = []
        while True:
            x = self.peek()
            if x in self.ATTRS:
                out.append(self.next())
            elif x == 'align':
                self.next(); self.next() if self.peek() != '(' else None
                if self.accept('('):
                    self.next(); self.expect(')')
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'range', 'memory', 'captures', 'initializes', 'preallocated', 'inalloca', 'nofpclass'):
                out.append(self.next())
                if self.accept('('):
                    d = 1
                    while d:
                        y = self.next()
                        d += y == '('; d -= y == ')'
            else:
                return out
    # operand value of a given type
    def value(self, ty):
        x = self.next()
        if x in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'add', 'sub', 'addrspacecast'):
            if x == 'getelementptr':
                self.accept('inbounds'); self.accept('nuw')
                self.expect('(')
                st = self.type(); self.expect(',')
                pt = self.type(); base = self.value(pt); idx = []
                while self.accept(','):
                    self.accept('inrange')
                    it = self.type(); idx.append((it, self.value(it)))
                self.expect(')')
                return ('cgep', st, base, idx)
            raise IRError("constexpr " + x)
        if x[0] == '%': return ('reg', x[1:].strip('"'))
        if x[0] == '@': return ('glob', x[1:].strip('"'))
        if x in ('true', 'false'): return ('int', 1 if x == 'true' else 0)
        if x == 'null': return ('null',)
        if x in ('undef', 'poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if re.fullmatch(r'-?\d+', x): return ('int', int(x))
        if x.startswith('c"'):
            return ('bytes', unescape(x[2:-1]))
        if x == '[' or x == '{' or x == '<':
            end = {'[': ']', '{': '}', '<': '>'}[x]
            items = []
            packed = False
            if x == '<' and self.peek() == '{':
                self.next(); packed = True; end = '}'
            if self.peek() != end:
                while True:
                    t = self.type(); items.append((t, self.value(t)))
                    if not self.accept(','): break
            self.expect(end)
            if packed: self.expect('>')
            return ('agg', items)
        raise IRError("value " + x)

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'text')
    def __init__(self, op, res, ty, a, line, text):
        self.op, self.res, self.ty, self.a, self.line, self.text = op, res, ty, a, line, text
    def __repr__(self): return self.text

class Block:
    def __init__(self, name):
        self.name, self.phis, self.insts = name, [], []

class Func:
    def __init__(self, name):
        self.name, self.params, self.blocks, self.ret = name, [], {}, None
        self.order = []; self.attrs = ""

class Global:
    def __init__(self, name, ty, init, const, line):
        self.name, self.ty, self.init, self.const, self.line = name, ty, init, const, line

class Module:
    def __init__(self, text):
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, set()
        self.dbg = {}
        self.parse(text)

    # --- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t
    def align(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n: a *= 2
            return min(a, 16)
        if t[0] == 'ptr': return 8
        if t[0] in ('arr', 'vec'): return self.align(t[2])
        if t[0] == 'struct':
            return 1 if t[2] else max([self.align(f) for f in t[1]] or [1])
        raise IRError("align %r" % (t,))
    def size(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            n = (t[1] + 7) // 8; a = self.align(t)
            return (n + a - 1) // a * a
        if t[0] == 'ptr': return 8
        if t[0] in ('arr', 'vec'): return t[1] * self.size(t[2])
        if t[0] == 'struct':
            o = 0
            for f in t[1]:
                a = 1 if t[2] else self.align(f)
                o = (o + a - 1) // a * a + self.size(f)
            a = self.align(t)
            return (o + a - 1) // a * a
        raise IRError("size %r" % (t,))
    def field_offsets(self, t):
        t = self.resolve(t); o = 0; out = []
        for f in t[1]:
            a = 1 if t[2] else self.align(f)
            o = (o + a - 1) // a * a
            out.append(o); o += self.size(f)
        return out

    def parse(self, text):
        cur = None; blk = None
        loc = re.compile(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)')
        lines = text.split("\n")
        for l in lines:
            m = loc.match(l)
            if m: self.dbg[m.group(1)] = int(m.group(2))
        i = 0
        while i < len(lines):
            l = lines[i]; i += 1
            if not l or l[0] in ';!':
                continue
            if cur is None:
                if l.startswith('%') and ' = type ' in l:
                    n, t = l.split(' = type ', 1)
                    if t.strip() == 'opaque': continue
                    self.types[n[1:].strip('"')] = P(tokenize(t), self).type()
                elif l.startswith('@'):
                    self.parse_global(l)
                elif l.startswith('define'):
                    cur = self.parse_define(l); blk = None
                elif l.startswith('declare'):
                    m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                    self.decls.add(m.group(1).strip('"'))
                continue
            if l.startswith('}'):
                self.funcs[cur.name] = cur; cur = None; continue
            if not l.startswith(' '):
                m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
                if m:
                    blk = Block(m.group(1).strip('"')); cur.blocks[blk.name] = blk; cur.order.append(blk.name)
                    continue
                raise IRError("line " + l)
            if blk is None:
                blk = Block('entry'); cur.blocks['entry'] = blk; cur.order.append('entry')
            s = l.strip()
            if s.startswith('switch') and '[' in s and ']' not in s:
                while ']' not in lines[i]:
                    s += " " + lines[i].strip(); i += 1
                s += " " + lines[i].strip(); i += 1
            try: inst = self.parse_inst(s)
            except IRError as ex: inst = Inst('unparsed: %s' % ex, None, None, [], 0, s)
            if inst.op == 'phi': blk.phis.append(inst)
            else: blk.insts.append(inst)

    def parse_global(self, l):
        m = re.match(r'^@("[^"]*"|[-\w.$]+) = (.*)$', l)
        name, rest = m.group(1).strip('"'), m.group(2)
        m = re.search(r'\b(global|constant)\b ', rest)
        if not m: return
        const = m.group(1) == 'constant'
        body = rest[m.end():]
        if 'external' in rest[:m.start()]:
            p = P(tokenize(body), self); t = p.type()
            self.globals[name] = Global(name, t, None, const, l); return
        # lazily parse the initialiser (large)
        self.globals[name] = Global(name, None, body, const, l)

    def global_info(self, name):
        g = self.globals[name]
        if g.ty is None:
            p = P(tokenize(g.init), self)
            g.ty = p.type(); g.init = p.value(g.ty)
        return g

    def parse_define(self, l):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
        f = Func(m.group(1).strip('"'))
        pre = l[len('define'):m.start()]
        toks = tokenize(pre)
        # return type = last complete type in prefix
        p = P(toks, self)
        while p.peek() in ('dso_local', 'internal', 'linkonce_odr', 'private', 'weak', 'hidden', 'local_unnamed_addr', 'unnamed_addr', 'fastcc', 'weak_odr'):
            p.next()
        p.skip_attrs(); f.ret = p.type()
        rest = l[m.end():]
        p = P(tokenize(rest[:rest.rindex('{')]), self)
        if not p.accept(')'):
            while True:
                t = p.type(); p.skip_attrs()
                nm = p.next()
                f.params.append((t, nm[1:].strip('"')))
                if p.accept(')'): break
                p.expect(',')
        return f

    def parse_inst(self, s):
        text = s
        line = 0
        m = re.search(r', !dbg !(\d+)', s)
        if m: line = self.dbg.get(m.group(1), 0)
        # strip metadata attachments
        s = re.sub(r', ![\w.]+ !\d+', '', s)
        s = re.sub(r'(, )?!srcloc !\d+', '', s)
        p = P(tokenize(s), self)
        res = None
        if p.peek(1) == '=':
            res = p.next()[1:].strip('"'); p.next()
        op = p.next()
        def mk(ty, a): return Inst(op, res, ty, a, line, text)
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'):
            flags = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): flags.add(p.next())
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return mk(t, (a, b, flags))
        if op == 'icmp':
            pr = p.next()
            if pr == 'samesign': pr = p.next()
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return mk(t, (pr, a, b))
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
            t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
            return mk(t2, (t, a))
        if op == 'freeze':
            t = p.type(); return mk(t, (p.value(t),))
        if op == 'select':
            t = p.type(); c = p.value(t); p.expect(',')
            t1 = p.type(); a = p.value(t1); p.expect(','); t2 = p.type(); b = p.value(t2)
            return mk(t1, (c, a, b))
        if op == 'load':
            atomic = p.accept('atomic'); p.accept('volatile')
            t = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
            order = None
            if atomic: order = p.next()
            return mk(t, (a, order))
        if op == 'store':
            atomic = p.accept('atomic'); p.accept('volatile')
            t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
            order = None
            if atomic: order = p.next()
            return mk(t, (v, a, order))
        if op == 'cmpxchg':
            wk = p.accept('weak'); p.accept('volatile')
            pt = p.type(); a = p.value(pt); p.expect(','); t = p.type(); c = p.value(t); p.expect(','); t = p.type(); n = p.value(t)
            o1 = p.next(); o2 = p.next()
            return mk(t, (a, c, n, o1, o2, 'weak' if wk else ''))
        if op == 'atomicrmw':
            p.accept('volatile'); o = p.next(); pt = p.type(); a = p.value(pt); p.expect(','); t = p.type(); v = p.value(t)
            return mk(t, (o, a, v, p.next()))
        if op == 'fence':
            return mk(None, (p.next(),))
        if op == 'alloca':
            t = p.type(); n = None
            if p.accept(',') and p.peek() != 'align':
                t2 = p.type(); n = p.value(t2)
            return mk(t, (n,))
        if op == 'getelementptr':
            inb = p.accept('inbounds')
            while p.peek() in ('nuw', 'nusw'): p.next()
            st = p.type(); p.expect(','); pt = p.type(); b = p.value(pt); idx = []
            while p.accept(','):
                it = p.type(); idx.append((it, p.value(it)))
            return mk(('ptr',), (st, b, idx, inb))
        if op == 'br':
            if p.peek() == 'label':
                p.next(); return mk(None, (p.next()[1:].strip('"'),))
            t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next()[1:].strip('"')
            p.expect(','); p.expect('label'); b = p.next()[1:].strip('"')
            return mk(None, (c, a, b))
        if op == 'switch':
            t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next()[1:].strip('"'); p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv[1], p.next()[1:].strip('"')))
            return mk(t, (v, d, cases))
        if op == 'ret':
            t = p.type()
            return mk(t, (p.value(t) if t[0] != 'void' else None,))
        if op == 'unreachable':
            return mk(None, ())
        if op == 'phi':
            t = p.type(); inc = []
            while True:
                p.expect('['); v = p.value(t); p.expect(','); b = p.next()[1:].strip('"'); p.expect(']')
                inc.append((v, b))
                if not p.accept(','): break
            return mk(t, (inc,))
        if op == 'extractvalue':
            t = p.type(); v = p.value(t); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return mk(t, (v, idx))
        if op == 'insertvalue':
            t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); e = p.value(t2); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return mk(t, (v, t2, e, idx))
        if op == 'call':
            while p.peek() in ('fastcc', 'nnan', 'ninf'): p.next()
            p.skip_attrs(); t = p.type()
            if p.peek() == '(':   # function type
                d = 0
                while True:
                    x = p.next(); d += x == '('; d -= x == ')'
                    if d == 0: break
            if p.peek() == 'asm':
                return Inst('asm', res, t, (), line, text)
            callee = p.value(('ptr',)); p.expect('('); args = []
            if not p.accept(')'):
                while True:
                    at = p.type(); p.skip_attrs()
                    if at[0] == 'meta':
                        p.next(); v = ('undef',)
                    else:
                        v = p.value(at)
                    args.append((at, v))
                    if p.accept(')'): break
                    p.expect(',')
            return Inst('call', res, t, (callee, args), line, text)
        raise IRError("inst " + text)

# ---- CFG: natural loops
class Loops:
    def __init__(self, f):
        succ = {}
        for b in f.order:
            t = f.blocks[b].insts[-1]
            if t.op == 'br': s = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch': s = [t.a[1]] + [x for _, x in t.a[2]]
            else: s = []
            succ[b] = list(dict.fromkeys(s))
        self.succ = succ
        entry = f.order[0]
        # reachable, rpo
        seen, order = set(), []
        st = [(entry, iter(succ[entry]))]; seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s]))); break
            else:
                order.append(b); st.pop()
        rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]: preds[s].append(b)
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while num[a] > num[c]: a = idom[a]
                        while num[c] > num[a]: c = idom[c]
                    n = a
                if idom.get(b) != n: idom[b] = n; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = idom[b]
        self.body = {}
        self.latches = {}
        self.irreducible = []
        for b in rpo:
            for s in succ[b]:
                if num[s] <= num[b]:
                    if not dom(s, b):
                        self.irreducible.append((b, s)); continue
                    body = self.body.setdefault(s, {s}); self.latches.setdefault(s, []).append(b)
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in body: continue
                        body.add(x); w += preds[x]
        self.preds = preds; self.rpo = rpo
