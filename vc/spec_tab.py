"""C04, C09, C10, C14: contracts of the functions that read the Unicode tables."""
from world import *
from tables import *
B8 = z3.BitVecSort(8); B32 = z3.BitVecSort(32); BOOL = z3.BoolSort()

class ValidName(Contract):
    """true exactly for IdentifierStart / IdentifierPart with respect to the identifier range tables"""
    templates = [auto_lb]
    def setup(self, eng, st):
        self.cp, self.first = fbv("cp", 32), fbool("first")
        tab = eng.w.table_mem()
        self.pvals(eng, st, [self.cp, self.first])
        self.some = {g: tab.in_ranges(g, self.cp) for g in ('id_start', 'id_continue')}
        for g in self.some:
            tab.sorted_table(g).register(eng, self.cp)
            v = tab.T.t[g]
            tab.T.check(g + "/contains-no-surrogate-and-no-value-above-10FFFF", no_surr(v))
            want = col_bool(g); want[36] = False       # '$' (and '_' as a start) are the two extras of the property
            if g == 'id_start': want[95] = False
            tab.T.check(g + "/ranges-are-exactly-ID_" + g[3:].title(), (expand_ranges(v) == want).all())
    def post(self, eng, st, ret, line):
        cp = self.cp
        letter = z3.Or(z3.And(z3.UGE(cp, 65), z3.ULE(cp, 90)), z3.And(z3.UGE(cp, 97), z3.ULE(cp, 122)))
        digit = z3.And(z3.UGE(cp, 48), z3.ULE(cp, 57))
        start = z3.Or(cp == 36, cp == 95, letter, self.some['id_start'])
        part = z3.Or(cp == 36, letter, digit, self.some['id_continue'])
        eng.oblige(st, "post/true-only-for-identifier-code-points", z3.Implies(ret, z3.If(self.first, start, part)), line)
        eng.oblige(st, "post/surrogates-and-beyond-Unicode-are-rejected", z3.Implies(z3.Or(z3.UGT(cp, 0x10FFFF), z3.And(z3.UGE(cp, 0xD800), z3.ULE(cp, 0xDFFF))), z3.Not(ret)), line)
        ens = st.ghost.get('ensured', z3.BoolVal(True))
        okcp = z3.And(ens, z3.ULE(cp, 0x10FFFF), z3.Or(z3.ULT(cp, 0xD800), z3.UGT(cp, 0xDFFF)))
        eng.oblige(st, "post/true-for-every-identifier-code-point", z3.Implies(okcp, z3.Implies(z3.If(self.first, start, part), ret)), line)
        ascii_ = z3.Or(cp == 36, letter, z3.And(self.first, cp == 95), z3.And(z3.Not(self.first), digit))
        eng.oblige(st, "post/ASCII-answers-need-no-table", z3.Implies(ascii_, ret), line)

def no_surr(v):
    lo, hi = v[0::2], v[1::2]
    return bool((hi <= 0x10FFFF).all() and not ((lo <= 0xDFFF) & (hi >= 0xD800)).any())
def covers(v, cps):
    lo, hi = v[0::2], v[1::2]
    return all(((lo <= c) & (hi >= c)).any() for c in cps)

class ValidNameNoTables(ValidName):
    """C16: touches no table and answers no for every code point that would need one, when initialisation failed"""
    def setup(self, eng, st):
        self.cp, self.first = fbv("cp", 32), fbool("first"); eng.w.table_mem(); self.pvals(eng, st, [self.cp, self.first])
    def post(self, eng, st, ret, line):
        eng.oblige(st, "post/failed-initialisation-is-reported-as-no", z3.Implies(z3.And(ret, z3.UGT(self.cp, 127)), z3.And(eng.w.table_mem().ready, st.ghost.get('ensured', z3.BoolVal(False)))), line)
