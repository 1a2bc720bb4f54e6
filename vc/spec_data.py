"""C18: the shipped data, code point by code point, against Unicode 17 (data/unicode17.txt), with the recorded differences.

The accessor functions are under contract (each returns the layout-defined value of the table arrays or constant sets, for
every argument); what the arrays then say is evaluated here for every code point.  native/data.cpp additionally runs the real
functions on every code point: that run supplies the failing input."""
import os, re, subprocess
import numpy as np
from tables import tables, shipped, expand_ranges, BIDI, TableError
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COLUMNS = 'status mapping bidi ccc nfd combining not_nfc id_start id_continue joining virama'.split()
VALID_ONLY = ('bidi', 'combining', 'joining')
_V = {}
def value(col, c, f):
    """value a finding is about; None where the column does not matter (code points IDNA 17 never lets through)"""
    if f not in _V: _V[f] = {k: shipped(k, f) for k in COLUMNS}
    v = _V[f][col][c]
    if v is None: return None
    if col in VALID_ONLY and shipped('status', 'unicode17')[c] != 'V': return None
    if col == 'joining' and v == '3': return '0'        # the library has no set of transparent characters
    return v
def known(prop=None):
    out = []
    for l in open(HERE + "/known_findings.txt"):
        if not l.startswith("known: "): continue
        d = dict(x.split("=", 1) for x in l[7:].split())
        if prop is None or d['property'] == prop: out.append(d)
    return out
def known_map(d):
    m = {}
    for r in d['ranges'].split(","):
        a, b, v = re.match(r'(\w+)-(\w+):(.*)$', r).groups()
        for c in range(int(a, 16), int(b, 16) + 1): m[c] = v.replace("+", " ")
    return m

def lib_columns():
    """column -> value per code point as the published arrays define it (layout functions of spec_map, spec_norm, spec_label, spec_tab)"""
    from spec_map import map_columns
    T = tables(); t = T.t; cp = np.arange(0x110000); out = {}
    out['status'], out['mapping'] = map_columns(T)
    cls = np.zeros(0x110000, np.int64)
    for a, b, v in zip(t['dir_start'], t['dir_final'], t['dir_value']): cls[int(a):int(b) + 1] = int(v)
    out['bidi'] = [BIDI[v] if v < 24 else '?' for v in cls]
    out['ccc'] = [str(x) for x in t['ccc_block_flat'][t['ccc_index'][cp >> 8] * 256 + (cp & 255)]]
    bl, dd = t['decomposition_block_flat'], t['decomposition_data']
    o = t['decomposition_index'][cp >> 8] * 257 + (cp & 255); a, b = bl[o], bl[o + 1]
    out['nfd'] = ['' if (x & 1) or (x >> 2) == (y >> 2) or 0xAC00 <= c < 0xAC00 + 11172 else ' '.join('%x' % v for v in dd[x >> 2:y >> 2]) for c, x, y in zip(cp, a, b)]
    for g, c in (('combining_ranges', 'combining'), ('id_start', 'id_start'), ('id_continue', 'id_continue')):
        v = expand_ranges(t[g])
        if c.startswith('id_'): v[36] = True          # the two extras of the identifier property are decided by the code
        if c == 'id_start': v[95] = True
        out[c] = ['1' if x else '0' for x in v]
    return out, comp_pairs(T)
def comp_pairs(T):
    """(first, second) -> composite, from the composition table"""
    bl, dd = T.t['composition_block_flat'], T.t['composition_data']; ix = T.t['composition_index']; out = {}; ok = True
    for c in range(0x110000):
        o = int(ix[c >> 8]) * 257 + (c & 255); a, b = int(bl[o]), int(bl[o + 1])
        if (b - a) & 1 or b > len(dd): ok = False; continue
        for k in range(a, b, 2):
            if (c, int(dd[k])) in out: ok = False
            out[(c, int(dd[k]))] = int(dd[k + 1])
    return out if ok else None
def u17_pairs(km):
    """primary composites of Unicode 17 (with the recorded missing decompositions left out): full decompositions split at the last code point"""
    nfd, nn = shipped('nfd', 'unicode17'), shipped('not_nfc', 'unicode17'); by = {}; out = {}
    N = {c: tuple(int(x, 16) for x in nfd[c].split()) for c in range(0x110000) if nfd[c] and nn[c] == '0' and c not in km}
    for c, d in N.items(): by[d] = c
    for c, d in N.items():
        h = d[:-1]
        if len(h) == 1: out[(h[0], d[-1])] = c
        elif h in by: out[(by[h], d[-1])] = c
        else: out[('?', c)] = c
    return out

def extra(prop, tier, seed, work):
    import driver
    problems = []; cov = {}; n = d = 0; kn = []; wit = None
    K = {x['column']: (x, known_map(x)) for x in known('C18')}
    try: lib, pairs = lib_columns()
    except (TableError, IndexError, KeyError, ValueError) as ex: return dict(problems=[("C18/data/tables-readable", str(ex))], obligations=1, discharged=0)
    for col in COLUMNS:
        n += 1; bad = []; km = K[col][1] if col in K else {}; seen = 0
        src = lib.get(col)
        for c in range(0x110000):
            w = value(col, c, "unicode17")
            if w is None: continue
            g = src[c] if src is not None else value(col, c, "shipped")   # joiner sets: proved equal to the shipped column by the contract of is_label_valid; not_nfc: by the pair table
            if col == 'joining' and g == '3': g = '0'
            if g == w: continue
            if c in km and km[c] == g: seen += 1; continue
            bad.append((c, g, w))
        if bad: problems.append(("C18/data/%s-is-the-Unicode-17-value-for-every-code-point" % col, "%d code points differ, first: %s" % (len(bad), ", ".join("U+%04X has %r, Unicode 17: %r" % x for x in bad[:5]))))
        else: d += 1
        if seen: kn.append("%s: %s (%d code points, first U+%04X)" % (col, K[col][0]['what'].replace("_", " "), seen, min(K[col][1])))
    n += 1; want = u17_pairs(K['nfd'][1] if 'nfd' in K else {})
    if pairs == want: d += 1
    else:
        x = sorted(set((pairs or {}).items()) ^ set(want.items()), key=str)[:4]
        problems.append(("C18/data/composition-table-holds-exactly-the-primary-composites", "differences: %s" % (x,)))
    cov['data_evaluation'] = dict(columns=COLUMNS + ['composition pairs'], code_points=0x110000, against="data/unicode17.txt", recorded_differences=sum(len(x[1]) for x in K.values()))
    # the real functions on every code point
    for o in (["-DWITH_INTERNALS"], []):
        exe, err = driver.build_native(work, o, "data.cpp", "data")
        if exe: break
    if exe is None: problems.append(("C18/data/harness", err))
    else:
        r = subprocess.run([exe, HERE + "/data/shipped.txt", HERE + "/data/unicode17.txt"], capture_output=True, text=True, env=driver.ENVN, timeout=400)
        m = re.search(r"WITNESS (.*)", r.stdout); c = re.search(r"CHECKED (\d+)", r.stdout)
        if m: wit = dict(hex='', text=m.group(1)[:600])
        elif r.returncode or not c: wit = dict(hex='', text="run over all code points: exit %d %s" % (r.returncode, r.stderr[-300:]))
        else: cov['evaluations'] = int(c.group(1)); cov['distinct_nontrivial'] = int(c.group(1)); cov['rule'] = "complete run of the real lookups over all code points (each evaluation one code point in one column or probe context; distinct by construction)"
    return dict(problems=problems, witness=wit, coverage=cov, known=kn, obligations=n, discharged=d)

def extra_c09(prop, tier, seed, work):
    """recorded findings of C09: run the real code on the listed labels"""
    import driver
    exe, err = driver.build_native(work, [], "data.cpp", "data")
    if exe is None: return dict(problems=[("C09/known-findings/harness", err)])
    kn = []
    for d in known('C09'):
        r = subprocess.run([exe, "label", d['input'].replace("+", ",")], capture_output=True, text=True, env=driver.ENVN, timeout=60)
        if "VALID 1" in r.stdout: kn.append("is_label_valid accepts [%s]: %s" % (d['input'].replace("+", " ").upper(), d['what'].replace("_", " ")))
    return dict(known=kn)
