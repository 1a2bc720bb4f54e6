"""Which functions of /repo carry which contract, and what each property rests on."""
import spec_utf as U
import spec_tab as T
import spec_label as B
import spec_init as G
import spec_inflate as D
import spec_map as M
import spec_norm as N
import spec_dom as H
import spec_data as X
import world

# function key -> (contract class, demangled base name, argument-type substring or '')
FUNCS = {
    'utf8_to_utf32': (U.Utf8ToUtf32, 'utf8_to_utf32', ''),
    'utf32_length_from_utf8': (U.Utf32LengthFromUtf8, 'utf32_length_from_utf8', ''),
    'utf32_to_utf8': (U.Utf32ToUtf8, 'utf32_to_utf8', ''),
    'utf8_length_from_utf32': (U.Utf8LengthFromUtf32, 'utf8_length_from_utf32', ''),
    'ascii_map': (U.AsciiMap, 'ascii_map', ''),
    'contains_forbidden_domain_code_point': (U.ContainsForbidden, 'contains_forbidden_domain_code_point', ''),
    'ensure_tables': (G.EnsureTables, 'ensure_tables', ''),
    'tables_are_ready': (G.TablesAreReady, 'tables_are_ready', ''),
    'crc32_ieee': (G.Crc, 'crc32_ieee', ''),
    'inflate_raw': (D.InflateRaw, 'inflate_raw', ''),
    'find_direction': (B.FindDirection, 'find_direction', ''),
    'find_last_not_of_nsm': (B.LastNotNsm, 'find_last_not_of_nsm', ''),
    'is_rtl_label': (B.IsRtl, 'is_rtl_label', ''),
    'is_label_valid/joiners': (B.ValidC09, 'is_label_valid', ''),
    'is_label_valid/bidi-rules': (B.ValidRules, 'is_label_valid', ''),
    'is_label_valid/never-rejects': (B.ValidNever, 'is_label_valid', ''),
    'is_label_valid/no-tables': (B.ValidNoTables, 'is_label_valid', ''),
    'idna_lookup': (M.Lookup, 'idna_lookup', ''), 'utf8_count_codepoints': (M.CountCps, 'utf8_count_codepoints', ''), 'utf8_next': (M.NextCp, 'utf8_next', ''),
    'map/string': (M.MapView, 'map', '[abi:cxx11]'),
    'map': (M.Map, 'map', '__cxx11'),
    'get_ccc': (N.GetCcc, 'get_ccc', ''), 'canonical_decomp_length': (N.CanonicalLength, 'canonical_decomp_length', ''),
    'compute_decomposition_length': (N.ComputeLength, 'compute_decomposition_length', ''), 'decompose': (N.Decompose, 'decompose', ''),
    'is_already_nfc': (H.IsAlreadyNfc, 'is_already_nfc', ''), 'normalize': (H.Normalize, 'normalize', '__cxx11'),
    'punycode_to_utf32': (H.Decode, 'punycode_to_utf32', ''), 'utf32_to_punycode': (H.Encode, 'utf32_to_punycode', ''),
    'to_ascii': (H.ToAscii, 'to_ascii', '__cxx11'),
    'to_ascii/ascii-input': (H.ToAsciiOfAscii, 'to_ascii', '__cxx11'), 'to_ascii/beyond-limit': (H.ToAsciiBeyondLimit, 'to_ascii', '__cxx11'), 'to_unicode/limit': (H.ToUnicodeLimit, 'to_unicode', '__cxx11'),
    'to_ascii/string': (H.StringForm, 'to_ascii', '[abi:cxx11]'), 'to_unicode/string': (H.ToUnicodeString, 'to_unicode', '[abi:cxx11]'),
    'to_unicode': (H.ToUnicode, 'to_unicode', '__cxx11'),
    'valid_name_code_point/no-tables': (T.ValidNameNoTables, 'valid_name_code_point', ''),
    'valid_name_code_point': (T.ValidName, 'valid_name_code_point', ''),
}
# internal helpers: when a refactoring removes one, its code is verified inside its callers
HELPERS = {'idna_lookup', 'utf8_count_codepoints', 'utf8_next', 'tables_are_ready', 'crc32_ieee', 'find_direction', 'find_last_not_of_nsm', 'is_rtl_label', 'get_ccc', 'canonical_decomp_length', 'compute_decomposition_length', 'decompose'}
def make_world(m, key, names):
    w = world.World(m, {names[k]: FUNCS[k][0](k) for k in names})
    w.names = names
    return w

class Prop:
    def __init__(self, funcs=(), uses=(), lemmas=(), bounded=None, tables=False, extra=None, witness=None, assumptions=(), trusted=()):
        self.funcs, self.lemmas, self.bounded = list(funcs), list(lemmas), bounded
        self.uses = list(uses)
        self.tables, self.extra, self.witness = tables, extra, witness
        self.tech = self.note = None; self.assumptions, self.trusted = list(assumptions), list(trusted)
    NATIVE = frozenset("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C17 C19 C20".split())
    def closure(self): return self.funcs + [u for u in self.uses if u not in self.funcs]
    def order(self): return self.funcs
    @property
    def level(self): return 'proof' if self.funcs and not self.bounded else 'other' if self.funcs else 'exploration'

def witness_init(prop, tier, seed, work):
    """a failing schedule or fault of the real initialisation: racing first calls under TSan, failing allocation, damaged table stream"""
    import driver
    d = ['-DWITH_INTERNALS', '-pthread']; exe, err = driver.build_native(work, d, "init.cpp", "init")
    if exe is None: d = ['-pthread']; exe, err = driver.build_native(work, d, "init.cpp", "init")
    runs = [(exe, ['layout']), (exe, ['alloc']), (exe, ['corrupt', str(seed % 61), '613', '40'])]
    tsan, _ = driver.build_native(work, d + ['-DWITH_TSAN'], "init.cpp", "init_tsan", san="thread")
    runs.append((tsan, ['races', '60' if tier == 'quick' else '600']))
    n = 0
    for e, a in runs:
        if e is None: continue
        t, txt = driver.run_native(e, a); n += 1
        if t: return dict(hex='', text="history '%s': %s" % (' '.join(a), t), run=a), n
    return None, n
PROPS = {
    'C01': Prop(['utf8_to_utf32', 'utf32_length_from_utf8']),
    'C02': Prop(['utf32_to_utf8', 'utf8_length_from_utf32']),
    'C04': Prop(['map', 'map/string', 'idna_lookup', 'utf8_count_codepoints', 'utf8_next'], ['ensure_tables']),
    'C09': Prop(['is_label_valid/joiners'], ['ensure_tables', 'find_direction', 'find_last_not_of_nsm', 'is_rtl_label'], extra=X.extra_c09),
    'C10': Prop(['is_label_valid/bidi-rules', 'is_label_valid/never-rejects', 'find_direction', 'find_last_not_of_nsm', 'is_rtl_label'], ['ensure_tables']),
    'C14': Prop(['valid_name_code_point'], ['ensure_tables']),
    'C16': Prop(['ensure_tables', 'tables_are_ready', 'crc32_ieee', 'valid_name_code_point/no-tables', 'is_label_valid/no-tables'], ['inflate_raw', 'find_direction', 'find_last_not_of_nsm', 'is_rtl_label'], witness=witness_init),
    'C17': Prop(['get_ccc', 'canonical_decomp_length', 'find_direction', 'find_last_not_of_nsm', 'is_rtl_label', 'idna_lookup', 'ascii_map', 'contains_forbidden_domain_code_point', 'valid_name_code_point', 'is_label_valid/no-tables', 'compute_decomposition_length'], ['ensure_tables'], bounded="functions whose safety is not yet under contract here"),
    'C18': Prop(['idna_lookup', 'utf8_next', 'get_ccc', 'canonical_decomp_length', 'find_direction', 'valid_name_code_point', 'is_label_valid/joiners'], ['ensure_tables', 'find_last_not_of_nsm', 'is_rtl_label'], extra=X.extra),
    'C05': Prop(['decompose', 'compute_decomposition_length', 'get_ccc', 'canonical_decomp_length'], bounded="sorting, composition, quick check"),
    'C19': Prop(['contains_forbidden_domain_code_point']),
}
DOMUSES = ['utf8_to_utf32', 'utf32_length_from_utf8', 'utf32_to_utf8', 'utf8_length_from_utf32', 'ascii_map', 'map', 'is_already_nfc', 'normalize', 'is_label_valid/no-tables', 'punycode_to_utf32', 'utf32_to_punycode']
PROPS['C03'] = Prop(['ascii_map', 'to_ascii/ascii-input', 'to_ascii/string'], DOMUSES)
PROPS['C20'] = Prop(['to_unicode/limit', 'to_unicode/string', 'to_ascii/beyond-limit', 'to_ascii/string'], DOMUSES, bounded="non-ASCII input of to_ascii within the limit")
PROPS['C12'] = Prop(['to_unicode', 'to_unicode/string'], DOMUSES, bounded="the rest")
for p in ('C06', 'C07', 'C08', 'C11', 'C13', 'C15'):
    PROPS[p] = Prop([], bounded="no contract yet")
NOT_APPLICABLE = {}
