import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
S="src/"
p("C01","UTF-8 decoding is exact and rejects every ill-formed sequence",
 "Decoding a byte string from UTF-8 to UTF-32 succeeds exactly when the bytes are well-formed UTF-8 (no overlong forms, no surrogates, nothing above U+10FFFF, no truncated or stray bytes), and then yields exactly the encoded scalar values in order. Otherwise it reports 0 code points. The predicted length for well-formed input equals the number of code points written, so a buffer of that size is never overrun.",
 ["inputs"],"all byte strings of all lengths, including every position of a multi-byte sequence relative to the 16-byte ASCII fast path and to the end of the input",
 "The tests feed a fixed list of domain names and a few invalid bytes; the property ranges over all byte strings and all alignments with the 16-byte block path and the end of the buffer.",
 [S+"unicode_transcoding.cpp","include/ada/idna/unicode_transcoding.h"],
 [("utf8_to_utf32: 16-byte ASCII block test, per-length branches with range checks",S+"unicode_transcoding.cpp:9"),("utf32_length_from_utf8: counts non-continuation bytes",S+"unicode_transcoding.cpp:111")],
 observe=["return value and output buffer of utf8_to_utf32","return value of utf32_length_from_utf8"])
p("C02","UTF-32 to UTF-8 encoding is exact and its length prediction matches",
 "Encoding UTF-32 as UTF-8 succeeds exactly when every element is a Unicode scalar value, and then writes the unique shortest UTF-8 form of each, in order, whose total length is the predicted length. A surrogate or a value above U+10FFFF makes it return 0, and it never writes past the predicted length.",
 ["inputs"],"all UTF-32 arrays of all lengths, including values outside Unicode",
 "The tests convert a handful of valid strings; the property covers all 2^32 element values in every position, and both parities relative to the two-element fast path.",
 [S+"unicode_transcoding.cpp","include/ada/idna/unicode_transcoding.h"],
 [("utf32_to_utf8: two-element ASCII path and 1-4 byte branches",S+"unicode_transcoding.cpp:121"),("utf8_length_from_utf32: branch-free length sum",S+"unicode_transcoding.cpp:98")],
 observe=["return value and output buffer of utf32_to_utf8","return value of utf8_length_from_utf32"])
p("C03","ASCII domains are lowercased byte for byte and never rejected",
 "For an all-ASCII domain within the size limit, conversion to ASCII always succeeds and returns the input with exactly the letters A-Z lowered and every other byte and the length unchanged, whatever its labels look like. The ASCII lowercasing primitive changes exactly the bytes A-Z of any all-ASCII buffer of any length and touches nothing outside it.",
 ["inputs"],"all ASCII strings of length 0..16384 and, for the primitive, all ASCII buffers of any length",
 "Tests check a few names; the word-at-a-time path has 8 residues of length times all byte values in all lanes, and a carry between lanes only shows for particular neighbours.",
 [S+"mapping.cpp",S+"to_ascii.cpp"],
 [("ascii_map: 8-byte SWAR lowercasing plus tail",S+"mapping.cpp:80"),("from_ascii_to_ascii fast path before any Unicode processing",S+"to_ascii.cpp:66"),("is_ascii",S+"to_ascii.cpp:20")],
 observe=["to_ascii","ascii_map"])
p("C04","IDNA mapping applies the mapping table to every code point, all or nothing",
 "Mapping a UTF-32 string succeeds exactly when no element is disallowed by the shipped IDNA table (values beyond Unicode and surrogates are disallowed), and then the result is the in-order concatenation of each element's mapping: itself when valid, nothing when ignored, its replacement sequence when mapped. On failure the string-returning form is empty.",
 ["inputs"],"all UTF-32 strings, all element values 0..2^32-1",
 "Tests cover some mapped and disallowed code points; the statement ranges over all 2^32 values, every table block boundary, and all mixtures in one string.",
 [S+"mapping.cpp",S+"mapping_tables.cpp"],
 [("idna_lookup: two-level table, boolean blocks, high ignored range",S+"mapping.cpp:20"),("map: counting pass then writing pass must agree",S+"mapping.cpp:110")],
 state=[("idna_stage1/stage2/bool_blocks/utf8_mappings","two-level mapping table, status per code point",S+"table_store.hpp")],
 observe=["map"])
p("C05","Normalization yields Unicode NFC, and the NFC test agrees with it",
 "Normalizing a string of Unicode scalar values yields its Normalization Form C with respect to the shipped Unicode data: full canonical decomposition, canonical ordering, canonical composition including Hangul. The already-normalized test answers true exactly when normalization would leave the string unchanged; hence canonically equivalent inputs normalize to the same string and normalization is idempotent.",
 ["inputs"],"all strings of Unicode scalar values of any length, including arbitrarily long runs of combining marks",
 "Tests normalize a few strings; failures need particular sequences (a mark with a lower class after a precomposed letter, Hangul jamo after a syllable, composition blocked by an intervening mark).",
 [S+"normalization.cpp"],
 [("is_already_nfc quick check",S+"normalization.cpp:212"),("decompose in place, backwards",S+"normalization.cpp:76"),("sort_marks insertion sort",S+"normalization.cpp:130"),("compose in place",S+"normalization.cpp:240"),("would_compose",S+"normalization.cpp:163")],
 observe=["normalize","is_already_nfc"])
p("C06","Punycode encoding is RFC 3492",
 "Punycode-encoding a UTF-32 string appends to the output exactly the RFC 3492 encoding (basic code points, delimiter, then delta digits in lower case) and leaves what was already in the output unchanged. It fails exactly when an element is a surrogate or above U+10FFFF, or when the RFC delta arithmetic would overflow, and never computes with a wrapped value.",
 ["inputs"],"all UTF-32 strings of any length up to 2^26 elements",
 "Tests encode short samples; bias adaptation, multi-digit deltas and overflow depend on long strings and particular orders of code points.",
 [S+"punycode.cpp"],
 [("utf32_to_punycode",S+"punycode.cpp:177"),("adapt",S+"punycode.cpp:26")],observe=["utf32_to_punycode"])
p("C07","Punycode decoding is RFC 3492, and the verifier agrees with the decoder",
 "Punycode-decoding a string with no upper-case delta digits succeeds exactly when RFC 3492 decoding succeeds without overflow and the result does not begin with 'xn--', and then the output, when it was empty before, is exactly the RFC result. The validity test answers true exactly for the strings the decoder accepts. No input makes either one compute with an overflowed value or touch memory outside its strings.",
 ["inputs"],"all byte strings up to 2^26 bytes, all malformed encodings included",
 "Tests decode a few good and bad samples; overflow, insertion position, truncated integers and the agreement of two separate implementations have to hold for every string.",
 [S+"punycode.cpp"],
 [("punycode_to_utf32",S+"punycode.cpp:40"),("verify_punycode keeps the first four slots only",S+"punycode.cpp:108"),("adapt",S+"punycode.cpp:26")],observe=["punycode_to_utf32","verify_punycode"])
p("C08","Punycode round trip: encoding then decoding gives the label back",
 "For every string of Unicode scalar values that encodes successfully and does not begin with 'xn--', decoding its Punycode form returns the same string; and two different strings never have the same Punycode form. Decoding never accepts two different encodings of one label.",
 ["inputs"],"all strings of scalar values",
 "Round trips are tested on samples; the statement relates two independent state machines over every string and every intermediate bias.",
 [S+"punycode.cpp"],
 [("utf32_to_punycode",S+"punycode.cpp:177"),("punycode_to_utf32",S+"punycode.cpp:40")],observe=["utf32_to_punycode","punycode_to_utf32"])
p("C09","A valid label never starts with a combining mark and obeys the joiner rules",
 "A label is reported valid only if it does not begin with a combining mark and every ZERO WIDTH JOINER directly follows a virama and every ZERO WIDTH NON-JOINER either directly follows a virama or stands between cursively joining characters. Neither a good joiner earlier in the label nor the position of the joiner excuses a bad one later.",
 ["inputs"],"all labels of any length, any number and position of joiners",
 "Tests have a few single-joiner labels; the rule must hold for each of several joiners in one label.",
 [S+"validity.cpp"],
 [("is_label_valid: combining range search, joiner loop, virama/L/R/D sets",S+"validity.cpp:79")],observe=["is_label_valid"])
p("C10","A label containing right-to-left characters is valid only under the Bidi rule",
 "A label that contains a character of Bidi class R, AL or AN is reported valid only if it meets all six conditions of RFC 5893 section 2: first character L, R or AL; only the classes allowed for its direction; proper ending ignoring trailing non-spacing marks; no mix of European and Arabic digits in an RTL label. A label without such characters is never rejected for bidi reasons.",
 ["inputs"],"all labels, all classes in every position, joiners included",
 "Tests check a few labels; the six conditions have to hold at every position and in combination with the joiner checks that run before them.",
 [S+"validity.cpp"],
 [("find_direction, is_rtl_label, find_last_not_of_nsm and the rule loops in is_label_valid",S+"validity.cpp:43")],observe=["is_label_valid"])
p("C11","ToASCII handles every label by UTS #46 and yields plain lower-case ASCII",
 "Whenever ToASCII succeeds, the output contains only ASCII and no upper-case letters; and for a non-ASCII input it is the dot-joined sequence of the labels of the mapped and NFC-normalized domain, each ASCII label kept, each valid non-ASCII label replaced by 'xn--' and its Punycode form, each 'xn--' label kept only if it decodes to a non-ASCII, mapped, normalized and valid label. If any label fails, or the input is not well-formed UTF-8 or contains a disallowed code point, the whole conversion fails and the output is empty.",
 ["inputs"],"all UTF-8 domains up to the size limit, any number and mixture of labels",
 "Conformance files sample some thousands of names; the statement covers every mixture of labels, and that no failure path leaves partial output.",
 [S+"to_ascii.cpp"],
 [("to_ascii label walk",S+"to_ascii.cpp:90")],observe=["to_ascii"])
p("C12","ToUnicode never fails and rewrites only valid ACE labels",
 "For every input within the size limit ToUnicode succeeds and maps the dot-separated labels one by one: an ASCII label beginning 'xn--' whose Punycode decodes to a non-ASCII label that is unchanged by mapping and NFC and is valid is replaced by the UTF-8 form of that label, and every other label is copied byte for byte. Dots are preserved.",
 ["inputs"],"all byte strings up to the size limit, ill-formed UTF-8 included",
 "Tests list some labels; the frame condition (everything else is untouched) and totality are statements about all inputs.",
 [S+"to_unicode.cpp"],
 [("to_unicode label loop",S+"to_unicode.cpp:22")],observe=["to_unicode"])
p("C13","Conversions are stable: ToASCII is idempotent and round-trips through ToUnicode",
 "Converting a successful ToASCII result to ASCII again (when it is within the size limit) returns it unchanged. For a non-ASCII input, ToASCII(ToUnicode(ToASCII(x))) equals ToASCII(x) whenever the intermediate results are within the size limit.",
 ["inputs"],"all inputs on which ToASCII succeeds",
 "Tests compare single conversions against files; stability quantifies over compositions of the whole pipeline for every input.",
 [S+"to_ascii.cpp",S+"to_unicode.cpp",S+"punycode.cpp",S+"normalization.cpp"],
 [("ACE label re-validation in both directions",S+"to_ascii.cpp:165")],observe=["to_ascii","to_unicode"])
p("C14","Identifier tests are exactly ECMAScript's IdentifierStart and IdentifierPart",
 "The name test answers, for every 32-bit value, exactly whether it is an IdentifierStart code point ('$', '_' or ID_Start) when asked about the first position, and exactly whether it is '$' or ID_Continue otherwise. Surrogates and values above U+10FFFF are never accepted.",
 ["inputs"],"all 2^32 values, both positions",
 "Tests sample code points; the property ranges over all values and each range boundary in two tables.",
 [S+"identifier.cpp",S+"id_tables.cpp"],
 [("valid_name_code_point fast paths and range search",S+"identifier.cpp:22")],observe=["valid_name_code_point"])
p("C15","Table decompression never leaves its buffers, for any compressed stream",
 "For every source byte string and every destination capacity, decompression reads only the source, writes only within the destination capacity and its own working storage, never performs undefined arithmetic, and returns either 0 or the number of bytes it wrote, at most the capacity. Back references never reach before the start of the output.",
 ["inputs","fault_sequences"],"all compressed streams (corrupt and adversarial included), all capacities",
 "The tests only ever inflate the one shipped blob; safety on corrupt streams is never exercised.",
 [S+"raw_inflate.hpp"],
 [("BitReader, Huff::build, Huff::decode, inflate_raw",S+"raw_inflate.hpp")],observe=["deflate::inflate_raw"])
p("C16","Tables are published only complete and verified; failures are reported",
 "A caller is told that the Unicode tables are ready only after one initializer has decompressed them in full, matched their checksum and stored every table pointer; every pointer then designates its own section of the verified buffer. If initialization fails (allocation, decompression or checksum), that is reported to all callers from then on, no table is used, and mapping, normalization, validity and identifier tests report failure instead.",
 ["schedules","fault_sequences","histories"],"all interleavings of first calls, all failures of allocation, decompression or checksum",
 "Tests never fail initialization and race it only by chance.",
 [S+"table_store.hpp"],
 [("ensure_tables: compare-exchange, publish pointers, release store",S+"table_store.hpp:255"),("crc32_ieee",S+"table_store.hpp:233"),("table pointers null-checked by callers",S+"validity.cpp:83")],
 state=[("tables_init_state","0 uninit, 1 in progress, 2 ready, 3 failed",S+"table_store.hpp"),("table pointers","valid only in state ready",S+"table_store.hpp")],
 observe=["map, normalize, is_label_valid, valid_name_code_point on first use"])
p("C17","No input causes out-of-bounds access or undefined arithmetic",
 "For every input, no function of the public interface reads or writes outside its arguments, its own locals, the library's tables and the strings it owns; indexes through a stale or null pointer; shifts by an excessive amount; divides by zero; or overflows signed arithmetic. Inputs outside the domain of a function make it return a failure value.",
 ["inputs"],"all inputs to all public functions, including ill-formed UTF-8 and out-of-range UTF-32",
 "Sanitized tests show this only for the inputs they run.",
 [S+"unicode_transcoding.cpp",S+"mapping.cpp",S+"normalization.cpp",S+"punycode.cpp",S+"validity.cpp",S+"to_ascii.cpp",S+"to_unicode.cpp",S+"identifier.cpp",S+"table_store.hpp"],
 [("bounds clamps in *_block_row, length checks before every block access",S+"table_store.hpp:370")],observe=["all public functions"])
p("C18","The shipped Unicode data is the Unicode 17 data",
 "For every code point, the mapping status and mapping, canonical decomposition, composition, combining class, combining-mark membership, Bidi class, joiner-rule sets and identifier properties used by the library are those of Unicode 17.0 and its IDNA tables. In particular the compressed tables, the lookup structure and the constant sets together give each code point the right value.",
 ["inputs"],"all code points 0..U+10FFFF, each table",
 "The conformance files touch a few thousand code points; most table entries are never looked at.",
 [S+"table_blob.inc",S+"table_store.hpp",S+"validity.cpp",S+"mapping_tables.cpp"],
 [("compressed blob and section offsets",S+"table_blob.inc"),("virama, R, L, D sets",S+"validity.cpp:133")],observe=["map","normalize","is_label_valid","valid_name_code_point"])
p("C19","Forbidden domain code points are exactly those of the URL standard",
 "The forbidden-domain-code-point test answers true exactly for strings that contain a C0 control, space, #, /, :, <, >, ?, @, [, \\, ], ^, |, %, DEL or a byte above 0x7F. It does so for every position of such a byte.",
 ["inputs"],"all byte strings of all lengths",
 "Tests try a few strings; the property covers all 256 byte values at every position.",
 [S+"to_ascii.cpp"],
 [("is_forbidden_domain_code_point_table and any_of",S+"to_ascii.cpp:38")],observe=["contains_forbidden_domain_code_point"])
p("C20","Inputs beyond the size limit are refused up front, inputs within it are not",
 "A domain longer than 16384 bytes makes ToASCII and ToUnicode report failure with an empty result whatever it contains, and the string form of ToUnicode returns it unchanged; a domain of exactly 16384 bytes or fewer is never refused for its size. The output parameter's earlier content never survives a call.",
 ["inputs"],"all inputs of all lengths around and beyond the limit, all earlier contents of the output",
 "Tests try one or two lengths with one content.",
 [S+"to_ascii.cpp",S+"to_unicode.cpp","include/ada/idna/limits.h"],
 [("size test before processing",S+"to_ascii.cpp:92"),("size test before processing",S+"to_unicode.cpp:24")],observe=["to_ascii","to_unicode"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80, (x["id"],len(x["title"]))
