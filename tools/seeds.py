H = '''#include "idna.cpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
using namespace ada::idna;
#define CHECK(c) do { if (!(c)) { std::printf("FAIL line %d: %s\\n", __LINE__, #c); std::exit(1); } } while (0)
'''
SEEDS = [
dict(id='C01-len-continuation', property='C01', edits=[('src/unicode_transcoding.cpp', 'if ((data[pos + 3] & 0b11000000) != 0b10000000) {', 'if ((data[pos + 3] & 0b10000000) != 0b10000000) {')],
 needs='a four-byte sequence whose last byte is a lead byte (0xC0..0xFF) instead of a continuation byte',
 breaks='an ill-formed UTF-8 sequence is decoded instead of rejected',
 demo=H+'''int main() { char32_t o[8]; const char *s = "\\xF0\\x9F\\x98\\xC0"; CHECK(utf8_to_utf32(s, 4, o) == 0);
 const char *g = "a\\xF0\\x9F\\x98\\x80"; CHECK(utf8_to_utf32(g, 5, o) == 2 && o[1] == 0x1F600); return 0; }'''),
dict(id='C02-pair-ascii-mask', property='C02', edits=[('src/unicode_transcoding.cpp', '0xFFFFFF80FFFFFF80', '0xFFFFFF80FFFF7F80')],
 needs='an element in U+8000..U+807F directly before an ASCII element at an even fast-path position',
 breaks='the two-element ASCII fast path swallows a non-ASCII element and writes a wrong byte',
 demo=H+'''int main() { for (char32_t c = 0x80; c < 0x110000; c += 1) { if (c >= 0xD800 && c < 0xE000) continue; char32_t in[2] = {c, U'a'};
 char o[16]; size_t n = utf32_to_utf8(in, 2, o), l = utf8_length_from_utf32(in, 2); CHECK(n == l);
 char32_t b[8]; CHECK(utf8_to_utf32(o, n, b) == 2 && b[0] == c && b[1] == U'a'); } return 0; }'''),
dict(id='C03-word-past-end', property='C03', edits=[('src/mapping.cpp', 'for (; i + 7 < length; i += 8) {', 'for (; i + 7 <= length; i += 8) {')],
 needs='a buffer whose length is 7 modulo 8, inside a larger one whose next byte is an upper-case letter',
 breaks='the byte after the buffer is lowered too',
 demo=H+'''int main() { for (size_t n = 0; n < 64; n++) { std::string s; for (size_t i = 0; i < n; i++) s.push_back("AzZ@[m"[i % 6]);
 std::string e = s; for (char &c : e) if (c >= 'A' && c <= 'Z') c += 32; std::string t = s + "QQ"; ascii_map(t.data(), s.size()); CHECK(t == e + "QQ"); } return 0; }'''),
dict(id='C04-two-byte-lead', property='C04', edits=[('src/mapping.cpp', '''    } else if (*ptr < 0xE0u) {
      ptr += 2;''', '''    } else if (*ptr < 0xD9u) {
      ptr += 2;''')],
 needs='a code point whose replacement contains a code point U+0640..U+07FF (two-byte lead 0xD9..0xDF)',
 breaks='the counting pass and the writing pass disagree: the result has the wrong length',
 demo=H+'''int main() { std::u32string o; CHECK(map(U"\\uFEF5x", o)); CHECK(o == U"\\u0644\\u0622x"); CHECK(map(U"a\\u00C9\\uFEB3b", o)); CHECK(o == U"a\\u00E9\\u0633b"); return 0; }'''),
dict(id='C05-sort-ties', property='C05', edits=[('src/normalization.cpp', 'while (back_idx != 0 && get_ccc(input[back_idx - 1]) > ccc) {', 'while (back_idx != 0 && get_ccc(input[back_idx - 1]) >= (ccc == 220 ? ccc : ccc + 1)) {')],
 needs='two different marks of combining class 220 in a string that has to be normalized',
 breaks='canonical ordering is not stable: equal-class marks are swapped',
 demo=H+'''int main() { std::u32string s = U"\\u212B\\u0323\\u0331\\u0325"; CHECK(normalize(s)); 
 std::u32string t = U"a\\u0323\\u0331\\u0325\\u0301"; std::u32string u = U"a\\u0301\\u0323\\u0331\\u0325"; CHECK(normalize(t)); CHECK(normalize(u)); CHECK(t == u);
 std::u32string e = U"x\\u0301\\u0331\\u0323"; CHECK(normalize(e)); CHECK(e == U"x\\u0331\\u0323\\u0301"); return 0; }'''),
dict(id='C05-compose-hangul-t', property='C05', edits=[('src/normalization.cpp', '''        if (input_count + 1 < input.size() &&
            input[input_count + 1] > hangul_tbase &&
            input[input_count + 1] < hangul_tbase + hangul_tcount) {
          input[composition_count] += input[++input_count] - hangul_tbase;''', '''        if (input_count + 1 < input.size() &&
            input[input_count + 1] > hangul_tbase &&
            input[input_count + 1] < hangul_tbase + hangul_tcount - 1) {
          input[composition_count] += input[++input_count] - hangul_tbase;''')],
 needs='a decomposed Hangul L V T sequence whose T is the last one, U+11C2',
 breaks='L V T with T = U+11C2 is composed to LV followed by T instead of one syllable',
 demo=H+'''int main() { for (char32_t c = 0xAC00; c < 0xAC00 + 11172; c++) { char32_t s = c - 0xAC00; std::u32string d; d += 0x1100 + s / 588; d += 0x1161 + (s % 588) / 28; if (s % 28) d += 0x11A7 + s % 28;
 std::u32string n = d; CHECK(normalize(n)); CHECK(n.size() == 1 && n[0] == c); } return 0; }'''),
dict(id='C06-delta-overflow', property='C06', edits=[('src/punycode.cpp', 'if ((m - n) > (0x7fffffff - d) / (h + 1)) {', 'if ((m - n) > (0x7fffffff - d) / (b + 1)) {')],
 needs='a string whose handled count h is about 2000 when the next code point is far away',
 breaks='the RFC overflow guard uses the number of basic code points, so delta wraps and a wrong encoding is produced',
 demo=H+'''int main() { std::u32string s; for (int i = 0; i < 3000; i++) s.push_back(0x80 + (i % 1000)); s.push_back(0x10FFFE); std::string o;
 bool ok = utf32_to_punycode(s, o); CHECK(!ok); s.pop_back(); o.clear(); CHECK(utf32_to_punycode(s, o)); return 0; }'''),
dict(id='C07-verify-slot', property='C07', edits=[('src/punycode.cpp', '''    if (insert_pos < 4) {
      for (size_t j = 3; j > insert_pos; j--) {''', '''    if (insert_pos < 4 && n <= 0xffff) {
      for (size_t j = 3; j > insert_pos; j--) {''')],
 needs='a string that decodes to a label where a supplementary code point lands among the first four',
 breaks='the verifier tracks the wrong first four code points and disagrees with the decoder',
 demo=H+'''int main() { std::u32string s = U"\\U00010FFFxn--a"; std::string o; CHECK(utf32_to_punycode(s, o)); std::u32string d; CHECK(punycode_to_utf32(o, d)); CHECK(d == s); CHECK(verify_punycode(o));
 std::u32string t = U"x\\U00010FFFn--"; o.clear(); CHECK(utf32_to_punycode(t, o)); d.clear(); CHECK(punycode_to_utf32(o, d)); CHECK(verify_punycode(o)); return 0; }'''),
dict(id='C07-overflow-guard', property='C07', edits=[('src/punycode.cpp', '''      if (digit > (0x7fffffff - i) / w) {
        return false;
      }
      i = i + digit * w;
      int32_t t = k <= bias ? tmin : k >= bias + tmax ? tmax : k - bias;
      if (digit < t) {
        break;
      }
      if (w > 0x7fffffff / (base - t)) {
        return false;
      }
      w = w * (base - t);
    }
    bias = adapt(i - oldi, written_out + 1, oldi == 0);''', '''      if (digit > 0x7fffffff / w) {
        return false;
      }
      i = int32_t(uint32_t(i) + uint32_t(digit) * uint32_t(w));
      int32_t t = k <= bias ? tmin : k >= bias + tmax ? tmax : k - bias;
      if (digit < t) {
        break;
      }
      if (w > 0x7fffffff / (base - t)) {
        return false;
      }
      w = w * (base - t);
    }
    bias = adapt(i - oldi, written_out + 1, oldi == 0);''')],
 needs='a variable-length integer whose running sum passes 2^31 although its last product does not',
 breaks='the decoder computes with a wrapped sum instead of failing',
 demo=H+'''int main() { unsigned long long x = 88172645463325252ull; const char *D = "abcdefghijklmnopqrstuvwxyz0123456789"; long dis = 0;
 for (int r = 0; r < 2000000; r++) { std::string s = "999999b"; s.clear(); int len = 6 + r % 5; for (int i = 0; i < len; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; s.push_back(D[i < 4 ? 26 + x % 10 : x % 36]); }
 std::u32string d; bool a = punycode_to_utf32(s, d), b = verify_punycode(s); if (a != b) dis++; } CHECK(dis == 0); return 0; }'''),
dict(id='C09-zwj-after-pair', property='C09', edits=[('src/validity.cpp', '''    } else if (c == 0x200d) {
      if (i > 0) {''', '''    } else if (c == 0x200d) {
      if (i > 1 && label[i - 1] == 0x200d) {
        continue;
      }
      if (i > 0) {''')],
 needs='two ZERO WIDTH JOINERs in a row after a virama',
 breaks='a joiner that follows another joiner is accepted',
 demo=H+'''int main() { CHECK(is_label_valid(U"\\u0915\\u094D\\u200D\\u0937")); CHECK(!is_label_valid(U"\\u0915\\u094D\\u200D\\u200D\\u0937")); return 0; }'''),
dict(id='C10-ltr-end', property='C10', edits=[('src/validity.cpp', 'const direction last_dir = find_direction(label[last_non_nsm_char]);', 'const direction last_dir = find_direction(label.back() == label[0] ? label[0] : label[last_non_nsm_char]);'),
  ('src/validity.cpp', '''        if (i == last_non_nsm_char &&
            !(d''', '''        if (i == last_non_nsm_char && i + 2 >= label.size() &&
            !(d''')],
 needs='an RTL label ending with a disallowed class followed by two or more non-spacing marks',
 breaks='RTL labels whose last character before the trailing marks is not R, AL, EN or AN are accepted',
 demo=H+'''int main() { CHECK(!is_label_valid(U"\\u05D0+\\u0591\\u0591")); CHECK(!is_label_valid(U"\\u05D0+\\u0591")); CHECK(is_label_valid(U"\\u05D0\\u05D0\\u0591\\u0591")); return 0; }'''),
dict(id='C11-ace-stable', property='C11', edits=[('src/to_ascii.cpp', "if (!ada::idna::map(working, post_map) || working != post_map) {", "if (!ada::idna::map(working, post_map) || working.size() != post_map.size()) {")],
 needs='a non-ASCII domain with an xn-- label that decodes to a label with a mapped code point of the same length (e.g. upper-case)',
 breaks='an xn-- label that decodes to a label not stable under mapping is accepted',
 demo=H+'''int main() { std::u32string l = U"\\u00C4b"; std::string p; CHECK(utf32_to_punycode(l, p)); std::string in = "xn--" + p + ".\\xC3\\xA9"; CHECK(to_ascii(in).empty());
 std::u32string l2 = U"\\u00E4b"; p.clear(); CHECK(utf32_to_punycode(l2, p)); in = "xn--" + p + ".\\xC3\\xA9"; CHECK(to_ascii(in) == "xn--" + p + ".xn--9ca"); return 0; }'''),
dict(id='C12-copy-decoded', property='C12', edits=[('src/to_unicode.cpp', '''          } else if (!ada::idna::normalize(post_map) ||
                     post_map != tmp_buffer || post_map.empty() ||''', '''          } else if (!ada::idna::normalize(post_map) ||
                     post_map.size() != tmp_buffer.size() || post_map.empty() ||''')],
 needs='an ACE label that decodes to a mapped-stable label NFC changes without changing its length (mark order)',
 breaks='ToUnicode decodes a label that is not in NFC',
 demo=H+'''int main() { std::u32string l = U"x\\u0302\\u0323y"; std::string p; CHECK(utf32_to_punycode(l, p)); CHECK(to_unicode("xn--" + p) == "xn--" + p); 
 std::u32string g = U"\\u00E9"; p.clear(); CHECK(utf32_to_punycode(g, p)); CHECK(to_unicode("xn--" + p) == "\\xC3\\xA9"); return 0; }'''),
dict(id='C14-single-range', property='C14', edits=[('src/identifier.cpp', 'return iter != ranges.end() && code_point >= (*iter)[0];', 'return iter != ranges.end() && code_point - (*iter)[0] <= (*iter)[1] - (*iter)[0] - (first && (*iter)[1] > 0x1FFFF);')],
 needs='asking about the first position for the last code point of an ID_Start range in plane 2 or 3 (e.g. U+2A6DF)',
 breaks='the upper end of the supplementary ideographic ranges is no IdentifierStart any more',
 demo=H+'''int main() { CHECK(valid_name_code_point(0x20000, true)); CHECK(valid_name_code_point(0x2A6DF, true)); CHECK(valid_name_code_point(0x2A6DF, false)); CHECK(!valid_name_code_point(0x2A6E0, true)); return 0; }'''),
dict(id='C15-distance', property='C15', edits=[('src/raw_inflate.hpp', 'if (distance > out || out + length > dst_cap) return 0;', 'if (distance > out || out + length - (length == 258) > dst_cap) return 0;')],
 needs='a stream whose last back reference has the maximal length 258 and ends one past the capacity',
 breaks='one byte is written past the destination capacity',
 flags='-fsanitize=address', cxx='clang++-18',
 demo=H+'''int main() { // fixed block: literal 'a', then length 258 (code 285) distance 1, repeated; capacity one short
 std::string bits; auto put = [&](unsigned v, int n, bool rev) { for (int i = 0; i < n; i++) bits.push_back(((v >> (rev ? n - 1 - i : i)) & 1) ? 1 : 0); };
 put(1, 1, false); put(1, 2, false); put(0x30 + 'a', 8, true); put(0xC0 + 285 - 280, 8, true); put(0, 5, true); put(0, 7, true);
 std::vector<uint8_t> src((bits.size() + 7) / 8); for (size_t i = 0; i < bits.size(); i++) src[i / 8] |= bits[i] << (i % 8);
 std::vector<uint8_t> ok(259); CHECK(deflate::inflate_raw(src.data(), src.size(), ok.data(), 259) == 259);
 std::vector<uint8_t> sh(258); CHECK(deflate::inflate_raw(src.data(), src.size(), sh.data(), 258) == 0); return 0; }'''),
dict(id='C16-fail-reset', property='C16', edits=[('src/table_store.hpp', '[[nodiscard]] inline bool tables_are_ready() noexcept {\n  return tables_init_state.load(std::memory_order_acquire) == kTablesReady;', '[[nodiscard]] inline bool tables_are_ready() noexcept {\n  return tables_init_state.load(std::memory_order_acquire) >= kTablesReady;')],
 needs='a failed initialization (allocation or checksum) followed by an NFC test',
 breaks='after a failed initialization the NFC test believes the tables are ready and dereferences null table pointers',
 demo='''#include <cstdlib>
#include <new>
static bool deny = false;
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { if (deny) return nullptr; return std::malloc(n); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
''' + H + '''int main() { deny = true; std::u32string o; CHECK(!map(U"\\u00C4", o)); CHECK(!is_already_nfc(U"\\u00C4")); CHECK(!is_label_valid(U"\\u00E4")); std::u32string n = U"\\u00C4"; CHECK(!normalize(n)); CHECK(!valid_name_code_point(0xE4, true)); return 0; }'''),
dict(id='C16-early-ready', property='C16', edits=[('src/table_store.hpp', '''    // Publish all non-atomic pointers before READY. Waiters synchronize via
    // acquire on tables_init_state and then observe these writes.
''', '''    tables_init_state.store(kTablesReady, std::memory_order_release);
''')],
 needs='a second thread that asks for the tables while the first is still storing the pointers',
 breaks='the ready state is published before the table pointers are stored',
 flags='-fsanitize=thread', cxx='clang++-18',
 demo=H+'''int main() { for (int r = 0; r < 40; r++) { std::vector<std::thread> t; for (int i = 0; i < 8; i++) t.emplace_back([] { std::u32string o; (void)map(U"\\u00C4", o); }); for (auto &x : t) x.join(); } return 0; }'''),
dict(id='C17-nfc-row', property='C17', edits=[('src/normalization.cpp', '''uint8_t get_ccc(char32_t c) noexcept {
  if (c >= 0x110000) {''', '''uint8_t get_ccc(char32_t c) noexcept {
  if (c > 0x110000 + 0xff) {''')],
 needs='normalizing a string that contains a value U+110000..U+1100FF',
 breaks='the combining-class index is read past its end for values just above Unicode',
 flags='-fsanitize=address', cxx='clang++-18',
 demo=H+'''int main() { CHECK(ensure_tables()); uint8_t keep = const_cast<uint8_t*>(ccc_index)[0x1100]; const_cast<uint8_t*>(ccc_index)[0x1100] = 3; for (char32_t c = 0x110000; c < 0x110200; c++) CHECK(get_ccc(c) == 0); (void)keep; return 0; }'''),
dict(id='C19-del', property='C19', edits=[('src/to_ascii.cpp', '''  return std::ranges::any_of(view, is_forbidden_domain_code_point);''', '''  return std::ranges::any_of(view.substr(0, view.find('\\0')),
                             is_forbidden_domain_code_point);''')],
 needs='a string that contains a NUL byte and no forbidden byte before it',
 breaks='the test stops at the first NUL byte, so NUL itself and everything after it is not seen',
 demo=H+'''int main() { CHECK(contains_forbidden_domain_code_point(std::string_view("a\\0b", 3))); CHECK(contains_forbidden_domain_code_point(std::string_view("a b"))); CHECK(!contains_forbidden_domain_code_point("ab.c")); return 0; }'''),
dict(id='C20-limit-unicode', property='C20', edits=[('src/to_unicode.cpp', '''  output.clear();
  if (input.size() > max_domain_input_bytes) {
    return false;
  }
  output.reserve(input.size());
''', '''  if (input.size() > max_domain_input_bytes) {
    return false;
  }
  output.clear();
  output.reserve(input.size());
''')],
 needs='an over-limit input with an output string that already holds something',
 breaks='the earlier content of the output survives a refused call',
 demo=H+'''int main() { std::string o = "old"; CHECK(!to_unicode(std::string(16385, 'a'), o)); CHECK(o.empty()); CHECK(to_unicode(std::string(16384, 'a'), o)); return 0; }'''),
dict(id='C03-long-ace', property='C03', edits=[('src/to_ascii.cpp', '''  if (is_ascii(ut8_string)) {
    from_ascii_to_ascii(ut8_string, out);''', '''  if (is_ascii(ut8_string) &&
      (ut8_string.size() < 256 || !ut8_string.ends_with('.'))) {
    from_ascii_to_ascii(ut8_string, out);''')],
 needs='an ASCII domain of 256 bytes or more that ends with a dot and has a label that is not valid',
 breaks='such a domain takes the path of non-ASCII domains, where it can be refused',
 demo=H+'''int main() { for (const char* l : {"a.", "XN--A.", "xn--0.", "b_%."}) { std::string s; while (s.size() < 300) s += l; std::string o; CHECK(to_ascii(s, o)); CHECK(o.size() == s.size()); for (size_t i = 0; i < s.size(); i++) CHECK(o[i] == (s[i] >= 'A' && s[i] <= 'Z' ? s[i] + 32 : s[i])); } return 0; }'''),
dict(id='C20-string-form', property='C20', edits=[('src/to_unicode.cpp', '''    return std::string(input);''', '''    return std::string(input.data());''')],
 needs='an over-limit input with a NUL byte in it',
 breaks='the string form returns the input only up to the first NUL byte',
 demo=H+'''int main() { std::string s(20000, 'a'); s[500] = 0; CHECK(to_unicode(s) == s); s[500] = 'b'; CHECK(to_unicode(s) == s); return 0; }'''),
dict(id='C08-decode-basic', property='C08', edits=[('src/punycode.cpp', '''      out.push_back(c);
      written_out++;
    }
    input.remove_prefix(end_of_ascii + 1);''', '''      out.push_back(c);
      written_out++;
    }
    input.remove_prefix(end_of_ascii + 1);
    if (input.size() == 1 && written_out > 62) {
      return true;
    }''')],
 needs='an encoding with more than 62 basic code points and a single trailing delta digit',
 breaks='the single inserted code point is dropped by the decoder',
 demo=H+'''int main() { for (int n = 1; n < 200; n++) { std::u32string s(n, U'a'); s.insert(s.begin(), 0x80); for (char32_t c = 0x80; c < 0xA0; c++) { s[0] = c; std::string p; CHECK(utf32_to_punycode(s, p)); std::u32string d; CHECK(punycode_to_utf32(p, d)); CHECK(d == s); } } return 0; }'''),
dict(id='C11-trailing-dots', property='C11', edits=[('src/to_ascii.cpp', '''    if (!is_last_label) {
      out.push_back('.');
    }''', '''    if (!is_last_label && (label_size != 0 || p != end)) {
      out.push_back('.');
    }''')],
 needs='a non-ASCII domain that ends with two or more dots',
 breaks='one trailing empty label is dropped',
 demo=H+'''int main() { CHECK(to_ascii("\\xC3\\xA9.") == "xn--9ca."); CHECK(to_ascii("\\xC3\\xA9..") == "xn--9ca.."); return 0; }'''),
dict(id='C13-root-dot', property='C13', edits=[('src/to_unicode.cpp', '''    if (!is_last_label) {
      output.push_back('.');
    }''', '''    if (!is_last_label && (loc_dot + 1 < input.size() || loc_dot < 253)) {
      output.push_back('.');
    }''')],
 needs='a domain of 254 or more bytes that ends with a dot',
 breaks='ToUnicode drops the final dot, so converting back does not give the same ASCII domain',
 demo=H+'''int main() { std::string x; for (int i = 0; i < 60; i++) x += "\\xC3\\xA9" "abcd."; std::string a = to_ascii(x); CHECK(!a.empty()); CHECK(to_ascii(a) == a); CHECK(to_ascii(to_unicode(a)) == a); return 0; }'''),
]
