// Witness search and replay: runs the real library (compiled in from
// IDNA_CPP) against oracle.hpp under ASan/UBSan.
//   harness run PROP DATA CONSTS SEED WORKER NWORKERS SECONDS CURFILE
//   harness replay PROP DATA HEX
// A case is a byte string; case_PROP decides it.  The case being run is kept
// in CURFILE (mmap) so that a sanitizer abort still identifies it.
#include IDNA_CPP
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <zlib.h>
#include <chrono>
#include <functional>
#include <memory>
#include "oracle.hpp"
using Bytes = std::string; using ref::U32; namespace ai = ada::idna;
static U32 w2u(const Bytes& b, size_t from) { U32 o; for (size_t i = from; i + 4 <= b.size(); i += 4) { uint32_t v; memcpy(&v, b.data() + i, 4); o.push_back(v); } return o; }
static Bytes u2w(const U32& u) { Bytes o; for (uint32_t c : u) o.append((const char*)&c, 4); return o; }
static std::string show(const U32& u) { std::string o = "["; char b[16]; for (uint32_t c : u) { snprintf(b, 16, o.size() > 1 ? " %X" : "%X", c); o += b; } return o + "]"; }
static std::string show(const std::string& u) { std::string o = "\""; char b[8]; for (uint8_t c : u) if (c >= 0x20 && c < 0x7f && c != '"' && c != '\\') o += c; else { snprintf(b, 8, "\\x%02x", c); o += b; } return o + "\""; }
template <class T> static std::string show(const std::optional<T>& x) { return x ? show(*x) : std::string("failure"); }
// exact-size heap copies so ASan sees any access outside the argument
struct Buf { std::unique_ptr<char[]> p; size_t n; Buf(const Bytes& s) : p(new char[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n); } std::string_view v() const { return {p.get(), n}; } };
struct Buf32 { std::unique_ptr<char32_t[]> p; size_t n; Buf32(const U32& s) : p(new char32_t[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), 4 * n); } std::u32string_view v() const { return {p.get(), n}; } };
static const std::string OK;
using R = std::string;
#define FAIL(...) do { return std::string("") + __VA_ARGS__; } while (0)

static R c01(const Bytes& in) { Buf b(in); auto r = ref::utf8_decode(in); size_t n = ai::utf32_length_from_utf8(b.p.get(), b.n);
  if (r && n != r->size()) FAIL("utf32_length_from_utf8(" + show(in) + ")=" + std::to_string(n) + ", encodes " + std::to_string(r->size()));
  std::unique_ptr<char32_t[]> o(new char32_t[n]); size_t w = ai::utf8_to_utf32(b.p.get(), b.n, o.get());
  if (!r) { if (w) FAIL("utf8_to_utf32 accepts ill-formed " + show(in) + " -> " + std::to_string(w)); return OK; }
  if (w != r->size() || memcmp(o.get(), r->data(), 4 * w)) FAIL("utf8_to_utf32(" + show(in) + ") = " + show(U32(o.get(), o.get() + std::min(w, n))) + ", expected " + show(*r)); return OK; }
static R c02(const Bytes& in) { U32 u = w2u(in, 0); Buf32 b(u); auto r = ref::utf8_encode(u); size_t n = ai::utf8_length_from_utf32(b.p.get(), b.n);
  if (r && n != r->size()) FAIL("utf8_length_from_utf32(" + show(u) + ")=" + std::to_string(n) + ", encoding has " + std::to_string(r->size()));
  std::unique_ptr<char[]> o(new char[n]); size_t w = ai::utf32_to_utf8(b.p.get(), b.n, o.get());
  if (!r) { if (w) FAIL("utf32_to_utf8 accepts non-scalar " + show(u)); return OK; }
  if (w != r->size() || memcmp(o.get(), r->data(), w)) FAIL("utf32_to_utf8(" + show(u) + ") wrong: " + show(std::string(o.get(), std::min(w, n))) + ", expected " + show(*r)); return OK; }
static R c03(const Bytes& in0) { Bytes in = in0; for (char& c : in) c &= 0x7f; Buf b(in); std::string e = ref::lower(in);
  ai::ascii_map(b.p.get(), b.n); if (std::string(b.p.get(), b.n) != e) FAIL("ascii_map(" + show(in) + ") = " + show(std::string(b.p.get(), b.n)));
  for (size_t off = 1; off < 9 && off * 2 < in.size(); off++) { Buf c(in); ai::ascii_map(c.p.get() + off, c.n - 2 * off); std::string x = in; for (size_t i = off; i + off < in.size(); i++) x[i] = e[i]; if (std::string(c.p.get(), c.n) != x) FAIL("ascii_map of " + show(in.substr(off, in.size() - 2 * off)) + " at offset " + std::to_string(off) + " gives " + show(std::string(c.p.get(), c.n))); }
  if (in.size() <= 16384) { Buf d(in); std::string o = "junk"; bool r = ai::to_ascii(d.v(), o); if (!r || o != e) FAIL("to_ascii(" + show(in) + ") = " + (r ? show(o) : "failure")); if (ai::to_ascii(d.v()) != e) FAIL("to_ascii(string) form differs for " + show(in)); }
  return OK; }
static R c04(const Bytes& in) { U32 u = w2u(in, 0); Buf32 b(u); auto e = ref::map(u); U32 o = U"precontent"; bool r = ai::map(b.v(), o);
  if (r != bool(e)) FAIL("map(" + show(u) + ") " + (r ? "succeeds" : "fails") + ", expected " + show(e)); if (r && o != *e) FAIL("map(" + show(u) + ") = " + show(o) + ", expected " + show(*e));
  U32 s = ai::map(b.v()); if (s != (e ? *e : U32())) FAIL("map string form (" + show(u) + ") = " + show(s) + ", expected " + show(e)); return OK; }
static R c05(const Bytes& in) { U32 u; for (char32_t c : w2u(in, 0)) if (ref::scalar(c)) u.push_back(c); U32 e = ref::nfc(u), o = u; Buf32 b(u); if (!ai::normalize(o)) FAIL("normalize fails"); if (o != e) FAIL("normalize(" + show(u) + ") = " + show(o) + ", expected " + show(e));
  bool a = ai::is_already_nfc(b.v()); if (a != (e == u)) FAIL("is_already_nfc(" + show(u) + ") = " + (a ? "true" : "false") + ", NFC is " + show(e)); return OK; }
static R c06(const Bytes& in) { if (in.empty()) return OK; U32 u = w2u(in, 1); size_t k = in[0] & 7; std::string pre = std::string("Zz-0a.q").substr(0, k), o = pre; Buf32 b(u); auto e = ref::puny_encode(u); bool r = ai::utf32_to_punycode(b.v(), o);
  if (r != bool(e)) FAIL("utf32_to_punycode(" + show(u) + ") " + (r ? "succeeds" : "fails") + ", expected " + show(e)); if (r && o != pre + *e) FAIL("utf32_to_punycode(" + show(u) + ") appended to " + show(pre) + " = " + show(o) + ", expected " + show(pre + *e)); return OK; }
static R c07(const Bytes& in) { if (in.empty()) return OK; size_t k = in[0] & 3; Bytes s = in.substr(1); size_t d = s.rfind('-'); for (size_t i = d == Bytes::npos ? 0 : d + 1; i < s.size(); i++) if (s[i] >= 'A' && s[i] <= 'Z') s[i] += 32;
  auto e = ref::puny_decode(s); U32 pre = U32(U"ab\u00e9").substr(0, k), o = pre; if (k) { auto t = ref::puny_decode(s); }
  Buf b(s); bool v = ai::verify_punycode(b.v()); if (v != bool(e)) FAIL("verify_punycode(" + show(s) + ") = " + (v ? "true" : "false") + ", RFC 3492: " + show(e));
  o.clear(); bool r = ai::punycode_to_utf32(b.v(), o); if (r != bool(e)) FAIL("punycode_to_utf32(" + show(s) + ") " + (r ? "succeeds with " + show(o) : "fails") + ", RFC 3492: " + show(e)); if (r && o != *e) FAIL("punycode_to_utf32(" + show(s) + ") = " + show(o) + ", RFC 3492: " + show(*e)); return OK; }
static R c08(const Bytes& in) { if (in.empty()) return OK; if (in[0] & 1) { Bytes s = in.substr(1); U32 o; Buf b(s); if (!ai::punycode_to_utf32(b.v(), o)) return OK; for (uint32_t c : o) if (!ref::scalar(c)) return OK; std::string z; if (!ai::utf32_to_punycode(o, z)) FAIL("decoded " + show(s) + " -> " + show(o) + " which does not encode"); if (z != s) FAIL("two encodings of " + show(o) + ": " + show(s) + " and " + show(z)); return OK; }
  U32 u; for (char32_t c : w2u(in, 1)) if (ref::scalar(c)) u.push_back(c); if (u.compare(0, 4, U"xn--") == 0) return OK; Buf32 b(u); std::string z; if (!ai::utf32_to_punycode(b.v(), z)) return OK; U32 o; if (!ai::punycode_to_utf32(z, o)) FAIL("encoding " + show(z) + " of " + show(u) + " does not decode"); if (o != u) FAIL("encoding " + show(z) + " of " + show(u) + " decodes to " + show(o)); if (!ai::verify_punycode(z)) FAIL("verify_punycode rejects encoding " + show(z)); return OK; }
static R c09(const Bytes& in) { U32 u = w2u(in, 0); Buf32 b(u); bool v = ai::is_label_valid(b.v()); if (v && !ref::comb_ok(u)) FAIL("label " + show(u) + " begins with a combining mark but is reported valid"); if (v && !ref::joiners_ok(u)) FAIL("label " + show(u) + " breaks the joiner rules but is reported valid");
  if (!v && ref::label_valid(u)) { bool j = false; for (uint32_t c : u) j |= c == 0x200c || c == 0x200d; if (j || !ref::has_rtl(u)) FAIL("label " + show(u) + " is rejected although it satisfies all rules"); } return OK; }
static R c10(const Bytes& in) { U32 u = w2u(in, 0); Buf32 b(u); bool v = ai::is_label_valid(b.v()); if (v && !ref::bidi_ok(u)) FAIL("label " + show(u) + " breaks the Bidi rule but is reported valid"); if (!v && ref::label_valid(u)) FAIL("label " + show(u) + " is rejected although it satisfies all rules"); return OK; }
static R c11(const Bytes& in) { auto e = ref::to_ascii(in); Buf b(in); std::string o = "junk"; bool r = ai::to_ascii(b.v(), o); if (r != bool(e)) FAIL("to_ascii(" + show(in) + ") " + (r ? "= " + show(o) : "fails") + ", expected " + show(e)); if (o != (e ? *e : "")) FAIL("to_ascii(" + show(in) + ") = " + show(o) + ", expected " + show(e));
  if (ai::to_ascii(b.v()) != (e ? *e : "")) FAIL("to_ascii string form differs on " + show(in)); return OK; }
static R c12(const Bytes& in) { auto e = ref::to_unicode(in); Buf b(in); std::string o = "junk"; bool r = ai::to_unicode(b.v(), o); if (r != bool(e)) FAIL("to_unicode(" + show(in) + ") " + (r ? "succeeds" : "fails")); if (e && o != *e) FAIL("to_unicode(" + show(in) + ") = " + show(o) + ", expected " + show(*e)); if (e && ai::to_unicode(b.v()) != *e) FAIL("to_unicode string form differs on " + show(in)); return OK; }
static R c13(const Bytes& in) { Buf b(in); std::string a, a2, u, a3; if (!ai::to_ascii(b.v(), a)) return OK; if (a.size() <= 16384) { if (!ai::to_ascii(a, a2) || a2 != a) FAIL("to_ascii(to_ascii(" + show(in) + ")) = " + show(a2) + ", to_ascii gives " + show(a));
    if (!ref::ascii(in)) { if (!ai::to_unicode(a, u)) FAIL("to_unicode fails on " + show(a)); if (u.size() <= 16384 && (!ai::to_ascii(u, a3) || a3 != a)) FAIL("to_ascii(to_unicode(x)) = " + show(a3) + " for x = to_ascii(" + show(in) + ") = " + show(a)); } } return OK; }
static R c14(const Bytes& in) { for (uint32_t c : w2u(in, 0)) for (int f = 0; f < 2; f++) { bool e = f ? ref::rec(c).ids : ref::rec(c).idc; if (ai::valid_name_code_point(c, f) != e) { char b[80]; snprintf(b, 80, "valid_name_code_point(U+%04X, %s) = %s", c, f ? "true" : "false", e ? "false" : "true"); FAIL(b); } } return OK; }
#ifdef HAVE_INFLATE
static R c15(const Bytes& in) { if (in.size() < 2) return OK; size_t cap = uint8_t(in[0]) | uint8_t(in[1]) << 8; Buf b(in.substr(2)); std::unique_ptr<uint8_t[]> o(new uint8_t[cap]); memset(o.get(), 0xA5, cap); size_t n = ai::deflate::inflate_raw((const uint8_t*)b.p.get(), b.n, o.get(), cap); if (n > cap) FAIL("inflate_raw returns " + std::to_string(n) + " for capacity " + std::to_string(cap));
  // if zlib inflates the stream into the same capacity, the count must be the number of bytes written
  if (n) { std::unique_ptr<uint8_t[]> q(new uint8_t[cap]); memset(q.get(), 0x5A, cap); size_t m = ai::deflate::inflate_raw((const uint8_t*)b.p.get(), b.n, q.get(), cap); if (m != n || memcmp(q.get(), o.get(), n)) FAIL("inflate_raw reports " + std::to_string(n) + " bytes but did not write them all"); for (size_t i = n; i < cap; i++) if (o[i] != 0xA5) FAIL("inflate_raw writes beyond the reported " + std::to_string(n) + " bytes"); }
  std::unique_ptr<uint8_t[]> z(new uint8_t[cap + 1]); z_stream s{}; inflateInit2(&s, -15); s.next_in = (Bytef*)b.p.get(); s.avail_in = b.n; s.next_out = z.get(); s.avail_out = cap; int rc = inflate(&s, Z_FINISH); size_t zn = s.total_out; inflateEnd(&s);
  if (rc == Z_STREAM_END && (n != zn || memcmp(z.get(), o.get(), n))) FAIL("inflate_raw returns " + std::to_string(n) + " on a valid stream of " + std::to_string(zn) + " bytes, capacity " + std::to_string(cap)); return OK; }
#else
static R c15(const Bytes&) { return OK; }
#endif
static R c17(const Bytes& in) { if (in.empty()) return OK; Bytes s = in.substr(1); U32 u = w2u(in, 1); std::string so; U32 uo; volatile size_t sink = 0;
  { Buf b(s); size_t n = ai::utf32_length_from_utf8(b.p.get(), b.n); std::unique_ptr<char32_t[]> o(new char32_t[n]); sink += ai::utf8_to_utf32(b.p.get(), b.n, o.get()); sink += ai::verify_punycode(b.v()); sink += ai::punycode_to_utf32(b.v(), uo); uo.clear(); sink += ai::to_ascii(b.v(), so); sink += ai::to_unicode(b.v(), so); sink += ai::contains_forbidden_domain_code_point(b.v()); ai::ascii_map(b.p.get(), b.n); }
  { Buf32 b(u); size_t n = ai::utf8_length_from_utf32(b.p.get(), b.n); std::unique_ptr<char[]> o(new char[n]); sink += ai::utf32_to_utf8(b.p.get(), b.n, o.get()); sink += ai::map(b.v(), uo); bool sc = true; for (uint32_t c : u) sc &= ref::scalar(c); sink += ai::is_already_nfc(b.v()); U32 n2 = u; sink += ai::normalize(n2); so.clear(); bool r = ai::utf32_to_punycode(b.v(), so); if (!sc && r) FAIL("utf32_to_punycode accepts " + show(u)); sink += ai::is_label_valid(b.v()); for (uint32_t c : u) { sink += ai::valid_name_code_point(c, true); sink += ai::valid_name_code_point(c, false); } }
  return OK; }
static R c19(const Bytes& in) { Buf b(in); bool e = false; for (uint8_t c : in) e |= ref::forbidden(c); bool v = ai::contains_forbidden_domain_code_point(b.v()); if (v != e) FAIL("contains_forbidden_domain_code_point(" + show(in) + ") = " + (v ? "true" : "false")); return OK; }
static R c20(const Bytes& in0) { Bytes in = in0; // [len lo, len hi, tail...]: content of that length made of repeating tail
  if (in.size() < 4) return OK; size_t n = uint8_t(in[0]) | uint8_t(in[1]) << 8 | (uint8_t(in[2]) & 1) << 16; Bytes t = in.substr(3), s; while (s.size() < n) s += t; s.resize(n); Buf b(s); std::string pre = "earlier content"; 
  std::string o = pre; bool r = ai::to_ascii(b.v(), o); auto e = ref::to_ascii(s); if (r != bool(e) || o != (e ? *e : "")) FAIL("to_ascii of " + std::to_string(n) + " bytes (repeating " + show(t) + "): " + (r ? "succeeds" : "fails") + ", output " + show(o.substr(0, 40)));
  o = pre; r = ai::to_unicode(b.v(), o); auto q = ref::to_unicode(s); if (r != bool(q) || o != (q ? *q : "")) FAIL("to_unicode of " + std::to_string(n) + " bytes (repeating " + show(t) + "): " + (r ? "succeeds" : "fails") + ", output " + show(o.substr(0, 40)));
  if (!q && ai::to_unicode(b.v()) != s) FAIL("to_unicode string form of " + std::to_string(n) + " bytes does not return the input"); if (!e && !ai::to_ascii(b.v()).empty()) FAIL("to_ascii string form not empty"); return OK; }

// ---------------------------------------------------------------- generation
struct Rng { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return z ^ z >> 31; } uint32_t operator()(uint32_t n) { return n ? uint32_t(next() % n) : 0; } bool p(int pct) { return (*this)(100) < (uint32_t)pct; } template <class V> auto pick(const V& v) { return v[(*this)(v.size())]; } };
static std::vector<uint32_t> CONSTS, lens;
struct Pools { std::vector<uint32_t> byb[24], mapped, ignored, decomp, second, marks, comb, virama, jl, jd, jr, ids, first; } P;
static void pools() { for (uint32_t c = 0; c < 0x110000; c++) { if (!ref::scalar(c)) continue; auto& r = ref::D.r[c]; if (r.bidi && (c < 0x20000 || c % 64 == 0)) P.byb[r.bidi].push_back(c); if (r.status == 'M') P.mapped.push_back(c); if (r.status == 'I') P.ignored.push_back(c); if (r.ccc) P.marks.push_back(c); if (r.comb) P.comb.push_back(c); if (r.virama) P.virama.push_back(c); if (r.join == 1) P.jl.push_back(c); if (r.join == 2) P.jd.push_back(c); if (r.join == 4) P.jr.push_back(c); }
  for (auto& [c, d] : ref::D.nfd) P.decomp.push_back(c); for (auto& [k, c] : ref::D.comp) { P.first.push_back(k >> 32); P.second.push_back(uint32_t(k)); } std::sort(P.decomp.begin(), P.decomp.end()); std::sort(P.first.begin(), P.first.end()); std::sort(P.second.begin(), P.second.end()); }
static uint32_t gcp(Rng& g, int mode) { // mode bit0: allow non-scalars
  for (;;) { uint32_t c; switch (g(22)) { case 0: case 1: case 2: c = "abcxn-.019zAQ_"[g(14)]; break; case 3: c = g(0x80); break; case 4: c = g.pick(ref::D.interesting) + g(3) - 1; break; case 5: c = g.pick(P.decomp); break; case 6: c = g.pick(P.first); break; case 7: c = g.pick(P.second); break; case 8: c = g.pick(P.marks); break; case 9: c = 0x1100 + g(0x13); break; case 10: c = 0x1161 + g(0x16); break; case 11: c = 0x11a7 + g(0x1d); break; case 12: c = 0xac00 + (g(2) ? g(399) * 28 : g(11172)); break; case 13: c = g(2) ? 0x200c + g(2) : g.pick(P.virama); break; case 14: { auto& v = P.byb[1 + g(11)]; c = v.empty() ? 'a' : g.pick(v); break; } case 15: c = g.pick(P.mapped); break; case 16: c = g.pick(P.ignored); break; case 17: if (CONSTS.empty()) continue; c = g.pick(CONSTS) + g(3) - 1; break; case 18: c = g(0x300); break; case 19: c = g(0x10000); break; case 20: c = g(0x110000); break; default: c = (mode & 1) ? (g(2) ? 0xd7fe + g(0x804) : g(3) ? 0x10fffe + g(5) : uint32_t(g.next())) : g.pick(P.jd); }
    if ((mode & 1) || ref::scalar(c)) return c; } }
static size_t glen(Rng& g, size_t mx) { size_t n; switch (g(12)) { case 0: n = 1 + g(40); break; case 1: n = lens.empty() ? 16 : g.pick(lens) + g(3) - 1; break; case 2: n = (size_t(1) << g(9)) + g(3) - 1; break; default: n = g(9); } return n > mx ? g(uint32_t(std::min<size_t>(mx, 64))) : n; }
static U32 gu32(Rng& g, int mode, size_t mx = 300) { U32 o; size_t n = glen(g, mx); int st = g(6); uint32_t one = gcp(g, mode); std::vector<uint32_t> al; for (int i = 0; i < 4; i++) al.push_back(gcp(g, mode)); for (size_t i = 0; i < n; i++) o.push_back(st == 0 ? g.pick(al) : st == 1 && !g.p(10) ? one : st == 2 && !g.p(15) ? "abcdefz-"[g(8)] : gcp(g, mode)); return o; }
static Bytes gutf8(Rng& g, size_t mx = 300) { U32 u = gu32(g, 0, mx); if (g.p(30)) for (auto& c : u) if (g.p(80)) c = 'a' + g(26); Bytes s = *ref::utf8_encode(u); if (g.p(15)) s.insert(g(s.size() + 1), std::string(g(40), 'a' + g(26))); int k = g(3); for (int i = 0; i < k && !s.empty(); i++) switch (g(5)) { case 0: s[g(s.size())] = char(g(256)); break; case 1: s.resize(g(s.size() + 1)); break; case 2: { static const char* bad[] = {"\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\x80", "\xff", "\xed\x9f\xbf", "\xee\x80\x80", "\xf4\x8f\xbf\xbf", "\xe2\x82", "\xf0\x9f\x98", "\xc3"}; s.insert(g(s.size() + 1), bad[g(18)]); break; } case 3: s.erase(g(s.size()), 1); break; default: s[g(s.size())] ^= 1 << g(8); } return s; }
static U32 glabel(Rng& g) { U32 u; int st = g(8); if (st < 3) { // Arabic/Hebrew style with joiners
    size_t n = 1 + g(7); for (size_t i = 0; i < n; i++) switch (g(9)) { case 0: u.push_back(0x200c); break; case 1: u.push_back(0x200d); break; case 2: u.push_back(g.pick(P.virama)); break; case 3: u.push_back(g.pick(P.jd)); break; case 4: u.push_back(g.pick(P.jr)); break; case 5: u.push_back(g.pick(P.jl)); break; case 6: u.push_back('a' + g(26)); break; default: u.push_back(gcp(g, 0)); } }
  else if (st < 6) { size_t n = 1 + g(7); int cl = g(3); for (size_t i = 0; i < n; i++) { static const int rt[] = {7, 7, 9, 10, 5, 3, 2, 11, 4, 1, 8, 6}; static const int lt[] = {6, 6, 5, 3, 2, 11, 4, 1, 8, 6, 7, 10}; int b = cl == 0 ? rt[g(11)] : cl == 1 ? lt[g(11)] : 1 + g(23); auto& v = P.byb[b]; u.push_back(v.empty() ? 'a' : g.pick(v)); } if (g.p(25)) u.insert(u.begin() + g(u.size() + 1), 0x200c + g(2)); }
  else u = gu32(g, 0, 30); return u; }
static Bytes gpuny(Rng& g) { Bytes s; switch (g(5)) { case 0: { size_t n = g(14); for (size_t i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyz0123456789-999"[g(40)]; break; } case 1: { auto e = ref::puny_encode(glabel(g)); s = e ? *e : ""; break; } case 2: { U32 u = gu32(g, 0, 80); if (g.p(20)) u.insert(0, U"xn--"); auto e = ref::puny_encode(u); s = e ? *e : ""; break; } case 3: { auto m = ref::map(glabel(g)); U32 u = m ? ref::nfc(*m) : U32(U"\u00fc"); auto e = ref::puny_encode(u); s = e ? *e : ""; break; } default: { U32 u(g(70), U'a' + g(26)); int k = g(3); for (int i = 0; i < k; i++) u.insert(u.begin() + g(u.size() + 1), gcp(g, 0)); auto e = ref::puny_encode(u); s = e ? *e : ""; } }
  if (g.p(45)) { int k = 1 + g(2); while (k--) switch (g(6)) { case 0: if (s.size()) s[g(s.size())] = "abcdz0129-AZ\x80\xff"[g(14)]; break; case 1: s += "9a0z-"[g(5)]; break; case 2: s.insert(g(s.size() + 1), 1, "a9-z0"[g(5)]); break; case 3: if (s.size()) s.pop_back(); break; case 4: if (s.size()) s.erase(g(s.size()), 1); break; default: s += std::string(1 + g(7), "9z0a"[g(4)]); } } return s; }
static Bytes gdomain(Rng& g) { Bytes s; int n = 1 + g(4); for (int i = 0; i < n; i++) { if (i) s += g.p(90) ? "." : "\xe3\x80\x82"; switch (g(9)) { case 0: break; case 1: { size_t k = 1 + g(10); for (size_t j = 0; j < k; j++) s += "abcXYZ019-_ xn"[g(14)]; break; } case 2: case 3: s += (g.p(90) ? "xn--" : g.p(50) ? "XN--" : "Xn--") + gpuny(g); break; case 4: case 5: { auto m = ref::map(glabel(g)); U32 u = m ? ref::nfc(*m) : U32(U"stra\u00dfe"); for (auto& c : u) if (c == '.') c = 'o'; s += *ref::utf8_encode(u); break; } case 6: s += *ref::utf8_encode(glabel(g)); break; case 7: { U32 u = gu32(g, 0, 60); for (auto& c : u) { auto& r = ref::D.r[c]; if (r.status == 'D') c = 'q'; } s += *ref::utf8_encode(u); break; } default: { auto m = ref::map(glabel(g)); U32 u = m ? ref::nfc(*m) : U32(U"b\u00fccher"); auto e = ref::puny_encode(u); s += "xn--" + (e ? *e : ""); } } }
  if (g.p(8)) s = gutf8(g); if (g.p(3)) { size_t k = s.size(); Bytes t; int rep = 1 + g(600); while (rep-- && t.size() + k < 17000) t += s + "."; s = t; } return s; }
// random DEFLATE streams with dynamic blocks, bit by bit
struct BW { Bytes o; int n = 0; void put(uint32_t v, int k) { for (int i = 0; i < k; i++) { if (n % 8 == 0) o += '\0'; if (v >> i & 1) o.back() |= 1 << (n % 8); n++; } } void huff(uint32_t code, int len) { for (int i = len - 1; i >= 0; i--) put(code >> i & 1, 1); } };
static std::vector<uint32_t> canon(const std::vector<int>& L) { std::vector<uint32_t> c(L.size()); uint32_t code = 0; for (int b = 1; b <= 15; b++) { code <<= 1; for (size_t i = 0; i < L.size(); i++) if (L[i] == b) c[i] = code++; } return c; }
static std::vector<int> klens(Rng& g, int n, int mx) { // random complete code
  std::vector<int> L(n, 0); std::vector<int> leaf{0}; int want = 1 + g(n > 20 ? (g(2) ? 20 : n) : n); while ((int)leaf.size() < want) { int i = g(2) ? leaf.size() - 1 : g(leaf.size()); if (leaf[i] >= mx) { bool any = false; for (int& x : leaf) if (x < mx) { any = true; } if (!any) break; continue; } leaf[i]++; leaf.push_back(leaf[i]); } if (leaf.size() == 1) leaf[0] = 1; std::vector<int> idx(n); for (int i = 0; i < n; i++) idx[i] = i; for (int i = n - 1; i > 0; i--) std::swap(idx[i], idx[g(i + 1)]); for (size_t i = 0; i < leaf.size(); i++) L[idx[i]] = leaf[i]; return L; }
static Bytes gdeflate(Rng& g) { BW w; int nb = 1 + g(3); size_t out = 0; for (int bi = 0; bi < nb; bi++) { int type = g.p(4) ? 3 : g(5) == 0 ? 0 : g(4) == 0 ? 1 : 2; w.put(bi == nb - 1, 1); w.put(type, 2); if (type == 3) break; if (type == 0) { while (w.n % 8) w.put(g(2), 1); uint32_t n = g(30); w.put(n, 16); w.put(g.p(95) ? (~n & 0xffff) : g(65536), 16); uint32_t m = g.p(95) ? n : g(n + 1); for (uint32_t i = 0; i < m; i++) w.put(g(256), 8); out += n; continue; }
    std::vector<int> LL(288, 0), DL(32, 0); int hl = 286, hd = 30; if (type == 1) { for (int i = 0; i < 288; i++) LL[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8; for (int& x : DL) x = 5; hl = 288; hd = 32; } else { hl = 257 + g(32); hd = 1 + g(32); if (g.p(30)) { hl = 288; hd = 32; } LL = klens(g, hl, 15); if (!LL[256] && g.p(95)) { for (int i = 0; i < hl; i++) if (LL[i]) { std::swap(LL[i], LL[256]); break; } } DL = klens(g, hd, 15);
      std::vector<int> all = LL; all.insert(all.end(), DL.begin(), DL.end()); std::vector<std::pair<int, int>> sy; for (size_t i = 0; i < all.size();) { size_t r = 1; while (i + r < all.size() && all[i + r] == all[i]) r++; size_t left = all.size() - i; if (all[i] == 0 && r >= 3 && g.p(90)) { size_t k = std::min<size_t>(r, 138); if (g.p(3) || (k == left && g.p(25))) k = std::min<size_t>(138, k + g(100)); if (k <= 10) sy.push_back({17, k - 3}); else sy.push_back({18, k - 11}); i += k; } else if (i && all[i] == all[i - 1] && r >= 3 && g.p(80)) { size_t k = std::min<size_t>(r, 6); if (g.p(3) || (k == left && g.p(25))) k = 3 + g(4); sy.push_back({16, k - 3}); i += k; } else { sy.push_back({all[i], 0}); i++; } } if (g.p(8)) sy.push_back({16 + (int)g(3), (int)g(4)}); if (g.p(3)) sy.insert(sy.begin(), {16, 0});
      std::vector<int> used(19, 0); for (auto& s : sy) used[s.first]++; std::vector<int> CL(19, 0); int k = 0; for (int u : used) k += u > 0; int b = 1; while ((1 << b) < k) b++; for (int i = 0; i < 19; i++) if (used[i]) CL[i] = b; static const int order[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}; int hc = 19; while (hc > 4 && !CL[order[hc - 1]]) hc--; w.put(hl - 257, 5); w.put(hd - 1, 5); w.put(hc - 4, 4); for (int i = 0; i < hc; i++) w.put(CL[order[i]], 3); auto cc = canon(CL); for (auto& s : sy) { w.huff(cc[s.first], CL[s.first]); if (s.first == 16) w.put(s.second, 2); if (s.first == 17) w.put(s.second, 3); if (s.first == 18) w.put(s.second, 7); } }
    auto lc = canon(LL), dc = canon(DL); static const int le[] = {0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0,0,0}; static const int lb[] = {3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258,0,0}; static const int db[] = {1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577,0,0}; static const int de[] = {0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13,0,0};
    std::vector<int> lits, ls, ds; for (size_t i = 0; i < LL.size(); i++) if (LL[i]) (i < 256 ? lits : ls).push_back(i); for (size_t i = 0; i < DL.size(); i++) if (DL[i]) ds.push_back(i); int n = g(40); for (int i = 0; i < n; i++) { if (lits.size() && (ls.empty() || ds.empty() || g.p(60))) { int s = g.pick(lits); w.huff(lc[s], LL[s]); out++; } else if (ls.size() && ds.size()) { int s = g.pick(ls); if (s == 256) continue; int d = -1; for (int t = 0; t < 6; t++) { int x = g.pick(ds); if (d < 0 || (x < 30 && (size_t)db[x] <= out)) d = x; if ((size_t)db[d] <= out && g.p(90)) break; } w.huff(lc[s], LL[s]); uint32_t lx = s - 257 < 31 ? g(1 << le[s - 257]) : 0; w.put(lx, le[s - 257]); w.huff(dc[d], DL[d]); uint32_t dx = g(1 << de[d]); if (g.p(90) && db[d] + dx > out) dx = 0; if (g.p(20) && out >= (size_t)db[d] && out - db[d] < (1u << de[d])) dx = out - db[d] + g(2); w.put(dx, de[d]); out += lb[s - 257] + lx; } } if (LL.size() > 256 && LL[256] && g.p(98)) w.huff(lc[256], LL[256]); }
  Bytes s = w.o; if (g.p(20) && s.size()) { int k = 1 + g(3); while (k--) s[g(s.size())] ^= 1 << g(8); } if (g.p(8)) s.resize(g(s.size() + 1)); size_t cap = g(3) ? out + g(3) - (g.p(30) ? g(4) : 0) : g(3000); if (cap > 65535) cap = g(65536); return std::string() + char(cap) + char(cap >> 8) + s; }

static Bytes gen(const std::string& p, Rng& g) {
  if (p == "C01") return gutf8(g); if (p == "C02") return u2w(gu32(g, 1)); if (p == "C03" && g.p(40)) { static const char* L[] = {"a", "XN--A", "xn--0", "b_%", "", "xn--", "-Q", "xn--a-", "AZ", "xn--bcher-kva"}; size_t n = glen(g, 20) * (g.p(30) ? 20 : 1); Bytes s; for (size_t i = 0; i < n; i++) { if (i) s += char(46); s += L[g(10)]; } if (g.p(40)) s += char(46); return s; } if (p == "C03" || p == "C19") { size_t n = glen(g, 600); Bytes s; int st = g(5); char one = g(256); for (size_t i = 0; i < n; i++) s += st == 0 ? one : st == 1 ? char('A' + g(26)) : st == 2 ? char('a' + g(26)) : st == 3 ? "@AZ[`az{"[g(8)] : char(g(p == "C19" && g.p(95) ? 128 : 256)); if (p == "C19" && g.p(50)) { for (char& c : s) while (ref::forbidden(c)) c = g(128); if (s.size() && g.p(60)) s[g(s.size())] = char(g(256)); } return s; }
  if (p == "C04") { U32 u = gu32(g, 0); if (g.p(80)) for (auto& c : u) while (ref::rec(c).status == 'D') c = gcp(g, 0); else if (g.p(50)) u.insert(u.begin() + g(u.size() + 1), gcp(g, 1)); return u2w(u); }
  if (p == "C05") { if (g.p(50)) { U32 u; size_t n = 1 + g(7); for (size_t i = 0; i < n; i++) switch (g(6)) { case 0: u.push_back(g.pick(P.decomp)); break; case 1: u.push_back(g.pick(P.first)); break; case 2: u.push_back(g.pick(P.second)); break; case 3: u.push_back(g.pick(P.marks)); break; case 4: u.push_back(gcp(g, 0)); break; default: { U32 d; ref::nfd_append(d, g.pick(P.decomp)); u += d; } } if (g.p(30)) u = ref::nfc(u); return u2w(u); } return u2w(gu32(g, 0)); }
  if (p == "C06") return Bytes(1, char(g(8))) + u2w(gu32(g, g.p(15), 400)); if (p == "C07") return Bytes(1, char(g(4))) + gpuny(g); if (p == "C08") return g.p(50) ? Bytes(1, 0) + u2w(g.p(50) ? glabel(g) : gu32(g, 0, 400)) : Bytes(1, 1) + gpuny(g);
  if (p == "C09" || p == "C10") return u2w(glabel(g)); if (p == "C11" || p == "C12" || p == "C13") return gdomain(g); if (p == "C14") { U32 u; for (int i = 0; i < 16; i++) u.push_back(gcp(g, 1)); return u2w(u); } if (p == "C15") return gdeflate(g);
  if (p == "C17") switch (g(5)) { case 0: return "x" + gdomain(g); case 1: return "x" + u2w(gu32(g, 1)); case 2: return "x" + gpuny(g); case 3: return "x" + u2w(glabel(g)); default: return "x" + gutf8(g); }
  if (p == "C20") { uint32_t n = g.p(70) ? 16384 + g(5) - 2 : g.p(50) && lens.size() ? g.pick(lens) : g(40000); Bytes t; switch (g(4)) { case 0: t = "a"; break; case 1: t = "b\xc3\xbc" "ch."; break; case 2: t = gdomain(g).substr(0, 100); break; default: t = "xn--bcher-kva."; } if (t.empty()) t = "A."; return Bytes() + char(n) + char(n >> 8) + char(n >> 16) + t; }
  return ""; }
using Case = R (*)(const Bytes&);
static const std::map<std::string, Case> cases = {{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C08", c08}, {"C09", c09}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C14", c14}, {"C15", c15}, {"C17", c17}, {"C19", c19}, {"C20", c20}};
static char* cur; static const size_t CURMAX = 1 << 20;
static size_t ncases = 0;
static Case fn; static Bytes witness; static R witness_text;
static bool run1(const Bytes& s) { if (cur && s.size() < CURMAX - 8) { uint64_t n = s.size(); memcpy(cur, &n, 8); memcpy(cur + 8, s.data(), n); } ncases++; R r = fn(s); if (r.empty()) return false; witness = s; witness_text = r; return true; }
static std::string hex(const Bytes& b) { std::string o; char t[4]; for (uint8_t c : b) { snprintf(t, 4, "%02x", c); o += t; } return o; }
static bool sweep(const std::string& p, int w, int nw) { auto one = [&](uint32_t c) { return int(c % nw) == w; };
  auto u = [&](std::initializer_list<uint32_t> l, const char* pre = "") { Bytes s = pre; for (uint32_t c : l) s.append((const char*)&c, 4); return s; };
  if (p == "C01") { for (uint32_t a = 0; a < 256; a++) { if (run1(Bytes(1, a))) return true; for (uint32_t b = 0; b < 256; b++) { if (!one(a * 256 + b)) continue; if (run1(Bytes() + char(a) + char(b))) return true; if (a >= 0xc0) for (uint32_t c = 0; c < 256; c += (c < 0x7c || (c > 0x84 && c < 0xbc) || c > 0xc4) ? 3 : 1) { if (run1(Bytes() + char(a) + char(b) + char(c))) return true; if (a >= 0xec) for (uint32_t d : {0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0xbf, 0xc0, 0xff}) if (run1(Bytes() + char(a) + char(b) + char(c) + char(d))) return true; } } }
    for (uint32_t c = w; c < 0x110000; c += nw) if (ref::scalar(c)) { Bytes s = *ref::utf8_encode(U32(1, c)); if (run1(s)) return true; }
    for (size_t n = 0; n < 70; n++) for (size_t k = 0; k <= n; k++) if (one(n * 71 + k)) for (const char* m : {"\xc3\xa9", "\xff", "\xf0\x9f\x98\x80", "\xe2\x82"}) { Bytes s(n, 'a'); s.insert(k, m); if (run1(s)) return true; } return false; }
  if (p == "C02" || p == "C04" || p == "C05" || p == "C06" || p == "C08" || p == "C09" || p == "C10" || p == "C14" || p == "C17") { const char* pre = p == "C06" || p == "C17" ? "x" : ""; Bytes z = p == "C08" ? Bytes(1, 0) : Bytes(pre);
    for (uint32_t c = w; c < 0x110000; c += nw) { if (run1(z + u({c}))) return true; if (p == "C09" || p == "C10") { if (run1(u({'a', c})) || run1(u({0x5d0, c})) || run1(u({c, 0x5d0})) || run1(u({c, 0x200d, 'a'})) || run1(u({0x628, 0x200c, c})) || run1(u({c, 0x200c, 0x628})) || run1(u({0x5d0, c, 0x5d0})) || run1(u({'a', c, 0x5d0}))) return true; } else if (p == "C08" || p == "C06") { if (run1(z + u({'a', c, 'b'}))) return true; } else if (p == "C05") { if (run1(u({c, 0x301})) || run1(u({'e', c})) || run1(u({'e', 0x301, c})) || run1(u({'e', c, 0x301}))) return true; } }
    for (uint32_t c : {0xd800u, 0xdbffu, 0xdc00u, 0xdfffu, 0x110000u, 0x110001u, 0x1fffffu, 0x200000u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0x80000061u, 0xffff0061u}) if (run1(z + u({c})) || run1(z + u({'a', c})) || run1(z + u({c, 'a'})) || run1(z + u({'a', c, 'b'}))) return true; 
    if (p == "C05") { for (auto& [k, c] : ref::D.comp) { if (!one(uint32_t(c))) continue; uint32_t a = k >> 32, b = uint32_t(k); if (run1(u({a, b})) || run1(u({c})) || run1(u({a, 'x', b})) || run1(u({a, 0x323, b})) || run1(u({a, 0x334, b})) || run1(u({a, 0x301, b})) || run1(u({a, 0x345, b})) || run1(u({a, b, b})) || run1(u({c, 0x323})) || run1(u({c, 0x301})) || run1(u({a, b + 1})) || run1(u({a, b - 1})) || run1(u({a + 1, b})) || run1(u({b, a}))) return true; }
      for (uint32_t a = 0x10fe; a < 0x1115; a++) for (uint32_t b = 0x1160; b < 0x1178; b++) { if (run1(u({a, b}))) return true; for (uint32_t c : {0x11a6, 0x11a7, 0x11a8, 0x11c2, 0x11c3, 0x301}) if (one(a + b) && run1(u({a, b, c}))) return true; } for (uint32_t s = 0xabfe + w; s < 0xd7a6; s += nw) for (uint32_t c : {0x11a6, 0x11a7, 0x11a8, 0x11b0, 0x11c2, 0x11c3, 0x1161}) if (run1(u({s, c})) || run1(u({s, c, c}))) return true; } return false; }
  if (p == "C03" || p == "C19") { for (size_t n = 0; n < 80; n++) for (size_t k = 0; k < n; k++) if (one(n * 80 + k)) for (int c = 0; c < 256; c++) { if (n > 20 && !(c == 'A' || c == 'Z' || c == '@' || c == '[' || c % 37 == 0 || c == ' ' || c == '%' || c == 0x7f || c == 0x80)) continue; Bytes s(n, 'q'); s[k] = c; if (run1(s)) return true; } return run1(""); }
  if (p == "C07") { const std::string A = "abkz09-"; std::function<bool(Bytes, int)> rec = [&](Bytes s, int d) { if (run1("x" + s)) return true; if (d) for (char c : A) if (rec(s + c, d - 1)) return true; return false; }; for (size_t i = 0; i < A.size() * A.size(); i++) if (one(i) && rec(Bytes() + A[i / A.size()] + A[i % A.size()], 3)) return true; if (run1("x")) return true; for (int c = 0; c < 256; c++) if (one(c) && (run1(Bytes("x") + char(c)) || run1(Bytes("xab-") + char(c) + "a") || run1(Bytes("xa") + char(c) + "-kva") || run1(Bytes("xbcher-kv") + char(c)) )) return true; return false; }
  if (p == "C11" || p == "C12" || p == "C13") { for (uint32_t c = w; c < 0x110000; c += nw) { if (!ref::scalar(c)) continue; Bytes e = *ref::utf8_encode(U32(1, c)); if (p == "C12") { auto k = ref::puny_encode(U32(1, c)); if (run1("xn--" + *k)) return true; auto k2 = ref::puny_encode(U32(U"a") + char32_t(c)); if (run1("xn--" + *k2 + ".B")) return true; } else { if (run1(e) || run1("a" + e + ".com")) return true; if (p == "C11" && c >= 0x80) { auto k = ref::puny_encode(U32(1, c)); if (run1("xn--" + *k + ".\xc3\xbc")) return true; } } } for (const char* s : {"", ".", "..", "a.", ".a", "xn--", "xn--.", "xn---", "xn--a", "xn--a-", "\xc2\xad", "\xc2\xad.\xc2\xad", "xn--.\xc3\xbc", "xn--a-.\xc3\xbc", "xn--\xc3\xbc", "XN--BCHER-KVA.\xc3\xbc", "\xc3\xbc.", ".\xc3\xbc", "\xc3\xbc..a", "xn--xn---epa", "xn--nxasmq6b", "a\xe3\x80\x82\xc3\xbc"}) if (run1(s)) return true; return false; }
  if (p == "C20") { if (w == 0) for (size_t n : {0, 1, 16382, 16383, 16384, 16385, 16386, 32768, 65536, 100000}) for (const char* t : {"a", "A.", "\xc3\xbc", "\xc3\xbc.", "xn--bcher-kva.", "ab\xc3\xa9", "\xff", "."}) if (run1(Bytes() + char(n) + char(n >> 8) + char(n >> 16) + t)) return true; return false; }
  return false; }
static void shrink() { auto t0 = std::chrono::steady_clock::now(); size_t unit = 1; for (size_t k = witness.size(); k >= 1; k /= 2) { for (size_t i = 0; i + k <= witness.size();) { if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(5)) return; Bytes t = witness; t.erase(i, k); Bytes w0 = witness; R r0 = witness_text; if (!run1(t)) { witness = w0; witness_text = r0; i += unit; } } if (k == 1) break; } }
int main(int argc, char** argv) { if (argc < 4) return 2; std::string mode = argv[1], p = argv[2]; if (!ref::D.load(argv[3])) { puts("NODATA"); return 2; } auto it = cases.find(p); if (it == cases.end()) return 2; fn = it->second;
  if (mode == "replay") { Bytes s; std::string h = argv[4]; if (h == "-") { h.clear(); int c; while ((c = getchar()) > 32) h += c; } for (size_t i = 0; i + 1 < h.size(); i += 2) s += char(std::stoi(h.substr(i, 2), 0, 16)); if (run1(s)) { printf("FAIL %s\n", witness_text.c_str()); return 1; } puts("PASS"); return 0; }
  std::ifstream cf(argv[4]); uint64_t v; while (cf >> v) { if (v <= 0xffffffffu) CONSTS.push_back(v); if (v > 1 && v <= 20000) lens.push_back(v); } uint64_t seed = atoll(argv[5]); int w = atoi(argv[6]), nw = atoi(argv[7]); double secs = atof(argv[8]);
  int fd = open(argv[9], O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd >= 0 && ftruncate(fd, CURMAX) == 0) cur = (char*)mmap(0, CURMAX, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (cur == MAP_FAILED) cur = nullptr;
  pools(); auto t0 = std::chrono::steady_clock::now(); auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  bool bad = secs > 0 && sweep(p, w, nw); size_t sw = ncases; Rng g{seed * 1000003 + w}; while (!bad && el() < secs) for (int i = 0; i < 64 && !bad; i++) bad = run1(gen(p, g));
  if (bad) { shrink(); printf("WITNESS %s %s\n", hex(witness).c_str(), witness_text.c_str()); }
  printf("CASES %zu SWEEP %zu\n", ncases, sw); return bad ? 1 : 0; }
