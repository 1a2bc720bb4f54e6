// Independent reference definitions used to look for (and to replay) concrete
// failing inputs.  Nothing here is derived from the library's code paths: the
// data comes from data/shipped.txt, the algorithms from RFC 3629, RFC 3492,
// UAX #15, UTS #46 and RFC 5893, written over plain vectors with 64-bit
// arithmetic.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <optional>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
namespace ref {
using U32 = std::u32string;
enum Bidi { NONE, BN, CS, ES, ON, EN, L, R, NSM, AL, AN, ET, WS, RLO, LRO, PDF, RLE, RLI, FSI, PDI, LRI, B, S, LRE };
static const char* bidi_names[] = {"NONE","BN","CS","ES","ON","EN","L","R","NSM","AL","AN","ET","WS","RLO","LRO","PDF","RLE","RLI","FSI","PDI","LRI","B","S","LRE"};
struct Rec { char status = 'D'; uint8_t bidi = 0, ccc = 0, comb = 0, notnfc = 0, ids = 0, idc = 0, join = 0, virama = 0; };
struct Data {
  std::vector<Rec> r = std::vector<Rec>(0x110000);
  std::unordered_map<uint32_t, U32> mapping, nfd;
  std::unordered_map<uint64_t, uint32_t> comp;
  std::vector<uint32_t> interesting;  // range borders
  static U32 hexlist(const std::string& s) { U32 o; std::istringstream i(s); i >> std::hex; uint32_t v; while (i >> v) o.push_back(v); return o; }
  bool load(const std::string& fn) {
    std::ifstream f(fn); if (!f) return false; std::string line;
    while (std::getline(f, line)) {
      if (line.empty() || line[0] == '#') continue;
      std::vector<std::string> c; size_t p = 0; for (;;) { size_t q = line.find(';', p); c.push_back(line.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; }
      if (c.size() < 13) return false;
      uint32_t lo = std::stoul(c[0], 0, 16), hi = std::stoul(c[1], 0, 16); Rec x; x.status = c[2][0];
      for (int i = 0; i < 24; i++) if (c[4] == bidi_names[i]) x.bidi = i;
      x.ccc = std::stoi(c[5]); x.comb = c[7] == "1"; x.notnfc = c[8] == "1"; x.ids = c[9] == "1"; x.idc = c[10] == "1"; x.join = std::stoi(c[11]); x.virama = c[12] == "1";
      U32 m = hexlist(c[3]), d = hexlist(c[6]);
      for (uint32_t k = lo; k <= hi; k++) { r[k] = x; if (!m.empty()) mapping[k] = m; if (!d.empty()) nfd[k] = d; }
      interesting.push_back(lo); interesting.push_back(hi);
    }
    // primary composites: c with NFC(c) = c and a decomposition (X, y)
    std::map<U32, uint32_t> by; for (auto& [c, d] : nfd) if (!r[c].notnfc) by[d] = c;
    for (auto& [c, d] : nfd) if (!r[c].notnfc && d.size() >= 2) {
      U32 h(d.begin(), d.end() - 1); uint32_t first = 0;
      if (h.size() == 1) first = h[0]; else { auto it = by.find(h); if (it == by.end()) continue; first = it->second; }
      comp[(uint64_t(first) << 32) | d.back()] = c;
    }
    return true;
  }
};
inline Data D;
inline bool scalar(uint32_t c) { return c <= 0x10ffff && !(c >= 0xd800 && c < 0xe000); }
inline const Rec& rec(uint32_t c) { static Rec z; return scalar(c) ? D.r[c] : z; }
// --- UTF-8
inline std::optional<U32> utf8_decode(const std::string& s) {
  U32 o; size_t i = 0, n = s.size();
  auto b = [&](size_t k) -> int { return k < n ? uint8_t(s[k]) : -1; };
  while (i < n) {
    int c = b(i); size_t len = c < 0x80 ? 1 : (c >= 0xc2 && c <= 0xdf) ? 2 : (c >= 0xe0 && c <= 0xef) ? 3 : (c >= 0xf0 && c <= 0xf4) ? 4 : 0;
    if (!len) return {}; uint32_t v = len == 1 ? c : c & (0xff >> (len + 1));
    for (size_t k = 1; k < len; k++) { int x = b(i + k); if (x < 0x80 || x > 0xbf) return {}; v = v << 6 | (x & 0x3f); }
    static const uint32_t mn[] = {0, 0, 0x80, 0x800, 0x10000}; if (v < mn[len] || !scalar(v)) return {};
    o.push_back(v); i += len;
  }
  return o;
}
inline std::optional<std::string> utf8_encode(const U32& s) {
  std::string o; for (uint32_t c : s) { if (!scalar(c)) return {};
    if (c < 0x80) o += char(c); else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
    else { o += char(0xf0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); } }
  return o; }
// --- mapping
inline std::optional<U32> map(const U32& s) { U32 o; for (uint32_t c : s) { const Rec& x = rec(c); if (x.status == 'D') return {}; if (x.status == 'V') o.push_back(c); else if (x.status == 'M') o += D.mapping[c]; } return o; }
// --- normalization
inline void nfd_append(U32& o, uint32_t c) {
  if (c >= 0xac00 && c < 0xac00 + 11172) { uint32_t s = c - 0xac00; o.push_back(0x1100 + s / 588); o.push_back(0x1161 + s % 588 / 28); if (s % 28) o.push_back(0x11a7 + s % 28); return; }
  auto it = scalar(c) ? D.nfd.find(c) : D.nfd.end(); if (it == D.nfd.end()) o.push_back(c); else o += it->second; }
inline U32 nfd(const U32& s) { U32 o; for (uint32_t c : s) nfd_append(o, c);
  for (size_t i = 1; i < o.size(); i++) for (size_t j = i; j > 0 && rec(o[j]).ccc && rec(o[j - 1]).ccc > rec(o[j]).ccc; j--) std::swap(o[j], o[j - 1]);
  return o; }
inline uint32_t pair_comp(uint32_t a, uint32_t b) {
  if (a >= 0x1100 && a < 0x1113 && b >= 0x1161 && b < 0x1176) return 0xac00 + (a - 0x1100) * 588 + (b - 0x1161) * 28;
  if (a >= 0xac00 && a < 0xac00 + 11172 && (a - 0xac00) % 28 == 0 && b > 0x11a7 && b < 0x11c3) return a + (b - 0x11a7);
  auto it = D.comp.find((uint64_t(a) << 32) | b); return it == D.comp.end() ? 0 : it->second; }
inline U32 nfc(const U32& s) { U32 d = nfd(s), o; size_t starter = SIZE_MAX; int last = -1; 
  for (uint32_t c : d) { int cc = rec(c).ccc;
    if (starter != SIZE_MAX && (last < cc || last == -1)) { // not blocked
      uint32_t p = pair_comp(o[starter], c); if (p) { o[starter] = p; continue; } }
    if (cc == 0) { starter = o.size(); last = -1; } else last = cc;
    o.push_back(c); }
  return o; }
// --- punycode
static const int64_t MAXI = 0x7fffffff;
inline int64_t adapt(int64_t d, int64_t n, bool first) { d = first ? d / 700 : d / 2; d += d / n; int64_t k = 0; while (d > 455) { d /= 35; k += 36; } return k + 36 * d / (d + 38); }
inline std::optional<std::string> puny_encode(const U32& s) {
  for (uint32_t c : s) if (!scalar(c)) return {};
  std::string o; for (uint32_t c : s) if (c < 0x80) o += char(c); int64_t h = o.size(), b = h, n = 128, d = 0, bias = 72; if (b) o += '-';
  while (h < (int64_t)s.size()) { int64_t m = INT64_MAX; for (uint32_t c : s) if (c >= n && c < m) m = c;
    if (m - n > (MAXI - d) / (h + 1)) return {}; d += (m - n) * (h + 1); n = m;
    for (uint32_t c : s) { if (c < n) { if (d == MAXI) return {}; d++; }
      if (c == n) { int64_t q = d; for (int64_t k = 36;; k += 36) { int64_t t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias; if (q < t) break; int64_t g = t + (q - t) % (36 - t); o += char(g < 26 ? 'a' + g : '0' + g - 26); q = (q - t) / (36 - t); }
        o += char(q < 26 ? 'a' + q : '0' + q - 26); bias = adapt(d, h + 1, h == b); d = 0; h++; } }
    d++; n++; }
  return o; }
inline std::optional<U32> puny_decode(const std::string& s) {
  size_t b = s.rfind('-'); U32 o; size_t i = 0; if (b != std::string::npos && b > 0) { for (size_t k = 0; k < b; k++) { if (uint8_t(s[k]) >= 0x80) return {}; o.push_back(s[k]); } i = b + 1; }
  int64_t n = 128, x = 0, bias = 72;
  while (i < s.size()) { int64_t old = x, w = 1; for (int64_t k = 36;; k += 36) { if (i >= s.size()) return {}; char c = s[i++]; int64_t g = c >= 'a' && c <= 'z' ? c - 'a' : c >= '0' && c <= '9' ? c - '0' + 26 : -1; if (g < 0) return {};
      if (g > (MAXI - x) / w) return {}; x += g * w; int64_t t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias; if (g < t) break; if (w > MAXI / (36 - t)) return {}; w *= 36 - t; }
    int64_t len = o.size() + 1; bias = adapt(x - old, len, old == 0); if (x / len > MAXI - n) return {}; n += x / len; x %= len; o.insert(o.begin() + x, char32_t(n)); x++; }
  if (o.size() >= 4 && o.compare(0, 4, U"xn--") == 0) return {};
  return o; }
// --- label validity
inline bool comb_ok(const U32& s) { return s.empty() || !rec(s[0]).comb; }
inline bool joiners_ok(const U32& s) { for (size_t i = 0; i < s.size(); i++) { if (s[i] != 0x200c && s[i] != 0x200d) continue;
    if (i > 0 && rec(s[i - 1]).virama) continue; if (s[i] == 0x200d) return false; bool bl = false, al = false;
    for (size_t k = 0; k < i; k++) { int j = rec(s[k]).join; bl |= j == 1 || j == 2; } for (size_t k = i + 1; k < s.size(); k++) { int j = rec(s[k]).join; al |= j == 4 || j == 2; }
    if (!bl || !al) return false; } return true; }
inline bool has_rtl(const U32& s) { for (uint32_t c : s) { int b = rec(c).bidi; if (b == R || b == AL || b == AN) return true; } return false; }
inline bool bidi_ok(const U32& s) { if (!has_rtl(s)) return true; int f = rec(s[0]).bidi; size_t e = s.size(); while (e > 0 && rec(s[e - 1]).bidi == NSM) e--; if (!e) return false; int l = rec(s[e - 1]).bidi;
  if (f == L) { for (uint32_t c : s) { int b = rec(c).bidi; if (!(b == L || b == EN || b == ES || b == CS || b == ET || b == ON || b == BN || b == NSM)) return false; } return l == L || l == EN; }
  if (f != R && f != AL) return false; bool en = false, an = false;
  for (uint32_t c : s) { int b = rec(c).bidi; en |= b == EN; an |= b == AN; if (!(b == R || b == AL || b == AN || b == EN || b == ES || b == CS || b == ET || b == ON || b == BN || b == NSM)) return false; }
  return !(en && an) && (l == R || l == AL || l == EN || l == AN); }
inline bool label_valid(const U32& s) { return comb_ok(s) && joiners_ok(s) && bidi_ok(s); }
// --- ToASCII / ToUnicode
inline bool ascii(const U32& s) { for (uint32_t c : s) if (c >= 0x80) return false; return true; }
inline bool ascii(const std::string& s) { for (uint8_t c : s) if (c >= 0x80) return false; return true; }
inline std::string lower(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
inline std::optional<U32> ace_decode(const std::string& rest) { auto d = puny_decode(rest); if (!d || ascii(*d)) return {}; auto m = map(*d); if (!m || *m != *d || nfc(*m) != *d || !label_valid(*d)) return {}; return d; }
inline std::optional<std::string> to_ascii(const std::string& in) {
  if (in.size() > 16384) return {}; if (ascii(in)) return lower(in); auto u = utf8_decode(in); if (!u) return {}; auto m = map(*u); if (!m) return {}; U32 s = nfc(*m); std::string o; size_t p = 0;
  for (;;) { size_t q = s.find(U'.', p); U32 l = s.substr(p, q == U32::npos ? q : q - p);
    if (l.compare(0, 4, U"xn--") == 0) { if (!ascii(l)) return {}; std::string a(l.begin(), l.end()); if (!ace_decode(a.substr(4))) return {}; o += a; }
    else if (ascii(l)) o += std::string(l.begin(), l.end()); else { if (!label_valid(l)) return {}; auto e = puny_encode(l); if (!e) return {}; o += "xn--" + *e; }
    if (q == U32::npos) break; o += '.'; p = q + 1; }
  return o; }
inline std::optional<std::string> to_unicode(const std::string& in) { if (in.size() > 16384) return {}; std::string o; size_t p = 0;
  for (;;) { size_t q = in.find('.', p); std::string l = in.substr(p, q == std::string::npos ? q : q - p); std::optional<U32> d;
    if (l.compare(0, 4, "xn--") == 0 && ascii(l)) d = ace_decode(l.substr(4));
    o += d ? *utf8_encode(*d) : l; if (q == std::string::npos) break; o += '.'; p = q + 1; }
  return o; }
inline bool forbidden(uint8_t c) { return c <= 0x20 || c == 0x7f || c >= 0x80 || (c && strchr("#/:<>?@[\\]^|%", c)); }
}  // namespace ref
