// C18: the real functions on every code point against oracle.hpp over two data
// files (the recorded shipped data, Unicode 17): an observation must agree with
// one of them.  "data label CP,CP,.." prints what is_label_valid says.
#include IDNA_CPP
#include <memory>
#include "oracle.hpp"
using ref::U32; namespace ai = ada::idna;
static std::string show(const U32& u) { std::string o = "["; char b[16]; for (uint32_t c : u) { snprintf(b, 16, o.size() > 1 ? " %X" : "%X", c); o += b; } return o + "]"; }
static std::string sh(const std::optional<U32>& u) { return u ? show(*u) : "failure"; }
static size_t n = 0;
template <class F> static void chk(const char* what, const U32& in, const std::string& got, F expect, ref::Data& a, ref::Data& b) {
  n++; if (got == expect()) return; std::swap(ref::D, b); std::string w = expect(); std::swap(ref::D, b); if (got == w) return;
  printf("WITNESS %s of %s is %s, Unicode 17 gives %s\n", what, show(in).c_str(), got.c_str(), w.c_str()); exit(1); }
int main(int argc, char** argv) {
  if (argc > 2 && std::string(argv[1]) == "label") { U32 u; std::istringstream s(argv[2]); std::string t; while (std::getline(s, t, ',')) u.push_back(std::stoul(t, 0, 16)); printf("VALID %d\n", ai::is_label_valid(u)); return 0; }
  static ref::Data u17; if (argc < 3 || !ref::D.load(argv[1]) || !u17.load(argv[2])) return 2;
  ref::Data& s = ref::D; auto yes = [](bool b) { return std::string(b ? "true" : "false"); };
  for (uint32_t c = 0; c < 0x110000; c++) {
    if (c >= 0xd800 && c < 0xe000) { for (bool f : {true, false}) if (ai::valid_name_code_point(c, f)) { printf("WITNESS valid_name_code_point accepts the surrogate %X\n", c); return 1; } continue; }
    U32 one(1, c), o; 
    { std::optional<U32> r; o.clear(); if (ai::map(one, o)) r = o; chk("mapping", one, sh(r), [&] { return sh(ref::map(one)); }, s, u17); }
    { o = one; std::string g = ai::normalize(o) ? show(o) : "failure"; chk("NFC", one, g, [&] { return show(ref::nfc(one)); }, s, u17); }
    { bool in = s.nfd.count(c), un = u17.nfd.count(c); if (in || un) { U32 d = ref::nfd(one); if (d == one) { ref::Data& q = u17; d = q.nfd[c]; } o = d; std::string g = ai::normalize(o) ? show(o) : "failure"; chk("NFC", d, g, [&] { return show(ref::nfc(d)); }, s, u17);
        if (d.size() > 1) { U32 e = d; std::string h; if (!s.r[c].notnfc) { e = one; chk("is_already_nfc", e, yes(ai::is_already_nfc(e)), [&] { return yes(ref::nfc(e) == e); }, s, u17); } chk("is_already_nfc", d, yes(ai::is_already_nfc(d)), [&] { return yes(ref::nfc(d) == d); }, s, u17); } } }
    for (bool f : {true, false}) chk(f ? "identifier start" : "identifier part", one, yes(ai::valid_name_code_point(c, f)), [&] { return yes(f ? ref::rec(c).ids : ref::rec(c).idc); }, s, u17);
    if (u17.r[c].status == 'V') for (const U32& l : {one, U32{'a', c}, U32{0x5d0, c}, U32{c, 0x5d0}, U32{0x5d0, c, 0x5d0}, U32{c, '1'}, U32{c, 0x661}, U32{'a', c, 'a'}, U32{'a', c, 0x200d}, U32{0x5d0, c, 0x200d}, U32{c, 0x200c, 0x628}, U32{0x628, 0x200c, c}, U32{0xa872, 0x200c, c}})
      chk("validity", l, yes(ai::is_label_valid(l)), [&] { return yes(ref::label_valid(l)); }, s, u17);
    if (s.r[c].ccc || u17.r[c].ccc) for (uint32_t m : {0x334u, 0x16ff0u, 0x93cu, 0x3099u, 0x94du, 0x5b0u, 0x323u, 0x302au, 0x301u, 0x345u, 0x64bu, 0xe38u, 0xf71u, 0x327u, 0x31bu, 0x315u, 0x35cu, 0x35du}) for (const U32& l : {U32{0xe000, c, m}, U32{0xe000, m, c}}) { o = l; std::string g = ai::normalize(o) ? show(o) : "failure"; chk("NFC", l, g, [&] { return show(ref::nfc(l)); }, s, u17); }
#ifdef WITH_INTERNALS
    chk("combining class", one, std::to_string(int(ai::get_ccc(c))), [&] { return std::to_string(int(ref::rec(c).ccc)); }, s, u17);
    if (u17.r[c].status == 'V') chk("Bidi class", one, std::to_string(int(ai::find_direction(c))), [&] { return std::to_string(int(ref::rec(c).bidi)); }, s, u17);
#endif
  }
  printf("CHECKED %zu\n", n); return 0; }
