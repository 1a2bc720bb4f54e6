// C16 witness search on the real code: races of first calls (built with
// -fsanitize=thread), failing allocation, corrupted table stream (ASan build).
// usage: init races N | alloc | corrupt FROM STEP SECONDS | layout
#include <atomic>
#include <cstdlib>
#include <new>
static std::atomic<bool> deny{false};
#ifndef WITH_TSAN
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return deny ? nullptr : std::malloc(n); }
void* operator new[](std::size_t n) { void* p = std::malloc(n); if (!p) abort(); return p; }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#endif
#include IDNA_CPP
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#include <zlib.h>
namespace ai = ada::idna;
static void bad(const std::string& s) { printf("WITNESS %s\n", s.c_str()); fflush(stdout); _exit(1); }
// what the public functions answer on inputs that need the tables; '1' success with the right result, '0' failure, 'x' anything else
static std::string answers() {
  std::string r; std::u32string o; bool b = ai::map(U"\u00C4", o); r += b ? (o == U"\u00E4" ? '1' : 'x') : '0';
  std::u32string n = U"a\u0308"; b = ai::normalize(n); r += b ? (n == U"\u00E4" ? '1' : 'x') : '0';
  r += ai::is_already_nfc(U"\u00E4") ? '1' : '0'; r += ai::is_label_valid(U"\u00E4") ? '1' : '0'; r += ai::valid_name_code_point(0xE4, true) ? '1' : '0';
  std::string a; b = ai::to_ascii("f\xc3\xa4", a); r += b ? (a == "xn--f-0fa" ? '1' : 'x') : (a.empty() ? '0' : 'x');
  std::string u; b = ai::to_unicode("xn--f-0fa", u); r += u == "f\xc3\xa4" ? '1' : u.empty() || u == "xn--f-0fa" ? '0' : 'x';
  return r;
}
static bool all(const std::string& s, char c) { return s.find_first_not_of(c) == std::string::npos; }
static int in_child(int (*f)(long), long arg) { fflush(stdout); pid_t p = fork(); if (!p) _exit(f(arg)); int st = 0; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 200 + WTERMSIG(st); }
static int race(long) {
  std::atomic<int> gate{0}; const int N = 8; std::vector<std::thread> t; std::string got[N];
  for (int i = 0; i < N; i++) t.emplace_back([&, i] { gate++; while (gate < N) {} got[i] = answers(); });
  for (auto& x : t) x.join();
  for (auto& g : got) if (!all(g, '1')) bad("concurrent first calls: one thread got answers " + g + " (map, normalize, is_already_nfc, is_label_valid, valid_name_code_point, to_ascii, to_unicode)");
  return 0;
}
static int alloc(long) {
  deny = true; std::string a = answers();
  if (!all(a, '0')) bad("allocation of the table buffer fails, but the public functions answer " + a);
  deny = false; a = answers();
  if (!all(a, '0')) bad("after a failed initialization (allocation), a later call answers " + a + " instead of reporting the failure");
  return 0;
}
#ifdef WITH_INTERNALS
static std::string image() { std::string o(ai::table_blob::uncompressed_size, 0); z_stream z{}; inflateInit2(&z, -15); z.next_in = (Bytef*)ai::table_blob::compressed; z.avail_in = ai::table_blob::compressed_size; z.next_out = (Bytef*)o.data(); z.avail_out = o.size(); inflate(&z, Z_FINISH); o.resize(z.total_out); inflateEnd(&z); return o; }
static uint8_t mask;
static int corrupt(long pos) {
  std::string good = image(); auto* c = const_cast<uint8_t*>(ai::table_blob::compressed) + pos; long pg = sysconf(_SC_PAGESIZE); auto* b = (char*)((uintptr_t)c / pg * pg);
  if (mprotect(b, 2 * pg, PROT_READ | PROT_WRITE)) return 3;
  *(volatile uint8_t*)c ^= mask; std::string now = image(); std::string a = answers();
  if (now == good) { if (!all(a, '1')) return 0; return 0; }
  if (!all(a, '0')) bad("byte " + std::to_string(pos) + " of the compressed tables xor " + std::to_string(mask) + ": the public functions answer " + a + " instead of reporting failure");
  std::string a2 = answers(); if (!all(a2, '0')) bad("after a failed initialization a later call answers " + a2);
  return 0;
}
static int layout(long) {
  if (!ai::ensure_tables()) bad("ensure_tables fails on the shipped data");
  std::string g = image(); namespace tb = ai::table_blob;
#define SEC(ptr, sec) if (memcmp((const void*)ai::ptr, g.data() + tb::off_##sec, tb::count_##sec * sizeof(*ai::ptr))) bad("table pointer " #ptr " does not designate section " #sec);
  SEC(idna_stage1, idna_stage1) SEC(idna_stage2, idna_stage2) SEC(idna_bool_blocks, idna_bool_blocks) SEC(idna_utf8_mappings, idna_utf8_mappings)
  SEC(decomposition_index, decomposition_index) SEC(decomposition_block_flat, decomposition_block) SEC(decomposition_data, decomposition_data) SEC(ccc_index, ccc_index) SEC(ccc_block_flat, ccc_block)
  SEC(composition_index, composition_index) SEC(composition_block_flat, composition_block) SEC(composition_data, composition_data) SEC(dir_start, dir_start) SEC(dir_final, dir_final) SEC(dir_value, dir_value)
#undef SEC
#define SEC(ptr, sec) if (memcmp((const void*)ai::ptr, g.data() + tb::off_##sec, tb::count_##sec * 4)) bad("table pointer " #ptr " does not designate section " #sec);
  SEC(id_start, id_start_flat) SEC(id_continue, id_continue_flat) SEC(combining_ranges, combining_flat)
  for (size_t n = 0; n < 600; n++) { uint32_t e = crc32(0, (const Bytef*)g.data() + n * 7, n); if (ai::crc32_ieee((const uint8_t*)g.data() + n * 7, n) != e) bad("crc32_ieee over " + std::to_string(n) + " bytes differs from CRC-32"); }
  return 0;
}
#endif
int main(int argc, char** argv) {
  std::string m = argv[1]; long n = argc > 2 ? atol(argv[2]) : 0; int rc = 0;
  if (m == "races") { for (long i = 0; i < n && !rc; i++) { rc = in_child(race, i); if (rc && rc != 1) printf("WITNESS concurrent first calls by 8 threads (run %ld): the child exits with %d (66: data race reported by ThreadSanitizer)\n", i, rc); } }
  else if (m == "alloc") { rc = in_child(alloc, 0); if (rc && rc != 1) printf("WITNESS allocation of the table buffer fails: crash, exit %d\n", rc); }
#ifdef WITH_INTERNALS
  else if (m == "layout") { rc = in_child(layout, 0); if (rc && rc != 1) printf("WITNESS initialization crashes, exit %d\n", rc); }
  else if (m == "corrupt") { long step = atol(argv[3]); double secs = atof(argv[4]); auto t0 = std::chrono::steady_clock::now(); long k = 0;
    for (long p = n; p < (long)ai::table_blob::compressed_size && !rc; p += step) { mask = 1u << ((p * 7 + p / 8) & 7); k++; rc = in_child(corrupt, p); if (rc == 3) { rc = 0; break; } if (rc && rc != 1) printf("WITNESS byte %ld of the compressed tables xor %d: crash, exit %d\n", p, mask, rc); if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break; }
    printf("CASES %ld\n", k); }
#endif
  return rc ? 1 : 0;
}
