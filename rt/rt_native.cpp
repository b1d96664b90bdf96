// Native implementation of the harness interface: replays recorded input values against the real, compiled code.
#include "sym.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <mutex>
#include <sstream>
#include <thread>
#include <unistd.h>
#include <vector>
static std::mutex mx;
static std::map<std::pair<std::string, int>, uint64_t> &vals() { static std::map<std::pair<std::string, int>, uint64_t> v = [] {
    std::map<std::pair<std::string, int>, uint64_t> m;
    if (const char *f = getenv("SYM_REPLAY")) { std::ifstream in(f); std::string l; while (std::getline(in, l)) { std::istringstream s(l); std::string k, n; int o; uint64_t x; if (s >> k && k == "input" && s >> n >> o >> x) m[{ n, o }] = x; } }
    return m; }(); return v; }
static uint64_t get(const char *n, uint64_t d) {
  std::lock_guard<std::mutex> g(mx); static std::map<std::string, int> occ; int o = occ[n]++;
  auto it = vals().find({ n, o }); return it == vals().end() ? d : it->second;
}
extern "C" {
uint64_t sym_u64(const char *n) { return get(n, 0); }
uint32_t sym_u32(const char *n) { return (uint32_t)get(n, 0); }
uint8_t sym_u8(const char *n) { return (uint8_t)get(n, 0); }
uint64_t sym_range(const char *n, uint64_t lo, uint64_t hi) { uint64_t v = get(n, lo); return v < lo || v > hi ? lo : v; }
bool sym_bool(const char *n) { return get(n, 0) & 1; }
uint64_t sym_choice(const char *n, uint64_t k) { if (k <= 1) return 0; uint64_t v = get(n, 0); return v >= k ? 0 : v; }
void sym_assume(bool c) { if (!c) _exit(0); }
void sym_assert(bool c, const char *m) { if (!c) { fprintf(stderr, "SYM-VIOLATION assert: %s\n", m); fflush(stderr); _exit(42); } }
void sym_fail(const char *m) { sym_assert(false, m); }
void sym_cover(const char *) {}
bool sym_engine(void) { return false; }
int sym_tier(void) { return getenv("SYM_TIER") ? atoi(getenv("SYM_TIER")) : 0; }
int sym_tid(void) { return 0; }
void sym_config(const char *, uint64_t) {}
void sym_idle(uint64_t n) { std::this_thread::sleep_for(std::chrono::milliseconds(200 + 50 * (n > 20 ? 20 : n))); }
uint64_t sym_concretize(uint64_t v) { return v; }
static std::ostringstream &oss() { static std::ostringstream o; return o; }
struct It { bool num; std::string t; uint64_t v; };
static std::vector<It> items() {
  std::vector<It> r; std::string s = oss().str();
  for (size_t i = 0; i < s.size();) {
    bool d = isdigit((unsigned char)s[i]); size_t j = i; while (j < s.size() && (bool)isdigit((unsigned char)s[j]) == d) j++;
    std::string t = s.substr(i, j - i); r.push_back({ d, d ? "" : t, d ? strtoull(t.c_str(), nullptr, 10) : 0 }); i = j;
  }
  return r;
}
std::ostream *sym_ostream_(void) { return &oss(); }
size_t sym_out_count(void) { return items().size(); }
bool sym_out_isnum(size_t i) { return items().at(i).num; }
uint64_t sym_out_num(size_t i) { return items().at(i).v; }
const char *sym_out_text(size_t i) { std::string s = items().at(i).t; for (char &c : s) if (!c) c = 3; return strdup(s.c_str()); } // a NUL is shown as \3
const char *sym_host_file(const char *path) { std::ifstream f(path); if (!f) return nullptr; std::ostringstream o; o << f.rdbuf(); return strdup(o.str().c_str()); }
void sym_out_clear(void) { oss().str(""); }
void sym_print(const char *s, uint64_t v) { fprintf(stderr, "[harness] %s %llu\n", s, (unsigned long long)v); }
uint64_t sym_clock(void) { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
int sym_alive(void) { return 0; }
void sym_faults(uint64_t, uint64_t) {}
}
