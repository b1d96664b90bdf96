// Harness interface. Under the symbolic executor these calls are interpreted; the native replay library
// (rt_native.cpp) implements them over recorded values.
#pragma once
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <ostream>
#include <string>
extern "C" {
uint64_t sym_u64(const char *name);                                   // any 64-bit value
uint32_t sym_u32(const char *name);
uint8_t sym_u8(const char *name);                                     // any byte
uint64_t sym_range(const char *name, uint64_t lo, uint64_t hi);       // any value in [lo, hi]
bool sym_bool(const char *name);
uint64_t sym_choice(const char *name, uint64_t n);                    // any value in [0, n), one path per value
void sym_assume(bool c);
void sym_assert(bool c, const char *msg);
void sym_fail(const char *msg);
void sym_cover(const char *id);                                       // reachability witness
bool sym_engine(void);
int sym_tier(void);                                                   // 0 quick, 1 thorough
int sym_tid(void);
void sym_config(const char *key, uint64_t v);
void sym_idle(uint64_t advances);                                     // waits until all other threads are blocked (after letting time pass that often)
uint64_t sym_concretize(uint64_t v);
std::ostream *sym_ostream_(void);
size_t sym_out_count(void);
bool sym_out_isnum(size_t i);
uint64_t sym_out_num(size_t i);
const char *sym_out_text(size_t i);
void sym_out_clear(void);
const char *sym_host_file(const char *path);                          // the contents of a file of the repository, null if there is none
void sym_print(const char *s, uint64_t v);
uint64_t sym_clock(void);
int sym_alive(void);
void sym_faults(uint64_t threads, uint64_t allocations);             // how many thread creations and allocations may fail from now on
}
inline std::ostream &sym_ostream() { return *sym_ostream_(); }
// A cell harness code may share between threads: no ordering, no scheduling point.
struct SymCell {
  std::atomic<long> v{ 0 };
  long get() const { return v.load(std::memory_order_relaxed); }
  void set(long x) { v.store(x, std::memory_order_relaxed); }
  long inc() { return v.fetch_add(1, std::memory_order_relaxed); }
  long dec() { return v.fetch_sub(1, std::memory_order_relaxed); }
};
#define CHECK(c, msg) sym_assert((c), msg)
