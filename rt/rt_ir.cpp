// Parts of the runtime that are executed symbolically.
#include <climits>
#include <cstdint>
#include <cstddef>
#include <memory>
#include <mutex>
#include <thread>
struct State { virtual ~State(); virtual void _M_run() = 0; };   // same virtual table layout as std::thread::_State
extern "C" {
int *__errno_location() noexcept;
void rt_thread_main(State *s) { std::unique_ptr<State> p(s); p->_M_run(); }
int __cxa_guard_acquire(uint64_t *); void __cxa_guard_release(uint64_t *); void __cxa_guard_abort(uint64_t *);
int rt_once(int *flag, void (*)()) {   // std::call_once: the callable is what the calling thread's std::__once_call runs
  if (__cxa_guard_acquire((uint64_t *)flag)) {
    try { std::__once_call(); } catch (...) { __cxa_guard_abort((uint64_t *)flag); throw; }
    __cxa_guard_release((uint64_t *)flag);
  }
  return 0;
}
size_t rt_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int rt_strcmp(const char *a, const char *b) {
  for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
void *rt_memchr(const void *p, int c, size_t n) {
  const unsigned char *s = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i);
  return nullptr;
}
static bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
long rt_strtol(const char *s, char **end, int base) {   // base 10 (or 0 without prefix)
  const char *p = s; while (space(*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  unsigned long v = 0; bool any = false, sat = false; unsigned long lim = neg ? (unsigned long)LONG_MAX + 1 : LONG_MAX;
  while (*p >= '0' && *p <= '9') { unsigned long d = *p - '0'; any = true; if (!sat) { if (v > (lim - d) / 10) sat = true; else v = v * 10 + d; } p++; }
  if (end) *end = (char *)(any ? p : s);
  if (sat) *__errno_location() = 34; // ERANGE
  if (sat) return neg ? LONG_MIN : LONG_MAX;
  return neg ? (long)(0 - v) : (long)v;
}
unsigned long rt_strtoul(const char *s, char **end, int base) {
  const char *p = s; while (space(*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  unsigned long v = 0; bool any = false, sat = false;
  while (*p >= '0' && *p <= '9') { unsigned long d = *p - '0'; any = true; if (!sat) { if (v > (ULONG_MAX - d) / 10) sat = true; else v = v * 10 + d; } p++; }
  if (end) *end = (char *)(any ? p : s);
  if (sat) *__errno_location() = 34;
  if (sat) return ULONG_MAX;
  return neg ? 0 - v : v;
}
long rt_atol(const char *s) { return rt_strtol(s, nullptr, 10); }
int rt_atoi(const char *s) { return (int)rt_strtol(s, nullptr, 10); }
}
