// Replay/bounded-check harness support.  Every section runs in its own process; the current case is kept in shared
// memory so that an assertion failure, a memory error or a hang is reported with the input that caused it.
#ifndef ZH_H
#define ZH_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <functional>
namespace zh {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { u(); u(); }
  uint64_t u() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  int i(int n) { return n <= 0 ? 0 : (int)((u() >> 33) % (uint64_t)n); }      // [0,n)
  int in(int a, int b) { return a + i(b - a + 1); }                           // [a,b]
  double d() { return (double)(u() >> 11) / 9007199254740992.0; }             // [0,1)
  double r(double a, double b) { return a + (b - a) * d(); }
  bool p(double q) { return d() < q; }
};
struct Ctx {
  Rng g; bool thorough; std::string dir, data; uint64_t seed;
  long cases; int fails; const char *sec;
  void cur(const char *f, ...) __attribute__((format(printf, 2, 3)));
  void fail(const char *f, ...) __attribute__((format(printf, 2, 3)));
  int n(int quick, int deep) { return thorough ? deep : 3 * quick; }
};
typedef void (*Fn)(Ctx &);
struct Reg { Reg(const char *n, Fn f, const char *covers); };
inline bool close(double a, double b, double tol = 1e-7) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b));
}
std::string strf(const char *f, ...) __attribute__((format(printf, 1, 2)));
// run f in a child; 0..255: its exit code, -1: killed by a signal, 200: f returned normally
int child(const std::function<void()> &f, int secs = 10);
// stand-in for rand(): when a queue is set, rand() takes its values from it (harnesses that define ZH_OWN_RAND)
}
#define SECTION(name, covers) static void name(zh::Ctx &c); static zh::Reg reg_##name(#name, name, covers); static void name(zh::Ctx &c)
#endif
