// Monitoring framework shared by all drivers.
//
// A driver is a set of "sections".  A section is a workload generator plus the
// oracle that judges what the real library did.  Every case is a function of
// (seed, section, case index) only, so a case can be replayed on its own.
#ifndef VERIF_FW_H
#define VERIF_FW_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "spffl/base/spffl_exception.h"

typedef uint64_t u64;
typedef int64_t i64;
typedef unsigned __int128 u128;
typedef __int128 i128;

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 0) : s(seed) {}
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
  bool chance(int num, int den) { return (int)below(den) < num; }
  bool coin() { return next() & 1; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

struct Ctx {
  Rng rng;
  const char *section;
  u64 idx;
  bool thorough;
  bool leakmode;   // keep the harness' own allocations out of the measured window
  Ctx() : section(""), idx(0), thorough(false), leakmode(false) {}
  void event(const char *name, u64 n = 1);     // an observation judged by the oracle
  void input(u64 hash, bool nontrivial = true); // registers the case's input
  void input(const std::string &s, bool nontrivial = true);
  void sample(const std::string &s);           // kept for the first few cases only
  bool want_sample() const;
  void fail(const std::string &key, const std::string &detail);
};

typedef void (*SectionFn)(Ctx &);
struct SectionReg {
  SectionReg(const char *name, SectionFn fn);
};
#define SECTION(name)                                                          \
  static void sec_##name(Ctx &c);                                              \
  static SectionReg reg_##name(#name, sec_##name);                             \
  static void sec_##name(Ctx &c)

// Judge one observation.  `detail` is a stream expression, only evaluated on failure.
#define CHECK(cond, key, detail)                                               \
  do {                                                                         \
    c.event(key);                                                              \
    if (!(cond)) {                                                             \
      std::ostringstream oss_;                                                 \
      oss_ << detail;                                                          \
      c.fail(key, oss_.str());                                                 \
    }                                                                          \
  } while (0)

// The statement must end in a library error.
#define REFUSED(stmt, key, detail)                                             \
  do {                                                                         \
    c.event(key);                                                              \
    bool refused_ = false;                                                     \
    try {                                                                      \
      stmt;                                                                    \
    } catch (const spffl::exception_t &) {                                     \
      refused_ = true;                                                         \
    }                                                                          \
    if (!refused_) {                                                           \
      std::ostringstream oss_;                                                 \
      oss_ << "accepted instead of refused: " << detail;                       \
      c.fail(key, oss_.str());                                                 \
    }                                                                          \
  } while (0)

inline u64 hash_str(const std::string &s) {
  u64 h = 1469598103934665603ULL;
  for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ULL; }
  return h;
}
template <class T> std::string str(const T &t) {
  std::ostringstream o;
  o << t;
  return o.str();
}
std::string fw_quote(const std::string &s);
#endif
