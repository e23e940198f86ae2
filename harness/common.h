// Shared helpers of the monitoring harness: deterministic random numbers,
// event accounting, violation reporting, crash/hang attribution.
#pragma once
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

using std::map;
using std::set;
using std::string;
using std::vector;
typedef int64_t i64;
typedef uint64_t u64;
typedef uint8_t u8;
typedef vector<u8> Bytes;

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {
    next();
    next();
  }
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [0, n)
  u64 below(u64 n) { return n ? next() % n : 0; }
  // uniform in [a, b]
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a) + 1); }
  bool chance(int percent) { return (int)below(100) < percent; }
  template <class T>
  const T& pick(const vector<T>& v) {
    return v[below(v.size())];
  }
};

inline u64 mix(u64 a, u64 b) {
  Rng r(a * 1000003ull + b);
  return r.next() ^ (b << 1);
}

inline u64 fnv(const void* p, size_t n, u64 h = 1469598103934665603ull) {
  const u8* b = (const u8*)p;
  for (size_t i = 0; i < n; i++) {
    h ^= b[i];
    h *= 1099511628211ull;
  }
  return h;
}
inline u64 fnvs(const string& s, u64 h = 1469598103934665603ull) {
  return fnv(s.data(), s.size(), h);
}

inline string fmt(const char* f, ...) {
  char buf[4096];
  va_list a;
  va_start(a, f);
  vsnprintf(buf, sizeof buf, f, a);
  va_end(a);
  return buf;
}

inline string hex(const Bytes& b, size_t lim = 4096) {
  string s;
  for (size_t i = 0; i < b.size() && i < lim; i++) s += fmt("%02x", b[i]);
  if (b.size() > lim) s += fmt("...(%zu bytes)", b.size());
  return s;
}

// ---- run context ---------------------------------------------------------
struct Ctx {
  string prop;
  string tier = "quick";
  u64 seed = 1;
  u64 index = 0;  // the case being run
  string scratch;  // writable scratch directory
  map<string, u64> ev;        // event counters
  set<u64> distinct;          // digests of distinct non-trivial observations
  vector<string> samples;     // a few sample observations
  u64 evals = 0;              // oracle evaluations
  int violations = 0;
  bool verbose = false;
  void count(const string& k, u64 n = 1) { ev[k] += n; }
  void seen(u64 d) {
    if (distinct.size() < 400000) distinct.insert(d);
  }
  void sample(const string& s) {
    if (samples.size() < 4) samples.push_back(s.substr(0, 300));
  }
};

extern Ctx* g;

// A violation: `key` names what failed without run specific numbers (known
// findings are matched on it), `detail` explains it.
void violation(const string& key, const string& detail);

#define CHECK_(cond, key, ...)                 \
  do {                                         \
    g->evals++;                                \
    if (!(cond)) violation(key, fmt(__VA_ARGS__)); \
  } while (0)

typedef void (*CaseFn)(Rng& r);
struct Module {
  const char* name;
  CaseFn fn;
  const char* rule;  // when is an observation counted as non-trivial
};
vector<Module>& modules();
struct Reg {
  Reg(const char* n, CaseFn f, const char* rule) {
    modules().push_back({n, f, rule});
  }
};
#define MODULE(name, rule)                 \
  static void case_##name(Rng& r);         \
  static Reg reg_##name(#name, case_##name, rule); \
  static void case_##name(Rng& r)
