// Shared runtime-monitoring kit: seeded generator, violation log, event
// counters, crash breadcrumb and per-case watchdog. One driver process runs a
// contiguous range of numbered cases; case i is a function of (seed, tag, i)
// only, so every reported case replays on its own.
#ifndef VERIF_HARNESS_MON_H_
#define VERIF_HARNESS_MON_H_

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace mon {

class Rng {
 public:
  explicit Rng(uint64_t s) : s_(s) {}
  uint64_t next() {
    s_ += 0x9E3779B97F4A7C15ull;
    uint64_t z = s_;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u() { return static_cast<double>(next() >> 11) / 9007199254740992.0; }
  double uni(double a, double b) { return a + (b - a) * u(); }
  double logu(double a, double b) {
    return std::exp(uni(std::log(a), std::log(b)));
  }
  int i(int a, int b) {  // inclusive
    return a + static_cast<int>(next() % static_cast<uint64_t>(b - a + 1));
  }
  bool p(double q) { return u() < q; }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[next() % v.size()];
  }

 private:
  uint64_t s_;
};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}
inline uint64_t hashd(uint64_t h, double d) {
  uint64_t v;
  std::memcpy(&v, &d, 8);
  return mix(h, v);
}

class Ctx {
 public:
  Ctx() : rng(0), case_index(0), verbose(false), nviol(0) {}
  Rng rng;
  uint64_t case_index;
  bool verbose;

  // what the monitors observed
  void event(const char* name, uint64_t n = 1) { events_[name] += n; }
  // one distinct, non-trivial case (by the driver's rule)
  void distinct(uint64_t h) { distinct_.insert(h); }
  void sample(const std::string& s) {
    if (samples_.size() < 4) samples_.push_back(s);
  }
  bool want_sample() const { return samples_.size() < 4; }
  // free text that is attached to a violation of the running case
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void clear_note() { note_.clear(); }

  // monitor verdict: counts one evaluation of monitor `key`
  bool check(bool ok, const char* key, const char* fmt, ...)
      __attribute__((format(printf, 4, 5)));
  // |a-b| <= abs + rel*max(|a|,|b|), NaN fails
  bool near(double a, double b, double rel, double abs, const char* key,
            const char* what);

  void report(const char* key, const std::string& text);
  uint64_t nviol;
  std::map<std::string, uint64_t> events_;
  std::map<std::string, uint64_t> checks_;
  std::unordered_set<uint64_t> distinct_;
  std::vector<std::string> samples_;
  std::string note_;
  std::map<std::string, int> per_key_;
  std::vector<std::string> lines_;
};

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// provided by each property driver
extern const char* kTag;    // stable name mixed into the case seed
extern const char* kRule;   // how cases are made, what counts as non-trivial
void RunCase(Ctx& c);       // runs case c.case_index with c.rng seeded
uint64_t FixedCases();      // number of leading deterministic (listed) cases

}  // namespace mon

#endif  // VERIF_HARNESS_MON_H_
