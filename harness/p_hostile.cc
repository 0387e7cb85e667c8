// C22: hostile sequences of public calls on everything at once.
#if defined(__SANITIZE_ADDRESS__)
extern "C" unsigned long __sanitizer_get_current_allocated_bytes();
#endif

#include "world.h"

namespace mon {
const char* kTag = "hostile";
const char* kRule =
    "each case builds two objects of every class, refers them to each other at random, "
    "and makes up to 120 public calls: setters with sane, unset, null, extreme and not-a-number "
    "values, results and validation with invalid indexes and arguments, edits of referenced "
    "objects followed by giving them again, copies and self-assignment, edits of lines; "
    "non-trivial = a new sequence of calls with new results";
uint64_t FixedCases() { return 8; }
}  // namespace mon

#if defined(__SANITIZE_ADDRESS__)
static size_t Held() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t Held() { return 0; }
#endif

namespace {
struct Seen {
  std::map<std::string, uint64_t> calls;
  uint64_t hash;
  std::string log;
  bool slow;
};

/// Gives the number of steps made. The first run of a case ends early when it
/// has become slow (solvers that fail are run again by every result), so that
/// what the watchdog of a case sees is a call that doesn't end, and not a sum
/// of calls that do.
int Run(mon::Rng r, double hostile, int steps, Seen* seen) {
  const double start = world::Cpu();
  world::World* w = new world::World(r, hostile);
  int i = 0;
  for (; i < steps; i++) {
    w->Step();
    if (seen && 15 < world::Cpu() - start) {
      i++;
      break;
    }
  }
  if (seen) {
    seen->slow = 3 < world::Cpu() - start;
    seen->calls = w->calls;
    seen->hash = w->hash;
    seen->log = w->log;
  }
  delete w;
  return i;
}
}  // namespace

void mon::RunCase(Ctx& c) {
  Rng& r = c.rng;
  static const double kMoods[] = {0.01, 0.03, 0.1, 0.3};
  const double hostile = kMoods[r.i(0, 3)];
  Seen seen;
  const int planned = r.i(5, 120);
  const int steps = Run(r, hostile, planned, &seen);
  for (const auto& e : seen.calls) c.event(e.first.c_str(), e.second);
  c.distinct(seen.hash);
  if (c.want_sample()) c.sample(seen.log.substr(0, 300));
  c.check(true, "finished", "finished");
  // the same again: what was allocated must all be gone
  if (seen.slow) {
    c.event("slow_world");
  } else if (r.p(0.3)) {
    const size_t before = Held();
    Run(r, hostile, steps, nullptr);
    size_t after = Held();
    if (before != after) {
      // something allocated once for good is not a leak
      Run(r, hostile, steps, nullptr);
      const size_t again = Held();
      c.check(again == after, "leak", "%zu bytes are held after objects were destroyed, and %zu more each time", after - before,
              again - after);
    } else {
      c.check(true, "leak", "no bytes held");
    }
  }
}
