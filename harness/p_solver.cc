// C02: CatenarySolver against extended-precision statics, over histories of
// one solver object.
#include "ref.h"

#include "models/transmissionline/catenary_solver.h"

using gen::ld;
using mon::Ctx;
using mon::Rng;
using mon::fmt;
typedef CatenarySolver::TargetType TT;

namespace mon {
const char* kTag = "solver";
const char* kRule =
    "each case drives one CatenarySolver through 1-5 problems (any subset of "
    "spacing, weight, target type, position and value changed in any order, "
    "results read in between; reachable, unreachable and invalid targets) and "
    "judges the returned catenary, or the reported failure, with "
    "extended-precision statics; non-trivial = a new problem tuple";
uint64_t FixedCases() { return 20; }
}  // namespace mon

struct Problem {
  double a, b, wy, wz, pos, value;
  TT type;
};

static ld F(const Problem& p, ld H) {
  const ref::Cat3 e(p.a, p.b, p.wy, p.wz, H, 1);
  switch (p.type) {
    case TT::kConstant: return e.p.c;
    case TT::kLength: return e.p.L;
    case TT::kSag:
      return e.p.Sag(p.pos == -1 ? e.p.FractionOfSlope(e.p.b / e.p.a) : (ld)p.pos);
    case TT::kTension: return p.pos == -1 ? e.p.MaxT() : e.p.T(p.pos);
    default: return 0;
  }
}

static void Judge(Ctx& c, const CatenarySolver& s, const Problem& p) {
  Rng& r = c.rng;
  const ld w = std::hypot((ld)p.wy, (ld)p.wz);
  const ld Hmin = std::hypot((ld)p.a, (ld)p.b) / 2 * w;
  bool inputs = p.a > 0 && p.wz > 0 && p.wy >= 0 && p.value > 0 &&
                (p.pos == -1 || (p.pos >= 0 && p.pos <= 1)) && p.type != TT::kNull;
  const int first = r.i(0, 2);
  double H = 0;
  bool valid = false;
  Catenary3d k;
  std::list<ErrorMessage> msg;
  for (int i = 0; i < 3; i++) {
    switch ((first + i) % 3) {
      case 0: H = s.TensionHorizontal(); break;
      case 1: valid = s.Validate(r.p(0.5), &msg); break;
      case 2: k = s.Catenary(); break;
    }
  }
  c.check(valid == msg.empty(), "message", "valid=%d messages=%d", valid, (int)msg.size());
  if (!inputs) {
    c.check(!valid, "invalid-accepted", "invalid inputs were accepted");
    c.event("invalid_inputs");
    return;
  }
  if (!valid) {
    c.check(H == -999999, "failure-value",
            "the solver is invalid but returns the tension %.17g", H);
    c.check(s.TensionHorizontal() == -999999, "failure-value",
            "the solver is invalid but returns a tension on the second read");
    c.check(s.Catenary().tension_horizontal() == Catenary3d().tension_horizontal(),
            "failure-value", "the solver is invalid but returns a catenary");
    // is there a solution it should have found?
    bool reachable = false;
    const ld m = 1e-6L;
    if (p.type == TT::kConstant) {
      reachable = p.value > Hmin / w * (1 + m);
    } else if (p.type == TT::kLength) {
      // above the chord by more than the solver's resolution of the tension
      reachable = F(p, Hmin * (1 + m)) > p.value && p.value > F(p, Hmin * 2000);
    } else if (p.type == TT::kSag) {
      reachable = F(p, Hmin * (1 + m)) > p.value && p.value > F(p, Hmin * 2000);
    } else {
      reachable = F(p, Hmin * (1 + m)) < p.value && p.value < F(p, Hmin * 2000);
      if (p.value - Hmin < 0.05) reachable = false;
    }
    if (Hmin < 1) reachable = false;
    if (p.type == TT::kSag && p.value < 1e-7 * p.a) reachable = false;
    // beyond double precision the sag or the slack does not determine the
    // tension to the solver's resolution
    const ld w = std::hypot((ld)p.wy, (ld)p.wz), chord = std::hypot((ld)p.a, (ld)p.b);
    if (p.type == TT::kSag) {
      const ld tt = p.pos == -1 ? 0.5L : (ld)p.pos;
      const ld Hs = w * chord * chord * tt * (1 - tt) / 2 / p.value;
      if (2e-15L * (Hs / w + chord) * Hs / p.value > 0.002L) reachable = false;
    } else if (p.type == TT::kLength) {
      const ld slack = p.value - chord;
      const ld Hs = slack > 0 ? w * chord * std::sqrt(chord / 24 / slack) : 0;
      if (slack <= 0 || 1e-15L * (chord + Hs / w * std::fabs((ld)p.b / p.a)) * Hs / slack > 0.002L) reachable = false;
    }
    c.check(!reachable, p.type == TT::kSag ? "no-solution-sag" :
            p.type == TT::kTension ? "no-solution-tension" :
            p.type == TT::kLength ? "no-solution-length" : "no-solution-constant",
            "the target is reachable (minimum tension %.10Lg) but the solver "
            "reports failure", Hmin);
    c.event("unreachable_target");
    return;
  }
  c.event(p.type == TT::kConstant ? "solved_constant" : p.type == TT::kLength ? "solved_length" :
          p.type == TT::kSag ? "solved_sag" : "solved_tension");
  c.check(H > 0 && std::isfinite(H), "result", "tension %.17g", H);
  c.check(k.tension_horizontal() == H, "result", "catenary tension %.17g, solver tension %.17g",
          k.tension_horizontal(), H);
  const Vector3d sp = k.spacing_endpoints(), wt = k.weight_unit();
  c.check(sp.x() == p.a && sp.y() == 0 && sp.z() == p.b, "geometry",
          "the catenary does not have the requested spacing");
  c.check(wt.x() == 0 && wt.y() == p.wy && wt.z() == p.wz, "geometry",
          "the catenary does not have the requested weight");
  c.check(k.Validate(false, nullptr), "result", "the returned catenary is invalid");
  c.check(H >= Hmin * (1 - 1e-12L), "result", "tension %.17g below the minimum %.17Lg", H, Hmin);
  if (!(H > 0)) return;
  // a solution within the 0.01 tension resolution of the solver
  const ld dH = 0.02L + 1e-9L * H;
  const ld f0 = F(p, H), f1 = F(p, H - dH), f2 = F(p, H + dH);
  const ld lo = std::min(f0, std::min(f1, f2)), hi = std::max(f0, std::max(f1, f2));
  const ld slack = 1e-12L * std::fabs(p.value) + 1e-15L * H / w;
  c.check(p.value >= lo - slack && p.value <= hi + slack,
          p.type == TT::kConstant ? "target-constant" : p.type == TT::kLength ? "target-length" :
          p.type == TT::kSag ? "target-sag" : "target-tension",
          "target %.15g, the catenary gives %.15Lg (%.15Lg .. %.15Lg within the "
          "tension tolerance)", p.value, f0, lo, hi);
  if (p.type == TT::kConstant) c.near(k.Constant(), p.value, 1e-12, 0, "target-constant", "constant");
}

void mon::RunCase(Ctx& c) {
  Rng& r = c.rng;
  CatenarySolver s;
  Problem p = {}, last = {};
  const int rounds = r.i(1, 5);
  for (int round = 0; round < rounds; round++) {
    const bool all = round == 0;
    int change = r.i(1, 31);
    if (all) change = 31;
    if (change & 1) {
      p.a = r.logu(50, 4000);
      p.b = r.p(0.3) ? 0 : p.a * r.uni(-0.5, 0.5);
      if (r.p(0.05)) {
        p.b = std::max(-1999.0, std::min(1999.0, p.a * r.uni(-3, 3)));
        c.event("steep_spacing");
      }
    }
    if (change & 2) {
      p.wz = r.logu(0.2, 6);
      p.wy = r.p(0.4) ? 0 : p.wz * r.logu(1e-2, 3);
    }
    if (change & 4) {
      static const TT t[] = {TT::kConstant, TT::kLength, TT::kSag, TT::kTension};
      p.type = t[r.i(0, 3)];
    }
    if (change & 8) p.pos = r.p(0.4) ? -1 : r.p(0.2) ? r.i(0, 1) : r.u();
    if (r.p(0.03)) p.type = TT::kNull;
    if (change & 16 || r.p(0.8)) {
      const ld w = std::hypot((ld)p.wy, (ld)p.wz);
      const ld Hmin = std::hypot((ld)p.a, (ld)p.b) / 2 * w;
      const ld H = Hmin * (r.p(0.1) ? r.logu(0.3, 1) : r.logu(1.0, 200));
      p.value = F(p, H);
      if (r.p(0.04)) p.value *= r.logu(1e-3, 1e3);
      if (r.p(0.03)) p.value = r.p(0.5) ? 0 : -p.value;
      if (r.p(0.1)) p.value = std::floor(p.value * 10) / 10;
      if (p.type == TT::kLength && r.p(0.05)) {
        // no cable is shorter than the chord, but it can be longer than the
        // horizontal distance
        p.value = p.a + r.u() * (std::hypot(p.a, p.b) - p.a);
        c.event("length_below_chord");
      }
    }
    if (!all && r.p(0.3)) {
      p = last;
      switch (r.i(0, 5)) {
        case 0: p.a = std::fabs(gen::Nudge(r, p.a)); break;
        case 1: p.b = std::max(-1999.0, std::min(1999.0, gen::Nudge(r, p.b))); break;
        case 2: p.wy = std::fabs(gen::Nudge(r, p.wy)); break;
        case 3: p.wz = std::fabs(gen::Nudge(r, p.wz)); break;
        case 4: if (p.pos != -1) p.pos = std::min(1.0, std::fabs(p.pos + r.uni(-0.01, 0.01))); break;
        default: p.value = gen::Nudge(r, p.value);
      }
      c.event("small_changes");
    }
    last = p;
    if (r.p(0.02)) p.pos = r.p(0.5) ? 1.5 : -0.5;
    int order[5] = {0, 1, 2, 3, 4};
    for (int i = 4; i > 0; i--) std::swap(order[i], order[r.i(0, i)]);
    for (int i : order) {
      switch (i) {
        case 0: s.set_spacing_endpoints(Vector3d(p.a, 0, p.b)); break;
        case 1: s.set_weight_unit(Vector3d(0, p.wy, p.wz)); break;
        case 2: s.set_type_target(p.type); break;
        case 3: s.set_position_target(p.pos); break;
        default: s.set_value_target(p.value); break;
      }
      if (r.p(0.15)) {
        c.event("reads_between_setters");
        switch (r.i(0, 2)) {
          case 0: s.TensionHorizontal(); break;
          case 1: s.Catenary(); break;
          default: s.Validate(); break;
        }
      }
    }
    c.clear_note();
    c.note("a=%.17g b=%.17g wy=%.17g wz=%.17g type=%d pos=%.17g value=%.17g round=%d", p.a, p.b,
           p.wy, p.wz, (int)p.type, p.pos, p.value, round);
    c.distinct(mon::hashd(mon::hashd(mon::hashd((int)p.type, p.a), p.value), p.pos));
    if (c.want_sample()) c.sample(c.note_.substr(0, 200));
    c.check(s.position_target() == p.pos && s.value_target() == p.value && s.type_target() == p.type &&
            s.spacing_endpoints().x() == p.a && s.weight_unit().z() == p.wz, "getter", "getters");
    Judge(c, s, p);
  }
}
