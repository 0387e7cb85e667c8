// C13: CatenaryCableReloader against an independent solution of the same cable.
#include "ref_sag.h"

#include "models/sagtension/catenary_cable_reloader.h"

using gen::ld;
using mon::Ctx;
using mon::Rng;
using mon::fmt;
using ref::State;

namespace mon {
const char* kTag = "reload";
const char* kRule =
    "each case drives one reloader through 1-5 settings (catenary, cable states "
    "and unit load changed in any order with reads in between), solves the same "
    "reloading independently and compares tension, length, geometry and unloaded "
    "length, then reloads to the same state, to a warmer one and to a more "
    "stretched one; non-trivial = a new setting";
uint64_t FixedCases() { return 20; }
}  // namespace mon

// loads so small that a compressed component bends the curve nearly flat are
// not judged by strain
static bool Steep(const State& s, ld y) {
  return s.e.Load(s.e.Strain(y) - 1e-6L) < y - 0.3L;
}

void mon::RunCase(Ctx& c) {
  Rng& r = c.rng;
  std::vector<Cable> cables;
  cables.reserve(8);
  std::vector<SagTensionCable> sag(8);
  SagTensionCable* k = nullptr;
  State st[2];
  CableElongationModel model[2];
  CatenaryCableReloader u;
  ref::Hung hung;
  Catenary3d cat;
  Vector3d load;
  const int rounds = r.i(1, 5);
  for (int round = 0; round < rounds; round++) {
    int change = round == 0 ? 15 : r.i(1, 15);
    const bool small = round > 0 && r.p(0.3);
    if (small) c.event("small_changes");
    if (round == 0 || r.p(0.15)) {
      change = 15;
      cables.push_back(r.p(0.2) ? gen::Drake() : gen::RandomCable(r));
      Cable& b = cables.back();
      if (r.p(0.2)) {
        (r.p(0.7) ? b.component_core : b.component_shell) = gen::Mono().component_core;
        b.strength_rated *= 0.4;
        c.event("single_component");
      }
      k = &sag[cables.size() - 1];
      k->set_cable_base(&b);
      model[0].set_cable(k);
      model[1].set_cable(k);
      hung = ref::Hung();
    }
    const Cable& b = *k->cable_base();
    const bool fresh = hung.a == 0;
    int order[4] = {0, 1, 2, 3};
    for (int i = 3; i > 0; i--) std::swap(order[i], order[r.i(0, i)]);
    for (int i : order) {
      if (!((change >> i) & 1)) continue;
      if (i < 2) {
        if (small && !fresh) {
          st[i].s.temperature += r.uni(-0.2, 0.2);
          if (r.p(0.5)) st[i].x.load = std::fabs(st[i].x.load + r.uni(-1, 1));
        } else if (i == 1 && !fresh && r.p(0.2)) {
          st[1] = st[0];
        } else {
          st[i] = ref::DrawState(r, *k);
        }
        model[i].set_state(st[i].s);
        model[i].set_state_stretch(st[i].x);
        if (i == 0) u.set_model_reference(&model[0]);
        else u.set_model_reloaded(&model[1]);
      } else if (i == 2) {
        const double w = b.weight_unit;
        double wy = load.y(), wz = load.z();
        if (small && !fresh) {
          wz = std::max(0.1 * w, gen::Nudge(r, wz));
          wy = std::max(0.0, wy + (r.p(0.5) ? r.uni(-0.01, 0.01) : 0));
        } else {
          wz = w * (r.p(0.3) ? 1 : r.uni(1, 4));
          wy = r.p(0.4) ? 0 : wz * r.logu(0.05, 2);
        }
        load = Vector3d(0, wy, wz);
        u.set_weight_unit_reloaded(&load);
      } else {
        if (small && !fresh) {
          const double v = gen::Nudge(r, hung.H);
          if (v > hung.MinH() * 1.001 && v < b.strength_rated) hung.H = v;
        } else {
          hung = ref::DrawHung(r, b.weight_unit, b.strength_rated);
        }
        cat = hung.Real();
        u.set_catenary(&cat);
      }
      if (round > 0 && r.p(0.3)) {
        switch (r.i(0, 3)) {
          case 0: u.CatenaryReloaded(); break;
          case 1: u.LengthUnloaded(); break;
          case 2: u.TensionHorizontal(); break;
          default: u.Validate(r.p(0.5), nullptr); break;
        }
        c.event("reads_between_setters");
      }
    }
    c.clear_note();
    for (int i = 0; i < 2; i++) st[i].e = ref::CableCurve::Make(*k, st[i].s, st[i].x);
    c.note("%s; reference %s reloaded %s; catenary a=%.17g b=%.17g w=%.17g %.17g H=%.17g side=%d; load %.17g %.17g; round %d",
           gen::Describe(b).c_str(), st[0].text().c_str(), st[1].text().c_str(), hung.a, hung.b,
           hung.wy, hung.wz, hung.H, hung.side, load.y(), load.z(), round);
    c.distinct(mon::hashd(mon::hashd(mon::hashd(1, hung.H), load.z()), st[1].s.temperature));
    if (c.want_sample()) c.sample(c.note_);
    if (st[0].e.amp > 100 || st[1].e.amp > 100) {
      c.event("nearly_parallel_stretch_skipped");
      continue;
    }
    // the independent solution
    const ref::Cat3 e0 = hung.Ref();
    const ld mean0 = ref::MeanTension(e0);
    if (!Steep(st[0], mean0)) {
      c.event("flat_reference_skipped");
      continue;
    }
    const ld s0 = st[0].e.Strain(mean0);
    const double w = load.Magnitude(), span = std::hypot(hung.a, hung.b);
    auto at = [&](ld H) { return ref::Cat3(hung.a, hung.b, load.y(), load.z(), H, 1); };
    auto diff = [&](ld H) {
      const ref::Cat3 e = at(H);
      return e.p.L - ref::Strained(e0.p.L, st[1].e.Strain(ref::MeanTension(e)) - s0);
    };
    ld lo = span / 2 * w, hi = lo;
    const bool reachable = diff(lo) > 0;
    for (int i = 0; i < 40 && diff(hi) > 0; i++) hi *= 1.5;
    const bool solvable = reachable && diff(hi) <= 0 && hi < 1e9;
    ld H = 0;
    if (solvable) {
      for (int i = 0; i < 60; i++) {
        const ld m = (lo + hi) / 2;
        (diff(m) > 0 ? lo : hi) = m;
      }
      H = (lo + hi) / 2;
    }
    double got = 0, lu = 0;
    Catenary3d out;
    if (r.p(0.3)) u.Validate(r.p(0.5), nullptr);
    const int first = r.i(0, 2);
    for (int i = 0; i < 3; i++)
      switch ((first + i) % 3) {
        case 0: got = u.TensionHorizontal(); break;
        case 1: lu = u.LengthUnloaded(); break;
        default: out = u.CatenaryReloaded(); break;
      }
    const bool failed = got == -999999;
    c.check(failed == !u.Validate(false, nullptr), "failure", "tension %.10g but validation says %s", got,
            failed ? "valid" : "invalid");
    c.check(failed == (lu == -999999) && failed == (out.tension_horizontal() == -999999), "failure",
            "tension %.10g, unloaded length %.10g, catenary tension %.10g", got, lu,
            out.tension_horizontal());
    if (failed) {
      c.check(!solvable, "no-solution", "reported failure, but %.10g solves it", (double)H);
      c.event("no_solution_reported");
      continue;
    }
    c.near(out.tension_horizontal(), got, 0, 0, "agree", "tension of the reloaded catenary");
    c.check(out.spacing_endpoints().x() == hung.a && out.spacing_endpoints().z() == hung.b &&
                out.weight_unit().y() == load.y() && out.weight_unit().z() == load.z(),
            "geometry", "spacing (%.10g %.10g) unit load (%.10g %.10g)", out.spacing_endpoints().x(),
            out.spacing_endpoints().z(), out.weight_unit().y(), out.weight_unit().z());
    // length that the unchanged unstrained cable takes at the reported tension
    const double tol_strain = st[0].e.TolStrain() + st[1].e.TolStrain();
    const ref::Cat3 e = at(got);
    const ld mean = ref::MeanTension(e);
    c.near(out.Length(), e.p.L, 1e-10, 0, "length", "length of the reloaded catenary");
    ld per = 0;  // how much the difference changes within the tension tolerance
    for (ld q : {-0.011L, 0.011L}) per = std::max(per, std::fabs(diff(got + q) - diff(got)));
    if (Steep(st[1], mean)) {
      const ld want = ref::Strained(e0.p.L, st[1].e.Strain(mean) - s0);
      c.near(out.Length(), want, 1e-10, tol_strain * (double)e0.p.L + (double)per, "unstrained-length",
             fmt("length of the reloaded catenary against the strained cable (tension %.10g, expected %.10g)",
                 got, (double)H).c_str());
      c.event("reloaded_lengths_judged");
    } else {
      c.event("flat_reload_skipped");
    }
    c.check(solvable, "phantom", "solution %.10g where the independent one has none", got);
    ld ec = 0;
    for (const ref::Curve& p : st[0].e.parts) ec += p.Ec;
    ld un = st[0].e.Strain(0);
    if (ec == 0) {
      un = 9;
      for (const ref::Curve& p : st[0].e.parts) un = std::min(un, p.xu);
    }
    c.near(lu, ref::Strained(e0.p.L, un - s0), 1e-11, tol_strain * (double)e0.p.L, "unloaded-length",
           "unloaded length");
    c.event(got > hung.H ? "tightened" : "slackened");
    // a change of tension that is worth the tolerances
    auto room = [&](const State& s, double H1) {
      (void)s;
      const ld d = 0.5;
      const ld slope = std::fabs(diff(H1 + d) - diff(H1 - d)) / (2 * d);
      return 0.05 + tol_strain * (double)e0.p.L * 3 / (double)slope;
    };
    // the same state again gives the catenary back
    if (r.p(0.5)) {
      CatenaryCableReloader v;
      CableElongationModel same = model[0];
      Vector3d own(0, hung.wy, hung.wz);
      v.set_weight_unit_reloaded(&own);
      v.set_model_reloaded(r.p(0.5) ? &same : &model[0]);
      v.set_model_reference(&model[0]);
      v.set_catenary(&cat);
      c.near(v.TensionHorizontal(), hung.H, 1e-9, 0.025, "same-state",
             "tension after reloading to the same state");
      c.event("same_state");
    }
    // warmer or more stretched is never tighter
    if (r.p(0.7)) {
      State n = st[1];
      const bool warmer = r.p(0.5);
      if (warmer) n.s.temperature += r.logu(0.1, 60);
      else n.x.load += b.strength_rated * r.logu(1e-4, 0.2);
      n.e = ref::CableCurve::Make(*k, n.s, n.x);
      CableElongationModel next = model[1];
      next.set_state(n.s);
      next.set_state_stretch(n.x);
      CatenaryCableReloader v;
      v.set_catenary(&cat);
      v.set_model_reference(&model[0]);
      v.set_model_reloaded(&next);
      v.set_weight_unit_reloaded(&load);
      const double t = v.TensionHorizontal();
      bool fits = true;
      // a core that expands less than the shell may be relieved by warmth only
      // of what its curve allows: the independent curves must shift to the right
      for (int i = 0; i <= 20; i++) {
        const ld y = mean * i / 20;
        if (n.e.Strain(y) < st[1].e.Strain(y) - 1e-12L) fits = false;
      }
      if (t != -999999 && fits && n.e.amp < 100) {
        c.check(t <= got + room(n, got), warmer ? "warmer" : "more-stretched",
                "tension rises from %.10g to %.10g", got, t);
        c.event(warmer ? "warmer_judged" : "stretch_judged");
      }
    }
  }
}
