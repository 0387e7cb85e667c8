// C11: CableElongationModel against independent component curves.
#include "ref_elong.h"

#include "models/sagtension/cable_elongation_model.h"

using gen::ld;
using mon::Ctx;
using mon::Rng;
using mon::fmt;
using ref::PT;
typedef CableElongationModel::ComponentType CT;

namespace mon {
const char* kTag = "elongation";
const char* kRule =
    "each case drives one cable elongation model through 1-6 settings (cable, "
    "state and stretch changed in any order with reads, validations and copies "
    "in between) and compares combined and component load, slope and strain "
    "with independent component curves joined at equal strain; non-trivial = a "
    "new setting";
uint64_t FixedCases() { return 20; }
}  // namespace mon

static void Judge(Ctx& c, const CableElongationModel& m, const SagTensionCable& k,
                  const CableState& s, const CableStretchState& x) {
  Rng& r = c.rng;
  const ref::CableCurve e = ref::CableCurve::Make(k, s, x);
  if (e.amp > 100) {
    c.event("nearly_parallel_stretch_skipped");
    return;
  }
  const double px = e.TolStrain();
  std::vector<double> at;
  ld lo = 1, hi = -1;
  for (const ref::Curve& p : e.parts) {
    lo = std::min(lo, p.xu);
    hi = std::max(hi, std::max(p.xs, p.xe));
  }
  for (int i = 0; i < 8; i++) at.push_back(r.uni((double)lo - 0.002, (double)hi + 0.002));
  for (const ref::Curve& p : e.parts) {
    at.push_back((double)p.xu);
    at.push_back((double)p.xs);
    at.push_back((double)p.xe);
    at.push_back(r.uni((double)p.xu, (double)p.xs));
  }
  std::sort(at.begin(), at.end());
  double prev = -1e300, prev_x = 0;
  for (double a : at) {
    double y[3], g[3];
    const int first = r.i(0, 2);
    for (int i = 0; i < 3; i++) {
      const int q = (first + i) % 3;
      const CT t = q == 0 ? CT::kCore : q == 1 ? CT::kShell : CT::kCombined;
      y[q] = m.Load(t, a);
      g[q] = m.Slope(t, a);
    }
    double tol = 0;
    for (int q = 0; q < 2; q++) {
      const int p = q ? e.shell : e.core;
      if (p < 0) {
        c.check(y[q] == 0 && g[q] == 0, "absent-component", "an absent component carries %.10g", y[q]);
        continue;
      }
      const ld yr = e.parts[p].Load(a);
      const double tp = e.TolLoad(p) + 1e-10 * std::fabs((double)yr);
      tol += tp;
      c.near(y[q], yr, 0, tp, q ? "load-shell" : "load-core", fmt("load at %.12g", a).c_str());
      if (e.parts[p].Kink(a) > 3 * px)
        c.near(g[q], e.parts[p].Slope(a), 1e-6, 1e-9, q ? "slope-shell" : "slope-core",
               fmt("slope at %.12g", a).c_str());
    }
    c.near(y[2], (ld)y[0] + y[1], 1e-13, 1e-9, "sum", "combined load against the sum of components");
    c.near(g[2], (ld)g[0] + g[1], 1e-13, 1e-9, "sum", "combined slope against the sum of components");
    c.check(y[2] >= prev - 0.1 - tol * 0.01, "monotone",
            "combined load falls from %.10g at %.12g to %.10g at %.12g", prev, prev_x, y[2], a);
    prev = y[2];
    prev_x = a;
    if (e.parts.size() == 1) c.event("single_component");
    // strain of the load is the strain again wherever the curve has slope
    if (e.Kink(a) > 3 * px && e.Slope(a) > 1) {
      c.near(m.Strain(CT::kCombined, y[2]), a, 1e-9, 0.012 / (double)e.Slope(a), "inverse-combined",
             fmt("combined strain of the load at %.12g", a).c_str());
    }
    bool core_c = e.core >= 0 && a < e.parts[e.core].xu, shell_c = e.shell >= 0 && a < e.parts[e.shell].xu;
    c.event(core_c && shell_c ? "both_compressed" : core_c || shell_c ? "one_compressed" : "both_tensioned");
  }
  for (int i = 0; i < 8; i++) {
    const double top = *k.strength_rated() * 1.2;
    double y = r.p(0.1) ? 0 : r.p(0.3) ? r.logu(1, 500) : r.uni(0, top);
    ld ec = 0;
    for (const ref::Curve& p : e.parts) ec += p.Ec;
    if (ec > 0 && r.p(0.1)) y = -r.uni(0, 500);
    const double st = m.Strain(CT::kCombined, y);
    if (y <= 0 && ec == 0) {
      c.near(st, lo, 1e-9, px, "strain-combined", "strain of a cable that cannot be compressed");
      c.event("slack_load");
      continue;
    }
    const ld sr = e.Strain(y);
    // the load, rather than the strain, is what the tolerances are about
    double tol = 0.012;
    for (size_t p = 0; p < e.parts.size(); p++) tol += e.TolLoad(p);
    c.near(e.Load(st), y, 1e-10, tol, "strain-combined",
           fmt("load at the combined strain of load %.10g (strain %.12g, expected %.12g)", y, st,
               (double)sr).c_str());
    c.near(m.Load(CT::kCombined, st), y, 1e-10, 0.0101, "inverse-combined",
           fmt("combined load of the strain at load %.10g", y).c_str());
    for (int q = 0; q < 2; q++) {
      const int p = q ? e.shell : e.core;
      const CT t = q ? CT::kShell : CT::kCore;
      if (p < 0) {
        c.check(m.Strain(t, y) == 0, "absent-component", "an absent component has a strain");
        continue;
      }
      const ref::Curve& w = e.parts[p];
      if (y < 0 && w.Ec == 0) continue;
      if (std::fabs((double)(y - w.ys)) < 4 * e.TolStretch() || std::fabs((double)(y - w.limit)) < 0.05) continue;
      c.near(m.Strain(t, y), w.Strain(y), 1e-9, px, "strain-component",
             fmt("component strain at load %.10g", y).c_str());
    }
    if (y < 0) c.event("compressive_load");
  }
  if (x.load > 0) c.event(x.type_polynomial == s.type_polynomial ? "stretch_same_curve" : "stretch_transferred");
}

static CableState DrawState(Rng& r) {
  CableState s;
  s.temperature = r.p(0.2) ? 70 : r.uni(-20, 212);
  s.type_polynomial = r.p(0.5) ? PT::kCreep : PT::kLoadStrain;
  return s;
}

static CableStretchState DrawStretch(Rng& r, double rated) {
  CableStretchState s;
  s.temperature = r.p(0.2) ? 70 : r.uni(-20, 120);
  s.type_polynomial = r.p(0.5) ? PT::kCreep : PT::kLoadStrain;
  s.load = r.p(0.2) ? 0 : r.p(0.2) ? r.logu(1, 500) : rated * r.uni(0.02, 0.9);
  return s;
}

void mon::RunCase(Ctx& c) {
  Rng& r = c.rng;
  CableElongationModel m;
  std::vector<Cable> cables;
  cables.reserve(10);
  std::vector<SagTensionCable> sag(10);
  const SagTensionCable* k = nullptr;
  CableState s;
  CableStretchState x;
  const int rounds = r.i(1, 6);
  for (int round = 0; round < rounds; round++) {
    int change = round == 0 ? 7 : r.i(1, 7);
    if (change & 1) {
      cables.push_back(r.p(0.2) ? gen::Drake() : gen::RandomCable(r));
      Cable& b = cables.back();
      if (r.p(0.25)) {
        CableComponent& off = r.p(0.7) ? b.component_core : b.component_shell;
        off = gen::Mono().component_core;
        c.event("component_absent");
      }
      if (r.p(0.1)) b.component_core.modulus_compression_elastic_area = b.component_core.modulus_tension_elastic_area * 0.3;
      if (r.p(0.1)) b.component_shell.modulus_compression_elastic_area = 0;
      SagTensionCable& g = sag[cables.size() - 1];
      g.set_cable_base(&b);
      k = &g;
    }
    if (x.load > 0.9 * *k->strength_rated()) change |= 4;  // a stretch within the strength
    int order[3] = {0, 1, 2};
    for (int i = 2; i > 0; i--) std::swap(order[i], order[r.i(0, i)]);
    for (int i : order) {
      if (!((change >> i) & 1)) continue;
      if (i == 0) {
        m.set_cable(k);
      } else if (i == 1) {
        if (round > 0 && r.p(0.3)) s.temperature += r.uni(-0.01, 0.01);
        else s = DrawState(r);
        m.set_state(s);
      } else {
        if (round > 0 && x.load < 0.9 * *k->strength_rated() && r.p(0.3)) x.load = std::fabs(x.load + r.uni(-0.5, 0.5));
        else x = DrawStretch(r, *k->strength_rated());
        m.set_state_stretch(x);
      }
      if (round > 0 && r.p(0.3)) {
        switch (r.i(0, 3)) {
          case 0: m.Load(CT::kCombined, 0.002); break;
          case 1: m.Strain(CT::kCombined, 3000); break;
          case 2: m.Slope(CT::kShell, 0.001); break;
          default: m.Validate(r.p(0.7), nullptr); break;
        }
        c.event("reads_between_setters");
      }
    }
    c.clear_note();
    const Cable& b = *k->cable_base();
    c.note("cable strength %.8g reference %.6g core E=%.8g Ec=%.8g shell E=%.8g Ec=%.8g", b.strength_rated,
           b.temperature_properties_components, b.component_core.modulus_tension_elastic_area,
           b.component_core.modulus_compression_elastic_area, b.component_shell.modulus_tension_elastic_area,
           b.component_shell.modulus_compression_elastic_area);
    c.note("state T=%.17g curve=%d; stretch T=%.17g curve=%d load=%.17g; round %d", s.temperature,
           (int)s.type_polynomial, x.temperature, (int)x.type_polynomial, x.load, round);
    c.distinct(mon::hashd(mon::hashd((int)s.type_polynomial, s.temperature), x.load));
    if (c.want_sample()) c.sample(c.note_);
    if (r.p(0.3)) m.Validate(r.p(0.7), nullptr);
    if (r.p(0.2)) {
      // a copy stands on its own
      CableElongationModel* other = new CableElongationModel(m);
      CableElongationModel copy;
      copy = *other;
      other->set_state(DrawState(r));
      other->Load(CT::kCombined, 0.001);
      delete other;
      c.event("copies_judged");
      Judge(c, copy, *k, s, x);
    }
    Judge(c, m, *k, s, x);
  }
}
