// C10: CableComponentElongationModel against an independent curve.
#include "ref_elong.h"

#include "models/sagtension/cable_component_elongation_model.h"

using gen::ld;
using mon::Ctx;
using mon::Rng;
using mon::fmt;
using ref::PT;

namespace mon {
const char* kTag = "component";
const char* kRule =
    "each case drives one component model through 1-6 settings (component, "
    "temperature, curve, stretch and reference temperature changed in any order "
    "with reads and validations in between) and compares load, strain, slope, "
    "region points and thermal strain with an independent curve; non-trivial = "
    "a new setting";
uint64_t FixedCases() { return 20; }
}  // namespace mon

static void Judge(Ctx& c, const CableComponentElongationModel& m, const CableComponent& k,
                  const CableState& s, const CableStretchState& x, double temp_ref) {
  Rng& r = c.rng;
  ld amp;
  const ref::Curve e = ref::Component(k, s, x, temp_ref, x.load, &amp);
  if (amp > 200) {
    // the unloading line is almost parallel to the curve it should meet
    c.event("nearly_parallel_stretch_skipped");
    return;
  }
  // The model solves its points to 0.01 in load.
  const double sx = 0.012 * (double)amp + 0.012;
  const ld smin = std::min(e.Et, std::min(e.m_ext, e.D(e.xs < e.xe ? e.xs : e.xe)));
  const double px = 0.012 / (double)smin + sx / (double)e.Et + sx / (double)smin;
  const std::vector<Point2d<double>> p = m.PointsRegions();
  if (!c.check(p.size() == 3, "regions", "%d region points", (int)p.size())) return;
  c.near(p[1].y, e.ys, 1e-9, sx, "stretch-load", "stretch load");
  c.near(p[0].y, 0, 0, 0, "regions", "unloaded point load");
  // a component stretched beyond its polynomial has no polynomial region left
  const bool beyond = e.ys > e.limit && std::fabs(p[2].y - p[1].y) < 1e-9;
  if (!beyond) c.near(p[2].y, e.limit, 0, 0, "regions", "polynomial end load");
  c.near(p[0].x, e.xu, 1e-9, px, "regions", "unloaded point strain");
  c.near(p[1].x, e.xs, 1e-9, px, "regions", "stretch point strain");
  c.near(p[2].x, beyond ? e.xs : e.xe, 1e-9, px, "regions", "polynomial end strain");
  c.near(m.StrainThermal(), e.th, 1e-12, 1e-18, "thermal", "thermal strain");
  std::vector<double> at;
  const ld top = std::max(e.xe, e.xs) + 0.002L;
  for (int i = 0; i < 6; i++) at.push_back(r.uni((double)e.xu - 0.002, (double)top));
  at.push_back(r.uni((double)e.xu, (double)e.xs));
  at.push_back(r.uni((double)std::min(e.xs, e.xe), (double)e.xe));
  for (int i = 0; i < 3; i++) {
    const double q = i == 0 ? p[0].x : i == 1 ? p[1].x : p[2].x;
    at.push_back(q);
    at.push_back(std::nextafter(q, -1));
    at.push_back(std::nextafter(q, 1));
  }
  std::sort(at.begin(), at.end());
  double prev = -1e300, prev_x = 0;
  for (double a : at) {
    const double y = m.Load(a);
    const ld yr = e.Load(a);
    const double tol = 1e-10 * std::fabs((double)yr) + px * (double)std::max(e.Et, (ld)e.m_ext) + sx;
    c.near(y, yr, 0, tol, "load", fmt("load at %.12g", a).c_str());
    c.check(y >= prev - 0.05 - 1e-9 * std::fabs(y), "monotone",
            "load falls from %.10g at %.12g to %.10g at %.12g", prev, prev_x, y, a);
    if (a - prev_x < 1e-12 && prev > -1e299)
      c.check(std::fabs(y - prev) < 0.15, "continuous", "load jumps from %.10g to %.10g at %.12g",
              prev, y, a);
    prev = y;
    prev_x = a;
    const bool inside = e.Kink(a) > 3 * px;
    if (inside) c.near(m.Slope(a), e.Slope(a), 1e-6, 1e-9, "slope", fmt("slope at %.12g", a).c_str());
    const ld g = e.Slope(a);
    if (inside && g > 0) {
      const double back = m.Strain(y);
      c.near(back, a, 1e-9, 0.011 / (double)g, "inverse", fmt("strain of the load at %.12g", a).c_str());
      const double h = 1e-7;
      if (e.Kink(a) > 3 * px + 2 * h) {
        const double num = (m.Load(a + h) - m.Load(a - h)) / (2 * h);
        c.near(m.Slope(a), num, 1e-3, 5, "derivative", fmt("slope at %.12g against differences", a).c_str());
      }
    }
    c.event(a < e.xu ? "compressed" : a <= e.xs ? "stretched" : a < e.xe ? "polynomial" : "extrapolated");
  }
  for (int i = 0; i < 6; i++) {
    double y = r.p(0.2) ? r.uni(0, (double)e.ys) : r.uni(0, 1.3 * (double)std::max(e.ys, e.limit));
    if (e.Ec > 0 && r.p(0.2)) y = -r.uni(0, 500);
    const double st = m.Strain(y);
    if (std::fabs((double)(y - e.ys)) < 4 * sx || std::fabs((double)(y - e.limit)) < 0.05) continue;
    c.near(st, e.Strain(y), 1e-9, px, "strain", fmt("strain at load %.10g", y).c_str());
    c.near(m.Load(st), y, 1e-10, 0.03 + (e.Kink(st) < 3 * px ? 0.1 : 0.0), "inverse",
           fmt("load of the strain at load %.10g", y).c_str());
  }
  if (x.load > 0) c.event(x.type_polynomial == s.type_polynomial ? "stretch_same_curve" : "stretch_transferred");
  if (e.ys > e.limit) c.event("stretched_beyond_polynomial");
}

void mon::RunCase(Ctx& c) {
  Rng& r = c.rng;
  CableComponentElongationModel m;
  std::vector<Cable> cables;
  cables.reserve(10);
  std::vector<SagTensionCable> sag(10);
  CableState states[10];
  CableStretchState stretches[10];
  double refs[10];
  const CableComponent* k = nullptr;
  int cs = 0, cx = 0, ct = 0;
  const int rounds = r.i(1, 6);
  for (int round = 0; round < rounds; round++) {
    const int change = round == 0 ? 15 : r.i(1, 15);
    int order[4] = {0, 1, 2, 3};
    for (int i = 3; i > 0; i--) std::swap(order[i], order[r.i(0, i)]);
    for (int i : order) {
      if (!((change >> i) & 1)) continue;
      if (i == 0) {
        cables.push_back(r.p(0.2) ? gen::Drake() : gen::RandomCable(r));
        SagTensionCable& g = sag[cables.size() - 1];
        g.set_cable_base(&cables.back());
        const bool core = r.p(0.5);
        k = core ? &cables.back().component_core : &cables.back().component_shell;
        m.set_component_cable(core ? g.component_core() : g.component_shell());
      } else if (i == 1) {
        CableState& s = states[cs = round];
        s.temperature = r.p(0.2) ? 70 : r.uni(-20, 212);
        s.type_polynomial = r.p(0.5) ? PT::kCreep : PT::kLoadStrain;
        m.set_state(&s);
      } else if (i == 2) {
        CableStretchState& s = stretches[cx = round];
        s.temperature = r.p(0.2) ? 70 : r.uni(-20, 120);
        s.type_polynomial = r.p(0.5) ? PT::kCreep : PT::kLoadStrain;
        s.load = r.p(0.2) ? 0 : r.logu(10, 20000);
        if (k) {
          const double lim = s.type_polynomial == PT::kCreep ? k->load_limit_polynomial_creep
                                                            : k->load_limit_polynomial_loadstrain;
          if (r.p(0.7) && s.load > lim) s.load = lim * r.u();
        }
        m.set_state_stretch(&s);
      } else {
        refs[ct = round] = r.p(0.3) ? 70 : r.uni(40, 100);
        m.set_temperature_reference(&refs[ct]);
      }
      if (round > 0 && r.p(0.3)) {
        switch (r.i(0, 3)) {
          case 0: m.Load(0.002); break;
          case 1: m.Strain(3000); break;
          case 2: m.PointsRegions(); break;
          default: m.Validate(r.p(0.5), nullptr); break;
        }
        c.event("reads_between_setters");
      }
    }
    c.clear_note();
    c.note("core-like=%d limits %.10g/%.10g E=%.10g Ec=%.10g", k->modulus_compression_elastic_area == 0,
           k->load_limit_polynomial_creep, k->load_limit_polynomial_loadstrain,
           k->modulus_tension_elastic_area, k->modulus_compression_elastic_area);
    const CableState& s = states[cs];
    const CableStretchState& x = stretches[cx];
    c.note("state T=%.17g curve=%d; stretch T=%.17g curve=%d load=%.17g; reference T=%.17g; round %d",
           s.temperature, (int)s.type_polynomial, x.temperature, (int)x.type_polynomial, x.load,
           refs[ct], round);
    c.distinct(mon::hashd(mon::hashd((int)s.type_polynomial, s.temperature), x.load + refs[ct]));
    if (c.want_sample()) c.sample(c.note_);
    if (r.p(0.3)) m.Validate(r.p(0.5), nullptr);
    Judge(c, m, *k, s, x, refs[ct]);
  }
}
