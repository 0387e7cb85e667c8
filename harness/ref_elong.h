// Independent extended-precision model of cable elongation.
#ifndef VERIF_HARNESS_REF_ELONG_H_
#define VERIF_HARNESS_REF_ELONG_H_

#include "gen.h"

#include "models/sagtension/cable_state.h"

namespace ref {
using gen::ld;
typedef SagTensionCableComponent::PolynomialType PT;

// root of an increasing function by bisection
template <class Fn>
inline ld Root(Fn f, ld lo, ld hi) {
  for (int i = 0; i < 200; i++) {
    const ld m = (lo + hi) / 2;
    if (m == lo || m == hi) break;
    if (f(m) < 0) lo = m;
    else hi = m;
  }
  return (lo + hi) / 2;
}

// One curve of a component: compression line, unloading line from the stretch
// point, polynomial, tangent beyond the limit of the polynomial.
struct Curve {
  const CableComponent* k;
  const std::vector<double>* co;
  ld th, limit, m_ext, Et, Ec;
  ld xu, xs, ys, xe;  // unloaded, stretch start, end of polynomial
  ld P(ld e) const {
    const ld x = (e - th) / k->scale_polynomial_x;
    ld y = 0;
    for (size_t i = co->size(); i-- > 0;) y = y * x + (*co)[i];
    return y * k->scale_polynomial_y;
  }
  ld D(ld e) const {
    const ld x = (e - th) / k->scale_polynomial_x;
    ld y = 0;
    for (size_t i = co->size(); i-- > 1;) y = y * x + (*co)[i] * (ld)i;
    return y * k->scale_polynomial_y / k->scale_polynomial_x;
  }
  Curve() {}
  Curve(const CableComponent& c, PT t, ld temp, ld temp_ref, ld stretch) : k(&c) {
    co = t == PT::kCreep ? &c.coefficients_polynomial_creep : &c.coefficients_polynomial_loadstrain;
    limit = t == PT::kCreep ? c.load_limit_polynomial_creep : c.load_limit_polynomial_loadstrain;
    th = (ld)c.coefficient_expansion_linear_thermal * (temp - temp_ref);
    Et = c.modulus_tension_elastic_area;
    Ec = c.modulus_compression_elastic_area;
    xe = PolyStrain(limit);
    m_ext = std::max((ld)100000, D(xe));
    ys = stretch;
    xs = ys <= limit ? PolyStrain(ys) : xe + (ys - limit) / m_ext;
    xu = xs - ys / Et;
  }
  // walk up from zero strain, where valid polynomials increase
  ld PolyStrain(ld y) const {
    ld lo = th - 0.002L;
    const ld step = 0.0002L;
    while (P(lo + step) < y && lo < th + 0.06L) lo += step;
    return Root([&](ld e) { return P(e) - y; }, lo, lo + step);
  }
  ld Load(ld e) const {
    if (e < xu) return (e - xu) * Ec;
    if (e <= xs) return ys + (e - xs) * Et;
    if (e < xe) return P(e);
    return limit + (e - xe) * m_ext;
  }
  ld Slope(ld e) const {
    if (e < xu) return Ec;
    if (e <= xs) return Et;
    if (e < xe) return D(e);
    return m_ext;
  }
  // distance to the nearest kink
  ld Kink(ld e) const {
    return std::min(std::fabs(e - xu), std::min(std::fabs(e - xs), std::fabs(e - xe)));
  }
  ld Strain(ld y) const {
    if (y < 0) return xu + y / Ec;
    if (y <= ys) return xu + y / Et;
    if (y < limit) return PolyStrain(y);
    return xe + (y - limit) / m_ext;
  }
};

// Stretch load on the curve of type `to`, when the stretch was given on `from`.
// `amp` is how many times a load residual is amplified in the result.
inline ld StretchLoad(const CableComponent& c, PT from, PT to, ld temp, ld temp_ref, ld load,
                      ld* amp) {
  *amp = 1;
  if (load <= 0) return 0;
  if (from == to) return load;
  const Curve f(c, from, temp, temp_ref, 0), t(c, to, temp, temp_ref, 0);
  const ld e0 = f.Strain(load);
  auto line = [&](ld e) { return load + (e - e0) * f.Et; };
  auto g = [&](ld e) { return line(e) - t.Load(e); };
  // the unloading line must meet the curve once at a positive load; a line that
  // passes above the whole curve leaves it unstretched
  int changes = 0;
  ld from_x = t.xu, at = t.xu;
  const bool above = g(t.xu) > 0;
  bool now = above;
  for (int i = 1; i <= 500; i++) {
    const ld x = i <= 400 ? t.xu + i * (t.xe - t.xu) / 400 : t.xe + (i - 400) * 0.002L;
    if ((g(x) > 0) != now) {
      now = !now;
      changes++;
      from_x = i <= 400 ? x - (t.xe - t.xu) / 400 : x - 0.002L;
      at = x;
    }
  }
  if (above && changes == 0) return 0;
  if (above || changes != 1) {
    *amp = 1e9L;
    return 0;
  }
  const ld e = Root(g, from_x, at);
  const ld q = t.Slope(e) / (f.Et - t.Slope(e));
  // a residual of the point that the line starts at also counts
  *amp = q < 0 ? 1e9L : (q + 1) * std::max((ld)1, f.Et / f.Slope(e0));
  return std::max((ld)0, line(e));
}

// One component in a state with a stretch.
inline Curve Component(const CableComponent& c, const CableState& s, const CableStretchState& x,
                       ld temp_ref, ld stretch, ld* amp) {
  return Curve(c, s.type_polynomial, s.temperature, temp_ref,
               StretchLoad(c, x.type_polynomial, s.type_polynomial, x.temperature, temp_ref,
                           stretch, amp));
}

// The cable: components at equal strain.
struct CableCurve {
  std::vector<Curve> parts;  // enabled components, core first
  int core = -1, shell = -1;
  ld amp = 1;
  ld Load(ld e) const {
    ld y = 0;
    for (const Curve& p : parts) y += p.Load(e);
    return y;
  }
  ld Slope(ld e) const {
    ld y = 0;
    for (const Curve& p : parts) y += p.Slope(e);
    return y;
  }
  ld Kink(ld e) const {
    ld y = 1;
    for (const Curve& p : parts) y = std::min(y, p.Kink(e));
    return y;
  }
  // tolerances that follow from solving every point to 0.01 in load
  double TolStretch() const { return 0.03 * (double)amp + 0.012; }
  double TolStrain() const {
    double y = 0;
    for (const Curve& p : parts) {
      const ld m = std::min(p.Et, std::min(p.m_ext, p.D(p.xs < p.xe ? p.xs : p.xe)));
      y = std::max(y, (double)(0.012 / m + TolStretch() / p.Et + TolStretch() / m));
    }
    return y;
  }
  double TolLoad(int i) const {
    return TolStrain() * (double)std::max(parts[i].Et, parts[i].m_ext) + TolStretch();
  }
  // greatest strain with at most this load
  ld Strain(ld y) const {
    return Root([&](ld e) { return Load(e) - y; }, -0.1L, 3);
  }
  static CableCurve Make(const SagTensionCable& k, const CableState& s,
                         const CableStretchState& x) {
    CableCurve o;
    const Cable& c = *k.cable_base();
    const ld ref = c.temperature_properties_components;
    const CableComponent* part[2] = {&c.component_core, &c.component_shell};
    const bool on[2] = {k.IsEnabled(SagTensionCable::ComponentType::kCore),
                        k.IsEnabled(SagTensionCable::ComponentType::kShell)};
    ld load[2] = {0, 0};
    if (x.load > 0) {
      CableCurve f;
      for (int i = 0; i < 2; i++)
        if (on[i]) f.parts.push_back(Curve(*part[i], x.type_polynomial, x.temperature, ref, 0));
      const ld e = f.Strain(x.load);
      for (int i = 0, j = 0; i < 2; i++)
        if (on[i]) load[i] = std::max((ld)0, f.parts[j++].Load(e));
    }
    for (int i = 0; i < 2; i++) {
      if (!on[i]) continue;
      ld amp;
      (i ? o.shell : o.core) = o.parts.size();
      o.parts.push_back(Component(*part[i], s, x, ref, load[i], &amp));
      o.amp = std::max(o.amp, amp);
    }
    return o;
  }
};

}  // namespace ref

#endif  // VERIF_HARNESS_REF_ELONG_H_
