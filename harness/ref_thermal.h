// Conductor heat balance of IEEE 738 in extended precision.
#ifndef VERIF_HARNESS_REF_THERMAL_H_
#define VERIF_HARNESS_REF_THERMAL_H_

#include "gen.h"

#include "models/thermalrating/cable_heat_transfer_solver.h"

namespace ref {
using gen::ld;

struct Bare {
  const Cable* k;
  const ThermalRatingWeather* w;
  bool metric;

  ld Resistance(ld t) const {
    std::vector<const Cable::ResistancePoint*> p;
    for (const auto& q : k->resistances_ac) p.push_back(&q);
    size_t i = 0;
    while (i + 2 < p.size() && p[i + 1]->temperature < t) i++;
    const ld x0 = p[i]->temperature, x1 = p[i + 1]->temperature;
    const ld y0 = p[i]->resistance, y1 = p[i + 1]->resistance;
    return y0 + (y1 - y0) * (t - x0) / (x1 - x0);
  }
  ld Convection(ld t) const {
    const ld f = (t + w->temperature_air) / 2, e = w->elevation, rise = t - w->temperature_air, d = k->diameter;
    ld kf, rho, mu, kn;
    if (metric) {
      kf = 2.424e-2L + 7.477e-5L * f - 4.407e-9L * f * f;
      rho = (1.293L - 1.525e-4L * e + 6.379e-9L * e * e) / (1 + 0.00367L * f);
      mu = 1.458e-6L * std::pow(f + 273, 1.5L) / (f + 383.4L);
      kn = 3.645L;
    } else {
      kf = 7.388e-3L + 2.279e-5L * f - 1.343e-9L * f * f;
      rho = (0.080695L - 2.901e-6L * e + 3.7e-11L * e * e) / (1 + 0.00367L * f);
      mu = 0.00353L * std::pow(f + 273, 1.5L) / (f + 383.4L) / 3600;
      kn = 1.825L;
    }
    const ld N = d * rho * w->speed_wind / mu, phi = gen::rad(w->angle_wind);
    const ld K = 1.194L - std::cos(phi) + 0.194L * std::cos(2 * phi) + 0.368L * std::sin(2 * phi);
    const ld low = K * (1.01L + 1.35L * std::pow(N, 0.52L)) * kf * std::fabs(rise);
    const ld high = K * 0.754L * std::pow(N, 0.6L) * kf * std::fabs(rise);
    const ld natural = kn * std::sqrt(rho) * std::pow(d, 0.75L) * std::pow(std::fabs(rise), 1.25L);
    const ld q = std::max(std::max(low, high), natural);
    return rise < 0 ? q : -q;
  }
  ld Radiation(ld t) const {
    auto p4 = [](ld x) { return x * x * x * x; };
    return -(metric ? 17.8L : 1.656L) * k->diameter * k->emissivity *
           (p4((t + 273) / 100) - p4((w->temperature_air + 273.0L) / 100));
  }
  ld Solar() const { return (ld)k->absorptivity * w->radiation_solar * k->diameter; }
  // electrical heat that holds a temperature
  ld Needed(ld t) const { return -(Convection(t) + Radiation(t) + Solar()); }
  ld Current(ld t) const {
    const ld q = Needed(t), r = Resistance(t);
    return q < 0 ? -std::sqrt(-q / r) : std::sqrt(q / r);
  }
  // lowest temperature above the air's, held by a current, or -999999
  ld Temperature(ld current) const {
    ld lo = w->temperature_air, hi = lo + 1;
    if (Current(lo) > current) {
      hi = lo;
      lo = hi - 1;
      while (Current(lo) > current) {
        lo -= 1;
        if (lo < -250) return -999999;
      }
    } else {
      while (Current(hi) < current) {
        hi += 1;
        if (hi > 3000) return -999999;
      }
    }
    for (int i = 0; i < 100; i++) {
      const ld m = (lo + hi) / 2;
      if (Current(m) < current) lo = m; else hi = m;
    }
    return (lo + hi) / 2;
  }
};

}  // namespace ref

namespace gen {

// a conductor's thermal side; everything per foot, or per meter
inline Cable ThermalCable(mon::Rng& r, bool metric) {
  Cable k = r.p(0.7) ? Drake() : RandomCable(r);
  k.diameter = r.logu(0.2, 2.5) / 12;
  k.absorptivity = r.p(0.1) ? r.i(0, 1) : r.uni(0.1, 1);
  k.emissivity = r.p(0.1) ? r.i(0, 1) : r.uni(0.1, 1);
  k.component_core.capacity_heat = r.p(0.15) ? 0 : r.logu(5, 300);
  k.component_shell.capacity_heat = r.logu(30, 800);
  k.resistances_ac.clear();
  // resistance rises with temperature, by several slopes
  const int n = r.p(0.5) ? 2 : r.i(3, 6);
  double t = r.uni(-20, 30), o = r.logu(1e-6, 1e-3);
  const double mile = r.uni(0.003, 0.005) * o;
  for (int i = 0; i < n; i++) {
    Cable::ResistancePoint p;
    p.temperature = t;
    p.resistance = o;
    k.resistances_ac.push_back(p);
    const double step = r.logu(5, 120);
    t += step;
    o += step * mile * r.uni(0.6, 1.4);
  }
  if (metric) {
    k.diameter *= 0.3048;
    k.component_core.capacity_heat /= 0.3048;
    k.component_shell.capacity_heat /= 0.3048;
    for (auto& p : k.resistances_ac) p.resistance /= 0.3048;
  }
  return k;
}
// the same conditions in the other unit system
inline void Convert(Cable* k, ThermalRatingWeather* w, bool to_metric) {
  const double f = to_metric ? 0.3048 : 1 / 0.3048;
  k->diameter *= f;
  k->component_core.capacity_heat /= f;
  k->component_shell.capacity_heat /= f;
  for (auto& p : k->resistances_ac) p.resistance /= f;
  w->elevation *= f;
  w->speed_wind *= f;
  w->radiation_solar /= f * f;
}

}  // namespace gen

#endif  // VERIF_HARNESS_REF_THERMAL_H_
