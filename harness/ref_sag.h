// Independent model of straining, unloading and reloading a hanging cable.
#ifndef VERIF_HARNESS_REF_SAG_H_
#define VERIF_HARNESS_REF_SAG_H_

#include "ref.h"
#include "ref_elong.h"

namespace ref {

// inputs of a catenary
struct Hung {
  double a = 0, b = 0, wy = 0, wz = 0, H = 0;
  int side = 1;
  Catenary3d Real() const {
    Catenary3d k;
    k.set_spacing_endpoints(Vector3d(a, 0, b));
    k.set_weight_unit(Vector3d(0, wy, wz));
    k.set_tension_horizontal(H);
    k.set_direction_transverse(side > 0 ? AxisDirectionType::kPositive
                                        : AxisDirectionType::kNegative);
    return k;
  }
  Cat3 Ref() const { return Cat3(a, b, wy, wz, H, side); }
  double MinH() const { return std::hypot(a, b) / 2 * std::hypot(wy, wz); }
};

// the average tension, over 101 points evenly spaced along the cable
inline ld MeanTension(const Cat3& k) {
  ld s = 0;
  for (int i = 0; i <= 100; i++) s += k.p.T(i / (ld)100);
  return s / 101;
}

// length after the strain changes by d
inline ld Strained(ld length, ld d) { return d < 0 ? length / (1 - d) : length * (1 + d); }

// a state of a cable together with its independent curve
struct State {
  CableState s;
  CableStretchState x;
  CableCurve e;
  std::string text() const {
    return mon::fmt("(T=%.9g curve=%d stretch T=%.9g curve=%d load=%.9g)", s.temperature,
                    (int)s.type_polynomial, x.temperature, (int)x.type_polynomial, x.load);
  }
};

inline State DrawState(mon::Rng& r, const SagTensionCable& k) {
  State o;
  o.s.temperature = r.p(0.2) ? 70 : r.uni(-20, 212);
  o.s.type_polynomial = r.p(0.5) ? PT::kCreep : PT::kLoadStrain;
  o.x.temperature = r.p(0.2) ? 70 : r.uni(-20, 120);
  o.x.type_polynomial = r.p(0.5) ? PT::kCreep : PT::kLoadStrain;
  o.x.load = r.p(0.4) ? 0 : *k.strength_rated() * r.uni(0.02, 0.6);
  return o;
}

inline Hung DrawHung(mon::Rng& r, double weight, double rated) {
  Hung k;
  k.wz = weight * (r.p(0.5) ? 1 : r.uni(1, 4));
  k.wy = r.p(0.5) ? 0 : k.wz * r.logu(0.05, 2);
  k.side = r.p(0.5) ? 1 : -1;
  k.H = rated * r.uni(0.03, 0.6);
  const double c = k.H / std::hypot(k.wy, k.wz);
  k.a = std::min(r.logu(100, 2500), c * 1.2);
  k.b = r.p(0.3) ? 0 : k.a * r.uni(-0.4, 0.4);
  if (k.H < k.MinH() * 1.05) k.H = k.MinH() * 1.05;
  return k;
}

// Reloading: the length that the unchanged unstrained cable takes under a new
// unit load equals the length of the catenary.
struct Reloading {
  ld a, b, wy, wz, L0, s0;
  const CableCurve* to;
  Cat3 At(ld H) const { return Cat3(a, b, wy, wz, H, 1); }
  ld Diff(ld H) const {
    const Cat3 e = At(H);
    return e.p.L - Strained(L0, to->Strain(MeanTension(e)) - s0);
  }
  bool Solve(ld* H) const {
    ld lo = std::hypot(a, b) / 2 * std::hypot(wy, wz), hi = lo;
    if (Diff(lo) <= 0) return false;
    for (int i = 0; i < 60 && Diff(hi) > 0; i++) hi *= 1.4;
    if (Diff(hi) > 0 || hi > 1e9) return false;
    for (int i = 0; i < 50; i++) {
      const ld m = (lo + hi) / 2;
      (Diff(m) > 0 ? lo : hi) = m;
    }
    *H = (lo + hi) / 2;
    return true;
  }
  // change of the difference within the solver's tolerance of tension
  ld Within(ld H, ld tol) const {
    const ld d = Diff(H);
    return std::max(std::fabs(Diff(H - tol) - d), std::fabs(Diff(H + tol) - d));
  }
};

}  // namespace ref

#endif  // VERIF_HARNESS_REF_SAG_H_
