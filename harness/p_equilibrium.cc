// C08: CableAttachmentEquilibriumSolver against independent force vectors.
#include "ref.h"

#include "models/transmissionline/cable_attachment_equilibrium_solver.h"

using gen::ld;
using mon::Ctx;
using mon::Rng;
using mon::fmt;

namespace mon {
const char* kTag = "equilibrium";
const char* kRule =
    "each case drives one solver through 1-5 settings (random catenaries, "
    "angle, side, hardware angle changed in any order with reads in between) "
    "and recomputes cable force, imbalance and equilibrium angle from "
    "extended-precision statics; non-trivial = a new setting";
uint64_t FixedCases() { return 20; }
}  // namespace mon

struct K {
  double a, b, wy, wz, H;
  int side;
  Catenary3d Real() const {
    Catenary3d k;
    k.set_spacing_endpoints(Vector3d(a, 0, b));
    k.set_weight_unit(Vector3d(0, wy, wz));
    k.set_tension_horizontal(H);
    k.set_direction_transverse(side > 0 ? AxisDirectionType::kPositive
                                        : AxisDirectionType::kNegative);
    return k;
  }
  ref::Cat3 Ref() const { return ref::Cat3(a, b, wy, wz, H, side); }
};

void mon::RunCase(Ctx& c) {
  Rng& r = c.rng;
  CableAttachmentEquilibriumSolver s;
  std::vector<Catenary3d> keep(20);
  size_t used = 0;
  K back = {}, ahead = {};
  double angle = 180, hw = 180;
  int side = 1;
  double wy = 0, wz = 1, H = 5000;
  int wside = 1;
  auto draw = [&](K* k) {
    k->a = r.logu(100, 2000);
    k->b = r.p(0.3) ? 0 : k->a * r.uni(-0.4, 0.4);
    k->wy = wy;
    k->wz = wz;
    k->side = wside;
    k->H = H;
    if (r.p(0.25)) k->H = H * r.uni(0.8, 1.3);
    if (r.p(0.1)) k->wy = wz * r.u();
    const double m = std::hypot(k->a, k->b) / 2 * std::hypot(k->wy, k->wz);
    if (k->H < m) k->H = m * 1.1;
  };
  const int rounds = r.i(1, 5);
  for (int round = 0; round < rounds; round++) {
    const bool small = round > 0 && r.p(0.3);
    int change = round == 0 ? 31 : small ? 0 : r.i(1, 31);
    if (change & 1) {
      wz = r.logu(0.2, 5);
      wy = r.p(0.4) ? 0 : wz * r.logu(0.01, 3);
      H = r.logu(2, 20) * 1000 * std::hypot(wy, wz);
      wside = r.p(0.5) ? 1 : -1;
      draw(&back);
    }
    if (change & 2) draw(&ahead);
    // a locator also asks for angles beyond the validated half circle
    const double top = r.p(0.25) ? 360 : 180;
    if (change & 4) angle = r.p(0.2) ? 180 : r.p(0.1) ? r.i(0, (int)top / 30) * 30 : r.uni(0, top);
    if (change & 8) hw = r.p(0.2) ? r.i(0, (int)top / 30) * 30 : r.uni(0, top);
    if (change & 16) side = r.p(0.5) ? 1 : -1;
    if (small) {
      K* k = r.p(0.5) ? &back : &ahead;
      const double v = gen::Nudge(r, k->H);
      if (v > std::hypot(k->a, k->b) / 2 * std::hypot(k->wy, k->wz) * 1.000001) k->H = v;
      if (r.p(0.3)) angle = std::max(0.0, std::min(angle > 180 ? 360.0 : 180.0, angle + r.uni(-0.01, 0.01)));
      if (r.p(0.3)) hw = std::max(0.0, std::min(hw > 180 ? 360.0 : 180.0, hw + r.uni(-0.01, 0.01)));
      change = 31;
      c.event("small_changes");
    }
    int order[5] = {0, 1, 2, 3, 4};
    for (int i = 4; i > 0; i--) std::swap(order[i], order[r.i(0, i)]);
    for (int i : order) {
      if (!((change >> i) & 1) && i > 1) continue;
      switch (i) {
        case 0:
          keep[used] = back.Real();
          s.set_catenary_back(&keep[used++]);
          break;
        case 1:
          keep[used] = ahead.Real();
          s.set_catenary_ahead(&keep[used++]);
          break;
        case 2: s.set_angle_catenaries(angle); break;
        case 3: s.set_angle_hardware(hw); break;
        default:
          s.set_direction_catenaries(side > 0 ? AxisDirectionType::kPositive
                                              : AxisDirectionType::kNegative);
      }
      if (round > 0 && r.p(0.3)) {
        if (r.p(0.5)) s.AngleEquilibrium();
        else s.TensionImbalance();
        c.event("reads_between_setters");
      }
    }
    c.clear_note();
    c.note("back a=%.17g b=%.17g wy=%.17g wz=%.17g H=%.17g side=%d", back.a, back.b, back.wy,
           back.wz, back.H, back.side);
    c.note("ahead a=%.17g b=%.17g wy=%.17g wz=%.17g H=%.17g side=%d", ahead.a, ahead.b, ahead.wy,
           ahead.wz, ahead.H, ahead.side);
    c.note("angle=%.17g hardware=%.17g side=%d round=%d", angle, hw, side, round);
    c.distinct(mon::hashd(mon::hashd(mon::hashd(side, angle), hw), back.H + ahead.a));
    if (c.want_sample()) c.sample(c.note_.substr(0, 300));

    // reference force of the two cables in the bisecting frame
    ld tb[3], ta[3], f[3];
    const ref::Cat3 rb = back.Ref(), ra = ahead.Ref();
    rb.Tangent(1, -1, tb);
    ra.Tangent(0, 1, ta);
    const ld Tb = rb.p.T(1), Ta = ra.p.T(0), al = gen::rad((180 - (ld)angle) / 2);
    auto rot = [](ld* v, ld q) {
      const ld x = v[0] * std::cos(q) - v[1] * std::sin(q);
      v[1] = v[0] * std::sin(q) + v[1] * std::cos(q);
      v[0] = x;
    };
    rot(tb, -side * al);
    rot(ta, side * al);
    for (int i = 0; i < 3; i++) f[i] = Tb * tb[i] + Ta * ta[i];
    const ld F = std::sqrt(f[0] * f[0] + f[1] * f[1] + f[2] * f[2]);
    const ld g = gen::rad(hw);
    const ld d[3] = {f[0], f[1] - F * side * std::sin(g), f[2] - F * std::cos(g)};
    const ld imb = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
    const double tol = 6e-6 * (double)(Tb + Ta);
    const bool first = r.p(0.5);
    double I = 0, A = 0;
    for (int i = 0; i < 2; i++) {
      if ((i == 0) == first) I = s.TensionImbalance();
      else A = s.AngleEquilibrium();
    }
    c.near(I, imb, 1e-7, tol, "imbalance", "tension imbalance");
    const ld yz = std::hypot(f[1], f[2]);
    const ld e = gen::deg(std::atan2(side * f[1], f[2]));
    if (yz > 1e-3 * (Tb + Ta)) {
      c.check(std::isfinite(A) && A >= 0 && A <= 360 &&
                  std::fabs((double)gen::adiff(A, e)) < 1e-6 + 60 * tol / (double)yz,
              "equilibrium-angle", "angle %.12g, expected %.12g", A, (double)e);
    }
    c.event("settings_judged");
    std::list<ErrorMessage> msg;
    const bool valid = s.Validate(r.p(0.5), &msg);
    const bool in = angle <= 180 && hw <= 180;
    c.check(valid == in, "validate", "%s inputs were %s: %s", in ? "valid" : "invalid", valid ? "accepted" : "rejected",
            msg.empty() ? "" : msg.front().description.c_str());
    if (!in) c.event("beyond_half_circle");
    // hardware turned to equilibrium is balanced
    if (std::fabs(f[0]) < 1e-9L * (Tb + Ta) && A >= 0 && A <= 180) {
      s.set_angle_hardware(A);
      c.near(s.TensionImbalance(), 0, 0, 3 * tol, "balanced", "imbalance at the equilibrium angle");
      c.near(s.AngleEquilibrium(), A, 1e-9, 0, "balanced", "equilibrium angle after balancing");
      s.set_angle_hardware(hw);
      c.event("balanced_states");
    }
    // out-of-range inputs
    if (r.p(0.1)) {
      s.set_angle_catenaries(r.p(0.5) ? -1 : 181);
      c.check(!s.Validate(true, nullptr), "validate", "an angle out of range was accepted");
      s.set_angle_catenaries(angle);
    }
  }
}
