// C01: every query of Catenary2d/Catenary3d against independent statics.
#include "ref.h"

#include <array>

using gen::ld;
using mon::Ctx;
using mon::Rng;
using mon::fmt;

namespace mon {
const char* kTag = "catenary";
const char* kRule =
    "each case drives one Catenary2d and one Catenary3d object through 1-4 "
    "successive settings (span 5-5000, slopes to +-200%, H/w from the minimum "
    "for the spacing up to 1e5 times it, with and without transverse load of "
    "either direction), with random queries between the setters, and compares "
    "every query at positions inside and outside [0,1] with extended-precision "
    "statics; non-trivial = a new (spacing, H, w) tuple";
uint64_t FixedCases() { return 60; }
}  // namespace mon

static const AxisDirectionType kPos = AxisDirectionType::kPositive;
static const AxisDirectionType kNeg = AxisDirectionType::kNegative;

static void Poke(Rng& r, const Catenary2d& k) {
  switch (r.i(0, 7)) {
    case 0: k.Length(); break;
    case 1: k.Coordinate(r.u()); break;
    case 2: k.Sag(); break;
    case 3: k.Tension(r.u()); break;
    case 4: k.TensionAverage(r.i(0, 5)); break;
    case 5: k.PositionFraction(r.uni(-30, 30)); break;
    case 6: k.TensionMax(); break;
    default: k.Validate(r.p(0.5), nullptr); break;
  }
}
static void Poke(Rng& r, const Catenary3d& k) {
  switch (r.i(0, 7)) {
    case 0: k.Length(); break;
    case 1: k.Coordinate(r.u()); break;
    case 2: k.Sag(); break;
    case 3: k.Tension(r.u()); break;
    case 4: k.TangentAngleTransverse(r.u(), kPos); break;
    case 5: k.Constant(); break;
    case 6: k.SwingAngle(); break;
    default: k.Validate(r.p(0.5), nullptr); break;
  }
}

static double Position(Rng& r, int i) {
  static const double f[] = {0, 1, 0.5};
  if (i < 3) return f[i];
  return r.p(0.75) ? r.u() : r.uni(-0.5, 1.5);
}

static void Check2d(Ctx& c, const Catenary2d& k, ld a, ld b, ld H, ld w) {
  Rng& r = c.rng;
  const ref::Cat2 e(a, b, H, w);
  const double span = std::hypot((double)a, (double)b);
  // rounding of cosh(x)-1 on a flat curve costs eps*c
  const double ay = 1e-9 * span + 4e-15 * (double)e.c;
  c.near(k.Constant(), e.c, 1e-12, 0, "constant", "H/w");
  c.near(k.Length(), e.L, 1e-11, 2e-15 * (double)(e.c + std::fabs(e.xl)),
         "length", "length");
  c.near(k.LengthSlack(), e.L - std::sqrt(a * a + b * b), 0,
         1e-11 * (double)e.L + 2e-15 * (double)(e.c + std::fabs(e.xl)), "slack", "slack");
  c.near(k.TensionMax(), e.MaxT(), 1e-10, 0, "tension-max", "max tension");
  c.near(k.TensionAverage(0), e.MeanT(), 1e-9, 0, "tension-average",
         "Ehrenburg average tension");
  const int n = r.p(0.3) ? 100 : r.p(0.02) ? r.i(100, 3000) : r.i(1, 40);
  ld sum = 0;
  for (int i = 0; i <= n; i++) sum += e.T((ld)i / n);
  c.near(k.TensionAverage(n), sum / (n + 1), 1e-10, 0, "tension-average",
         fmt("average tension over %d points", n).c_str());
  if (n == 100) {
    c.near(k.TensionAverage(), sum / (n + 1), 1e-10, 0, "tension-average",
           "default average tension");
  }
  const double pf_tol = 1e-9 + 1e-14 * (double)(e.c / e.L);
  c.near(k.PositionFractionOrigin(), e.FractionOfSlope(0), 1e-9, pf_tol,
         "position", "position of the low point");
  c.near(k.PositionFractionSagPoint(), e.FractionOfSlope(b / a), 1e-9, pf_tol,
         "position", "position of the sag point");
  const ld ts = e.FractionOfSlope(b / a);
  c.near(k.Sag(), e.Sag(ts), 1e-8, ay, "sag", "sag");
  for (int i = 0; i < 6; i++) {
    const double t = Position(r, i);
    const ld x = e.X(t), y = e.Y(t);
    Point2d<double> p = k.Coordinate(t);
    const double ax = 1e-9 * span;
    c.near(p.x, x, 1e-10, ax, "coordinate", fmt("x at %g", t).c_str());
    c.near(p.y, y, 1e-9, ay, "coordinate", fmt("y at %g", t).c_str());
    p = k.Coordinate(t, true);
    c.near(p.x, x - e.xl, 1e-10, ax + 1e-14 * std::fabs((double)e.xl),
           "coordinate", fmt("shifted x at %g", t).c_str());
    c.near(p.y, y - e.Yx(e.xl), 1e-9, ay + 1e-13 * (double)e.Yx(e.xl),
           "coordinate", fmt("shifted y at %g", t).c_str());
    if (t == 1) {
      c.near(p.x, a, 1e-9, ax, "endpoint", "right end x");
      c.near(p.y, b, 1e-9, ay + 1e-12 * (double)e.Yx(e.xl), "endpoint",
             "right end y");
    }
    p = k.CoordinateChord(t);
    c.near(p.x, x, 1e-10, ax, "chord", fmt("chord x at %g", t).c_str());
    c.near(p.y, e.Chord(t), 1e-9, ay, "chord", fmt("chord y at %g", t).c_str());
    p = k.CoordinateChord(t, true);
    c.near(p.x, x - e.xl, 1e-10, ax + 1e-14 * std::fabs((double)e.xl), "chord",
           fmt("shifted chord x at %g", t).c_str());
    c.near(p.y, (x - e.xl) * b / a, 1e-9, ay, "chord",
           fmt("shifted chord y at %g", t).c_str());
    c.near(k.Sag(t), e.Sag(t), 1e-8, ay + 1e-12 * (double)e.Yx(e.xl), "sag",
           fmt("sag at %g", t).c_str());
    const ld m = e.Slope(t), q = std::sqrt(1 + m * m), g = gen::deg(std::atan(m));
    c.near(k.TangentAngle(t, kPos), g, 1e-10, 1e-9, "tangent", "angle +");
    c.near(k.TangentAngle(t, kNeg), -g, 1e-10, 1e-9, "tangent", "angle -");
    Vector2d v = k.TangentVector(t, kPos);
    c.near(v.x(), 1 / q, 1e-10, 1e-11, "tangent", "vector + x");
    c.near(v.y(), m / q, 1e-10, 1e-11, "tangent", "vector + y");
    v = k.TangentVector(t, kNeg);
    c.near(v.x(), -1 / q, 1e-10, 1e-11, "tangent", "vector - x");
    c.near(v.y(), -m / q, 1e-10, 1e-11, "tangent", "vector - y");
    const double T = e.T(t);
    c.near(k.Tension(t), T, 1e-10, 0, "tension", fmt("T at %g", t).c_str());
    v = k.Tension(t, kPos);
    c.near(v.x(), H, 1e-9, 0, "tension", "horizontal tension +");
    c.near(v.y(), H * m, 1e-9, 1e-9 * (double)H, "tension", "vertical tension +");
    v = k.Tension(t, kNeg);
    c.near(v.x(), -H, 1e-9, 0, "tension", "horizontal tension -");
    c.near(v.y(), -H * m, 1e-9, 1e-9 * (double)H, "tension", "vertical tension -");
    // the inverse query
    if (std::fabs((double)g) < 80) {
      c.near(k.PositionFraction((double)g), t, 1e-8, 100 * pf_tol, "position",
             "position of a tangent angle");
    }
  }
  c.event("catenary2d_states");
}

static void Check3d(Ctx& c, const Catenary3d& k, ld a, ld b, ld wy, ld wz, ld H,
                    int side) {
  Rng& r = c.rng;
  const ref::Cat3 e(a, b, wy, wz, H, side);
  const ref::Cat2& p = e.p;
  const double span = std::hypot((double)a, (double)b);
  const double ay = 1e-9 * span + 4e-15 * (double)p.c;
  c.near(k.Constant(), p.c, 1e-11, 0, "constant-3d", "H/w");
  c.near(k.Length(), p.L, 1e-11, 2e-15 * (double)(p.c + std::fabs(p.xl)),
         "length-3d", "length");
  c.near(k.LengthSlack(), p.L - std::hypot(a, b), 0,
         2e-11 * (double)p.L + 2e-15 * (double)(p.c + std::fabs(p.xl)), "slack-3d", "slack");
  c.near(k.TensionMax(), p.MaxT(), 1e-10, 0, "tension-max-3d", "max tension");
  c.near(k.TensionAverage(0), p.MeanT(), 1e-9, 0, "tension-average-3d",
         "average tension");
  const int n = r.p(0.3) ? 100 : r.p(0.02) ? r.i(100, 3000) : r.i(1, 40);
  ld sum = 0;
  for (int i = 0; i <= n; i++) sum += p.T((ld)i / n);
  c.near(n == 100 ? k.TensionAverage() : k.TensionAverage(n), sum / (n + 1),
         1e-10, 0, "tension-average-3d", "average tension over points");
  const double pf_tol = 1e-9 + 1e-14 * (double)(p.c / p.L);
  c.near(k.PositionFractionOrigin(), p.FractionOfSlope(0), 1e-9, pf_tol,
         "position-3d", "position of the low point");
  const ld ts = p.FractionOfSlope(p.b / p.a);
  c.near(k.PositionFractionSagPoint(), ts, 1e-9, pf_tol, "position-3d",
         "position of the sag point");
  c.near(k.Sag(), p.Sag(ts), 1e-8, ay, "sag-3d", "sag");
  c.near(k.SwingAngle(), gen::deg(e.phi), 1e-11, 1e-12, "swing", "swing angle");
  const double scale_sag = std::fabs((double)p.Sag(ts));
  for (int i = 0; i < 6; i++) {
    const double t = Position(r, i);
    ld o[3];
    // a rotation below 5e-5 degrees is ignored by the vector class
    const double far = std::max(1.0, std::fabs(t)) * 2;
    const double skip_d = std::fabs((double)gen::deg(e.delta)) < 6e-5 ? 1e-6 : 1e-9;
    const double skip_p = std::fabs((double)gen::deg(e.phi)) < 6e-5 ? 1e-6 : 1e-9;
    const double as = (skip_d + skip_p) * 2 * (std::fabs((double)p.Sag(t)) + scale_sag) +
                      ay + 1e-12 * (double)p.Yx(p.xl);
    e.At(t, o);
    Point3d<double> q = k.Coordinate(t);
    const double ac = as + skip_d * span * far * (e.delta != 0);
    c.near(q.x, o[0], 1e-9, ac, "coordinate-3d", fmt("x at %g", t).c_str());
    c.near(q.y, o[1], 1e-9, as, "coordinate-3d", fmt("y at %g", t).c_str());
    c.near(q.z, o[2], 1e-9, ac, "coordinate-3d", fmt("z at %g", t).c_str());
    e.ChordAt(t, o);
    q = k.CoordinateChord(t);
    const double cc = skip_d * span * far;
    c.near(q.x, o[0], 1e-9, cc, "chord-3d", fmt("chord x at %g", t).c_str());
    c.near(q.y, 0, 0, 0, "chord-3d", "chord y");
    c.near(q.z, o[2], 1e-9, cc, "chord-3d", fmt("chord z at %g", t).c_str());
    c.near(k.Sag(t), p.Sag(t), 1e-8, ay + 1e-12 * (double)p.Yx(p.xl), "sag-3d",
           fmt("sag at %g", t).c_str());
    const double ts3 = 1.5 * (skip_d + skip_p);
    const double T = p.T(t);
    c.near(k.Tension(t), T, 1e-10, 0, "tension-3d", "tension");
    for (int d = 0; d < 2; d++) {
      const AxisDirectionType dir = d ? kPos : kNeg;
      ld g[3];
      e.Tangent(t, d ? 1 : -1, g);
      Vector3d v = k.TangentVector(t, dir);
      c.near(v.x(), g[0], 1e-9, ts3, "tangent-3d", "vector x");
      c.near(v.y(), g[1], 1e-9, ts3, "tangent-3d", "vector y");
      c.near(v.z(), g[2], 1e-9, ts3, "tangent-3d", "vector z");
      v = k.Tension(t, dir);
      c.near(v.x(), T * g[0], 1e-9, ts3 * T, "tension-3d", "tension x");
      c.near(v.y(), T * g[1], 1e-9, ts3 * T, "tension-3d", "tension y");
      c.near(v.z(), T * g[2], 1e-9, ts3 * T, "tension-3d", "tension z");
      const double gz = g[2], gy = g[1], gx = g[0];
      c.near(k.TangentAngleVertical(t, dir), gen::deg(std::atan2(gz, std::fabs(gx))),
             1e-9, 1e-7 + 100 * ts3, "tangent-angle-3d", "vertical angle");
      const double m = std::hypot(gy, gz);
      if (m > 1e-4) {
        c.near(k.TangentAngleTransverse(t, dir),
               gen::deg(std::atan2(std::fabs(gy), std::fabs(gz))), 1e-9,
               1e-7 + 100 * ts3 / m, "tangent-angle-3d", "transverse angle");
      }
    }
  }
  c.event(wy > 0 ? (b != 0 ? "catenary3d_inclined_blown" : "catenary3d_level_blown")
                 : "catenary3d_still");
}

void mon::RunCase(Ctx& c) {
  Rng& r = c.rng;
  Catenary2d k2;
  Catenary3d k3;
  const int rounds = r.i(1, 4);
  double a = 0, b = 0, H = 0, wy = 0, wz = 0;
  int side = 1;
  std::array<double, 5> a0 = {};
  for (int round = 0; round < rounds; round++) {
    const bool all = round == 0;
    const int what = r.i(0, 3);
    if (all || what == 0) {
      a = r.p(0.1) ? r.i(1, 50) * 100 : r.logu(5, 5000);
      b = r.p(0.25) ? 0 : a * (r.p(0.8) ? r.uni(-0.5, 0.5) : r.uni(-2, 2));
      if (std::fabs(b) > 1900) b = 1900 * (b < 0 ? -1 : 1);
    }
    if (all || what == 1) {
      wz = r.logu(0.05, 8);
      wy = r.p(0.3) ? 0 : wz * r.logu(1e-3, 4);
    }
    if (all || what == 2) {
      side = r.p(0.5) ? 1 : -1;
    }
    const double cmin = std::hypot(a, b) / 2;
    double wmag = std::hypot(wy, wz);
    const double cc = r.p(0.1) ? 1.0000001
                               : (r.p(0.7) ? r.logu(1.001, 100) : r.logu(1, 1e5));
    if (round > 0 && r.p(0.4)) {
      // a small change of one input, everything else as it was
      double na = a0[0], nb = a0[1], nH = a0[2], ny = a0[3], nz = a0[4];
      switch (r.i(0, 4)) {
        case 0: na = gen::Nudge(r, na); break;
        case 1: nb = gen::Nudge(r, nb); break;
        case 2: nH = gen::Nudge(r, nH); break;
        case 3: ny = std::fabs(gen::Nudge(r, ny)); break;
        default: nz = std::fabs(gen::Nudge(r, nz)); break;
      }
      if (na > 1 && std::fabs(nb) < 1900 && nz > 0.01 &&
          nH > std::hypot(na, nb) / 2 * std::hypot(ny, nz) * 1.0000001) {
        a = na, b = nb, H = nH, wy = ny, wz = nz;
        c.event("small_changes");
      } else {
        a = a0[0], b = a0[1], H = a0[2], wy = a0[3], wz = a0[4];
      }
    } else {
      H = cc * cmin * wmag;
    }
    a0 = {a, b, H, wy, wz};
    // setters in any order, results read in between
    int order[4] = {0, 1, 2, 3};
    for (int i = 3; i > 0; i--) std::swap(order[i], order[r.i(0, i)]);
    for (int i : order) {
      if (i == 0) {
        k2.set_spacing_endpoints(Vector2d(a, b));
        k3.set_spacing_endpoints(Vector3d(a, 0, b));
      } else if (i == 1) {
        k2.set_weight_unit(wz);
        k3.set_weight_unit(Vector3d(0, wy, wz));
      } else if (i == 2) {
        k2.set_tension_horizontal(H);
        k3.set_tension_horizontal(H);
      } else {
        k3.set_direction_transverse(side > 0 ? kPos : kNeg);
      }
      if (round > 0 && r.p(0.4)) {
        Poke(r, k2);
        Poke(r, k3);
        c.event("reads_between_setters");
      }
    }
    c.clear_note();
    c.note("a=%.17g b=%.17g H=%.17g wy=%.17g wz=%.17g side=%d round=%d", a, b, H,
           wy, wz, side, round);
    c.distinct(mon::hashd(mon::hashd(mon::hashd(1, a), b), H / wz));
    if (c.want_sample()) {
      c.sample(fmt("a=%.6g b=%.6g H=%.6g wy=%.4g wz=%.4g side=%d", a, b, H, wy,
                   wz, side));
    }
    Catenary2d copy = k2;
    c.check(k2.Validate(true, nullptr) && copy.Validate(false, nullptr), "validate",
            "a valid 2D catenary was rejected");
    std::list<ErrorMessage> msg;
    const bool valid = k3.Validate(true, &msg);
    c.check(valid, "validate", "a valid 3D catenary was rejected: %s",
            msg.empty() ? "" : msg.front().description.c_str());
    Check2d(c, k2, a, b, H, wz);
    Check3d(c, k3, a, b, wy, wz, H, side);
    c.near(Catenary3d::ConstantMinimum(a), a / 2, 1e-15, 0, "constant-minimum", "");
    c.near(Catenary2d::ConstantMinimum(a), a / 2, 1e-15, 0, "constant-minimum", "");
  }
}
