// Independent extended-precision statics of a hanging cable.
#ifndef VERIF_HARNESS_REF_H_
#define VERIF_HARNESS_REF_H_

#include "gen.h"

namespace ref {
using gen::ld;

// One cable hung over a horizontal distance a and a vertical distance b,
// horizontal tension H, unit weight w. Arc length between the supports by the
// Pythagorean form L^2 = b^2 + (2c sinh(a/2c))^2, low point by tanh(xm/c)=b/L.
struct Cat2 {
  ld a, b, H, w, c, xl, xr, L, sl;
  Cat2() {}
  Cat2(ld a_, ld b_, ld H_, ld w_) : a(a_), b(b_), H(H_), w(w_) {
    c = H / w;
    const ld s = 2 * c * std::sinh(a / (2 * c));
    L = std::sqrt(b * b + s * s);
    const ld xm = c * std::atanh(b / L);
    xl = xm - a / 2;
    xr = xm + a / 2;
    sl = c * std::sinh(xl / c);
  }
  // arc length from the low point, at a fraction of the arc length
  ld S(ld t) const { return sl + t * L; }
  ld X(ld t) const { return c * std::asinh(S(t) / c); }
  // cosh(x/c)-1 without cancellation
  ld Yx(ld x) const {
    const ld h = std::sinh(x / (2 * c));
    return 2 * c * h * h;
  }
  ld Y(ld t) const { return Yx(X(t)); }
  ld Chord(ld t) const { return Yx(xl) + (X(t) - xl) * b / a; }
  ld Sag(ld t) const { return Chord(t) - Y(t); }
  ld Slope(ld t) const { return S(t) / c; }
  ld T(ld t) const {
    const ld v = w * S(t);
    return std::sqrt(H * H + v * v);
  }
  ld FractionOfSlope(ld m) const { return (c * m - sl) / L; }
  // mean of the tension over the arc length
  ld MeanT() const {
    return H / (2 * L) *
           (a + c / 2 * (std::sinh(2 * xr / c) - std::sinh(2 * xl / c)));
  }
  ld MaxT() const { return std::max(T(0), T(1)); }
};

// The three-dimensional cable: the same curve in the plane of the chord and
// the resultant load, with the deviation from the chord swung about it.
struct Cat3 {
  ld a, b, wy, wz, w, phi, delta;
  int side;
  Cat2 p;
  Cat3() {}
  Cat3(ld a_, ld b_, ld wy_, ld wz_, ld H, int side_)
      : a(a_), b(b_), wy(wy_), wz(wz_), side(side_) {
    w = std::hypot(wy, wz);
    phi = std::atan2(wy, wz);
    const ld b2 = b * wz / w;
    const ld a2 = std::sqrt(a * a + b * b - b2 * b2);
    delta = std::atan2(b, a) - std::atan2(b2, a2);
    p = Cat2(a2, b2, H, w);
  }
  void At(ld t, ld* o) const {
    const ld u = (p.X(t) - p.xl) / p.a;  // fraction of the chord
    const ld s = p.Sag(t);
    o[0] = u * a + s * std::sin(delta);
    o[1] = side * s * std::cos(delta) * std::sin(phi);
    o[2] = u * b - s * std::cos(delta) * std::cos(phi);
  }
  void ChordAt(ld t, ld* o) const {
    const ld u = (p.X(t) - p.xl) / p.a;
    o[0] = u * a;
    o[1] = 0;
    o[2] = u * b;
  }
  // unit tangent looking up- (dir +1) or down-station (dir -1)
  void Tangent(ld t, int dir, ld* o) const {
    const ld m = p.Slope(t), q = std::sqrt(1 + m * m);
    const ld tx = dir / q, tz = dir * m / q;
    const ld x = tx * std::cos(delta) - tz * std::sin(delta);
    const ld z = tx * std::sin(delta) + tz * std::cos(delta);
    o[0] = x;
    o[1] = -side * z * std::sin(phi);
    o[2] = z * std::cos(phi);
  }
};

}  // namespace ref

#endif  // VERIF_HARNESS_REF_H_
