// C23: unit conversion, vectors, polynomials, shapes and text helpers against
// independent references in extended precision.
#include "gen.h"

#include "models/base/geometric_shapes.h"
#include "models/base/helper.h"
#include "models/base/point.h"
#include "models/base/polynomial.h"
#include "models/base/units.h"
#include "models/base/vector.h"

using gen::ld;
using mon::Ctx;
using mon::Rng;

namespace mon {
const char* kTag = "base";
const char* kRule =
    "each case draws one batch of conversions, vector angle/rotation/scale "
    "operations, polynomial evaluations and inversions, shape and string "
    "helper calls (axis-aligned, tiny, huge and near-wrap inputs included) and "
    "compares every answer with an independent extended-precision or "
    "hand-written reference; a case is non-trivial when its hash of inputs is "
    "new";
uint64_t FixedCases() { return 40; }
}  // namespace mon

static double Val(Rng& r) {
  switch (r.i(0, 6)) {
    case 0: return 0;
    case 1: return r.uni(-1, 1);
    case 2: return r.uni(-1000, 1000);
    case 3: return r.logu(1e-12, 1e-3) * (r.p(0.5) ? 1 : -1);
    case 4: return r.logu(1e3, 1e9) * (r.p(0.5) ? 1 : -1);
    case 5: return r.i(-20, 20);
    default: return r.logu(1e-3, 1e3) * (r.p(0.5) ? 1 : -1);
  }
}

template <class T>
struct Conv {
  T type;
  T inverse;
  ld scale, shift;
};

static ld ipow(ld b, int e) {
  ld v = 1;
  for (int i = 0; i < (e < 0 ? -e : e); i++) v *= b;
  return e < 0 ? 1 / v : v;
}

static void Units(Ctx& c) {
  Rng& r = c.rng;
  using namespace units;
  typedef LengthConversionType L;
  static const Conv<L> lengths[] = {
      {L::kCentimetersToMeters, L::kMetersToCentimeters, 0.01L, 0},
      {L::kFeetToInches, L::kInchesToFeet, 12, 0},
      {L::kFeetToMeters, L::kMetersToFeet, 0.3048L, 0},
      {L::kFeetToMiles, L::kMilesToFeet, 1 / (ld)5280, 0},
      {L::kInchesToFeet, L::kFeetToInches, 1 / (ld)12, 0},
      {L::kKilometersToMeters, L::kMetersToKilometers, 1000, 0},
      {L::kMetersToCentimeters, L::kCentimetersToMeters, 100, 0},
      {L::kMetersToFeet, L::kFeetToMeters, 1 / 0.3048L, 0},
      {L::kMetersToKilometers, L::kKilometersToMeters, 0.001L, 0},
      {L::kMetersToMillimeters, L::kMillimetersToMeters, 1000, 0},
      {L::kMilesToFeet, L::kFeetToMiles, 5280, 0},
      {L::kMillimetersToMeters, L::kMetersToMillimeters, 0.001L, 0}};
  typedef StressConversionType S;
  // one pound-force per square foot is 47.880259 Pa
  static const Conv<S> stresses[] = {
      {S::kMegaPascalToPascal, S::kPascalToMegaPascal, 1e6L, 0},
      {S::kPascalToMegaPascal, S::kMegaPascalToPascal, 1e-6L, 0},
      {S::kPascalToPsf, S::kPsfToPascal, 1 / 47.880259L, 0},
      {S::kPsfToPascal, S::kPascalToPsf, 47.880259L, 0},
      {S::kPsfToPsi, S::kPsiToPsf, 1 / (ld)144, 0},
      {S::kPsiToPsf, S::kPsfToPsi, 144, 0}};
  typedef TemperatureConversionType T;
  static const Conv<T> temps[] = {
      {T::kCelsiusToFahrenheit, T::kFahrenheitToCelsius, 1.8L, 32},
      {T::kCelsiusToKelvin, T::kKelvinToCelsius, 1, 273.15L},
      {T::kFahrenheitToCelsius, T::kCelsiusToFahrenheit, 1 / 1.8L, -32 / 1.8L},
      {T::kFahrenheitToRankine, T::kRankineToFahrenheit, 1, 459.67L},
      {T::kKelvinToCelsius, T::kCelsiusToKelvin, 1, -273.15L},
      {T::kKelvinToRankine, T::kRankineToKelvin, 1.8L, 0},
      {T::kRankineToFahrenheit, T::kFahrenheitToRankine, 1, -459.67L},
      {T::kRankineToKelvin, T::kKelvinToRankine, 1 / 1.8L, 0}};
  typedef ForceConversionType F;
  static const Conv<F> forces[] = {
      {F::kNewtonsToPounds, F::kPoundsToNewtons, 1 / 4.4482216152605L, 0},
      {F::kPoundsToNewtons, F::kNewtonsToPounds, 4.4482216152605L, 0}};
  typedef AngleConversionType A;
  static const Conv<A> angles[] = {
      {A::kDegreesToRadians, A::kRadiansToDegrees, gen::kPiL / 180, 0},
      {A::kRadiansToDegrees, A::kDegreesToRadians, 180 / gen::kPiL, 0}};

  const double v = Val(r);
  const int e = r.p(0.4) ? 1 : r.i(-3, 4);
  const bool num = r.p(0.6);
  const ld sgn = num ? 1 : -1;
  auto lin = [&](const char* key, double got, double back, ld scale,
                 ld reltol) {
    const ld f = num ? ipow(scale, e) : 1 / ipow(scale, e);
    c.near(got, (double)(v * f), (double)reltol, 0, key, key);
    c.near(back, v, 1e-12, 0, "units.round_trip", key);
  };
  (void)sgn;
  for (const auto& k : lengths) {
    double g = ConvertLength(v, k.type, e, num);
    lin("units.length", g, ConvertLength(g, k.inverse, e, num), k.scale, 1e-12);
  }
  for (const auto& k : stresses) {
    double g = ConvertStress(v, k.type, e, num);
    lin("units.stress", g, ConvertStress(g, k.inverse, e, num), k.scale,
        1e-6 * (std::abs(e) + 1));
  }
  for (const auto& k : forces) {
    double g = ConvertForce(v, k.type, e, num);
    lin("units.force", g, ConvertForce(g, k.inverse, e, num), k.scale, 1e-12);
  }
  for (const auto& k : angles) {
    double g = ConvertAngle(v, k.type, e, num);
    lin("units.angle", g, ConvertAngle(g, k.inverse, e, num), k.scale, 1e-12);
  }
  for (const auto& k : temps) {
    double g = ConvertTemperature(v, k.type);
    c.near(g, (double)(v * k.scale + k.shift), 1e-12, 1e-9, "units.temperature",
           "temperature");
    c.near(ConvertTemperature(g, k.inverse), v, 1e-12, 1e-9 + 1e-12 * 500,
           "units.round_trip", "temperature");
    if (k.shift == 0) {  // a scale, so exponents apply
      double h = ConvertTemperature(v, k.type, e, num);
      lin("units.temperature_scale", h,
          ConvertTemperature(h, k.inverse, e, num), k.scale, 1e-12);
    }
  }
  c.check(ConvertLength(v, L::kNull) == -999999 &&
              ConvertStress(v, S::kNull) == -999999 &&
              ConvertForce(v, F::kNull) == -999999 &&
              ConvertAngle(v, A::kNull) == -999999 &&
              ConvertTemperature(v, T::kNull) == -999999,
          "units.null", "null conversion of %g is not the sentinel", v);
  c.event("unit_conversions", 32);
}

static ld RefAngle(ld x, ld y) {
  ld a = gen::deg(std::atan2(y, x));
  if (a < 0) a += 360;
  return a;
}

static void Vectors(Ctx& c) {
  Rng& r = c.rng;
  double x = Val(r), y = Val(r), z = Val(r);
  if (r.p(0.1)) y = -r.logu(1e-18, 1e-12) * std::fabs(x);
  if (r.p(0.1)) y = x * (r.p(0.5) ? 1 : -1);
  c.note("vector %.17g %.17g %.17g", x, y, z);
  Vector2d v(x, y);
  if (x != 0 || y != 0) {
    const double a = v.Angle();
    c.check(0 <= a && a < 360, "vector.angle_range", "angle %.17g of (%g,%g)",
            a, x, y);
    c.check(std::fabs((double)gen::adiff(a, RefAngle(x, y))) < 1e-9,
            "vector.angle", "angle %.17g of (%.17g,%.17g) expected %.17Lg", a,
            x, y, RefAngle(x, y));
    const double s = v.Angle(true);
    c.check(-180 <= s && s <= 180 &&
                std::fabs((double)gen::adiff(s, RefAngle(x, y))) < 1e-9,
            "vector.angle_signed", "signed angle %.17g of (%g,%g)", s, x, y);
  } else {
    c.check(v.Angle() == -999999, "vector.angle_zero",
            "zero vector angle %g", v.Angle());
  }
  const ld m = std::sqrt((ld)x * x + (ld)y * y);
  c.near(v.Magnitude(), (double)m, 1e-12, 0, "vector.magnitude", "magnitude");
  const double rot = r.p(0.1) ? (r.p(0.5) ? 1 : -1) * r.logu(6e-5, 1e-2)
                     : r.p(0.3) ? r.i(-8, 8) * 45.0 : r.uni(-720, 720);
  Vector2d w = v;
  w.Rotate(rot);
  const ld co = std::cos(gen::rad(rot)), si = std::sin(gen::rad(rot));
  const double tol = 2e-6 * (std::fabs(rot) < 1e-4 ? 1 : 1e-4) * (double)m;
  c.near(w.x(), (double)(x * co - y * si), 1e-9, tol + 1e-300, "vector.rotate",
         "x after rotation");
  c.near(w.y(), (double)(x * si + y * co), 1e-9, tol + 1e-300, "vector.rotate",
         "y after rotation");
  const double f = Val(r);
  w = v;
  w.Scale(f);
  c.check(w.x() == x * f && w.y() == y * f, "vector.scale", "scale by %g", f);

  // 3d: a plane names two axes, the third component is untouched
  static const Plane2dType planes[] = {Plane2dType::kXy, Plane2dType::kXz,
                                       Plane2dType::kYx, Plane2dType::kYz,
                                       Plane2dType::kZx, Plane2dType::kZy};
  static const int axis[][2] = {{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}};
  const int k = r.i(0, 5);
  double p[3] = {x, y, z};
  Vector3d t(x, y, z);
  const double h = p[axis[k][0]], q = p[axis[k][1]];
  if (h != 0 || q != 0) {
    const double a = t.Angle(planes[k]);
    c.check(0 <= a && a < 360 &&
                std::fabs((double)gen::adiff(a, RefAngle(h, q))) < 1e-9,
            "vector3d.angle", "plane %d angle %.17g", k, a);
    const double s = t.Angle(planes[k], true);
    c.check(-180 <= s && s <= 180 &&
                std::fabs((double)gen::adiff(s, RefAngle(h, q))) < 1e-9,
            "vector3d.angle_signed", "plane %d signed angle %.17g", k, s);
  }
  c.near(t.Magnitude(), (double)std::sqrt((ld)x * x + (ld)y * y + (ld)z * z),
         1e-12, 0, "vector3d.magnitude", "magnitude");
  Vector3d u = t;
  u.Rotate(planes[k], rot);
  double g[3] = {u.x(), u.y(), u.z()};
  const ld mm = std::sqrt((ld)h * h + (ld)q * q);
  const double tol3 =
      2e-6 * (std::fabs(rot) < 1e-4 ? 1 : 1e-4) * (double)mm + 1e-300;
  c.near(g[axis[k][0]], (double)(h * co - q * si), 1e-9, tol3,
         "vector3d.rotate", "first axis");
  c.near(g[axis[k][1]], (double)(h * si + q * co), 1e-9, tol3,
         "vector3d.rotate", "second axis");
  const int rest = 3 - axis[k][0] - axis[k][1];
  c.check(g[rest] == p[rest], "vector3d.rotate_third",
          "component outside the plane moved from %.17g to %.17g", p[rest],
          g[rest]);
  u = t;
  u.Scale(f);
  c.check(u.x() == x * f && u.y() == y * f && u.z() == z * f, "vector3d.scale",
          "scale by %g", f);
  u.Rotate(Plane2dType::kNull, rot);
  c.check(t.Angle(Plane2dType::kNull) == -999999 && u.x() == x * f,
          "vector3d.null_plane", "null plane");
  c.event("vector_operations", 9);
}

static void Polynomials(Ctx& c) {
  Rng& r = c.rng;
  std::vector<double> k;
  const int n = r.i(1, 7);
  for (int i = 0; i < n; i++) k.push_back(Val(r));
  Polynomial p(&k);
  c.check(p.OrderMax() == n - 1, "polynomial.order", "order %d of %d coeffs",
          p.OrderMax(), n);
  auto ref = [&](const std::vector<double>& q, ld x, ld* size) {
    ld y = 0, t = 1;
    *size = 0;
    for (double v : q) {
      y += v * t;
      *size += std::fabs(v * t);
      t *= x;
    }
    return y;
  };
  std::vector<double> d;
  for (int i = 1; i < n; i++) d.push_back(k[i] * i);
  for (int j = 0; j < 4; j++) {
    const double x = r.p(0.2) ? 0 : r.uni(-20, 20);
    ld size;
    ld y = ref(k, x, &size);
    c.near(p.Y(x), (double)y, 0, (double)(1e-12L * size), "polynomial.y", "y");
    if (n > 1) {
      y = ref(d, x, &size);
      c.near(p.Slope(x), (double)y, 0, (double)(1e-12L * size),
             "polynomial.slope", "slope");
      Polynomial der = p.Derivative();
      c.near(der.Y(x), (double)y, 0, (double)(1e-12L * size),
             "polynomial.derivative", "derivative");
      Polynomial cp = p;
      c.near(cp.Slope(x), (double)y, 0, (double)(1e-12L * size),
             "polynomial.copy", "slope of a copy");
    }
  }
  c.check(p.Validate(r.p(0.5), nullptr), "polynomial.validate", "valid");
  // new coefficients replace the derivative too
  std::vector<double> k2 = {1, 2, 3};
  p.set_coefficients(&k2);
  c.near(p.Slope(2), 14, 1e-12, 0, "polynomial.reset", "slope after change");

  // inversion on a strictly increasing polynomial
  std::vector<double> inc = {r.uni(-5, 5), r.uni(0.5, 5), 0, r.uni(0, 2)};
  Polynomial q(&inc);
  const double x = r.uni(-3, 3);
  ld size;
  const double y = (double)ref(inc, x, &size);
  const int prec = r.i(2, 8);
  const double far = r.p(0.3) ? (r.p(0.5) ? 1 : -1) * r.logu(1, 1e5) : r.uni(-1, 1);
  const double xs = q.X(y, prec, x + far);
  const ld ys = ref(inc, xs, &size);
  c.check(std::fabs((double)(ys - y)) <= 1.01 * std::pow(10, -prec),
          "polynomial.inverse",
          "X(%.17g,%d)=%.17g maps to %.17Lg for {%g,%g,0,%g}", y, prec, xs, ys,
          inc[0], inc[1], inc[3]);
  c.event("polynomial_evaluations", 8);
}

static void Shapes(Ctx& c) {
  Rng& r = c.rng;
  Cylinder s;
  const double d = Val(r), l = Val(r);
  s.set_diameter(d);
  s.set_length(l);
  c.near(s.AreaCrossSection(), (double)(gen::kPiL / 4 * d * d), 1e-12, 0,
         "shape.area", "area");
  c.near(s.Volume(), (double)(gen::kPiL / 4 * d * d * l), 1e-12, 0,
         "shape.volume", "volume");
  c.event("shapes");
}

static std::string Str(Rng& r, int n, const char* alphabet) {
  std::string s;
  const int m = std::strlen(alphabet);
  for (int i = 0; i < n; i++) s += alphabet[r.i(0, m - 1)];
  return s;
}

static int RefCompare(const std::string& a, const std::string& b) {
  std::string x, y;
  for (char ch : a) x += (ch >= 'A' && ch <= 'Z') ? ch + 32 : ch;
  for (char ch : b) y += (ch >= 'A' && ch <= 'Z') ? ch + 32 : ch;
  const int v = x.compare(y);
  return v < 0 ? -1 : v > 0 ? 1 : 0;
}

static void Helpers(Ctx& c) {
  Rng& r = c.rng;
  const char* al = "abABzZ019 _-";
  std::string a = Str(r, r.i(0, 6), al), b = Str(r, r.i(0, 6), al);
  if (r.p(0.4)) b = a + (r.p(0.5) ? Str(r, r.i(0, 2), al) : "");
  if (r.p(0.2)) {
    b = a;
    for (char& ch : b) ch = r.p(0.5) ? std::toupper(ch) : std::tolower(ch);
  }
  const int got = helper::CompareStrings(a, b);
  c.check(got == RefCompare(a, b), "helper.compare",
          "CompareStrings(\"%s\",\"%s\") = %d expected %d", a.c_str(),
          b.c_str(), got, RefCompare(a, b));
  c.check(helper::CompareStrings(b, a) == -got, "helper.compare_antisymmetric",
          "\"%s\" \"%s\"", a.c_str(), b.c_str());

  const double v = Val(r);
  const int prec = r.i(0, 9);
  c.check(helper::DoubleToString(v, prec, true) == mon::fmt("%.*f", prec, v),
          "helper.to_string", "fixed %.17g %d gives %s", v, prec,
          helper::DoubleToString(v, prec, true).c_str());
  c.check(helper::DoubleToString(v, prec) ==
              mon::fmt("%.*g", prec == 0 ? 1 : prec, v),
          "helper.to_string", "general %.17g %d gives %s", v, prec,
          helper::DoubleToString(v, prec).c_str());

  std::string num = mon::fmt(r.p(0.5) ? "%.6g" : "%.3e", v);
  c.check(helper::IsNumeric(num), "helper.numeric", "\"%s\" is numeric",
          num.c_str());
  // blanks around a number do not belong to it
  const std::string padded = std::string(r.i(0, 2), ' ') + num +
                             std::string(r.i(0, 2), ' ');
  c.check(helper::IsNumeric(padded), "helper.numeric", "\"%s\" is numeric",
          padded.c_str());
  std::string bad = num + (r.p(0.5) ? "x" : " q");
  c.check(!helper::IsNumeric(bad), "helper.numeric", "\"%s\" is not numeric",
          bad.c_str());
  bad = (r.p(0.5) ? "y" : "--") + num;
  c.check(!helper::IsNumeric(bad) && !helper::IsNumeric(""), "helper.numeric",
          "\"%s\" is not numeric", bad.c_str());

  const double x1 = r.uni(-100, 100), x2 = x1 + r.logu(0.01, 100);
  const double y1 = r.uni(-100, 100), y2 = r.uni(-100, 100);
  const double t = r.p(0.3) ? (r.p(0.5) ? 0 : 1) : r.uni(-2, 3);
  const ld slope = ((ld)y2 - y1) / ((ld)x2 - x1);
  const double x = x1 + t * (x2 - x1);
  c.near(helper::LinearY(x1, y1, x2, y2, x),
         (double)(y1 + slope * ((ld)x - x1)), 1e-10, 1e-9, "helper.linear",
         "interpolated y");

  std::string s = Str(r, r.i(0, 8), "ab,");
  std::list<std::string> parts = helper::Parse(s, ',');
  std::string j;
  bool first = true, clean = true;
  for (const auto& q : parts) {
    if (!first) j += ',';
    first = false;
    j += q;
    if (q.find(',') != std::string::npos) clean = false;
  }
  c.check(clean && (j == s || j + "," == s), "helper.parse",
          "\"%s\" parses to \"%s\" in %d parts", s.c_str(), j.c_str(),
          (int)parts.size());
  size_t commas = 0;
  for (char ch : s) commas += ch == ',';
  const size_t want =
      s.empty() ? 0 : commas + (s[s.size() - 1] == ',' ? 0 : 1);
  c.check(parts.size() == want, "helper.parse_count", "\"%s\": %d parts of %d",
          s.c_str(), (int)parts.size(), (int)want);

  const double w = r.uni(-1e4, 1e4);
  const int pr = r.i(0, 5);
  const double ro = helper::Round(w, pr);
  const ld sc = ipow(10, pr);
  c.check(std::fabs((double)((ld)ro - w)) <= (double)(0.5L / sc) * (1 + 1e-9) &&
              std::fabs((double)(ro * sc - std::round(ro * sc))) < 1e-6,
          "helper.round", "Round(%.17g,%d) = %.17g", w, pr, ro);
  const double half = r.i(-1000, 1000) + 0.5;
  c.check(helper::Round(half, 0) == (half < 0 ? half - 0.5 : half + 0.5),
          "helper.round_half", "Round(%g,0) = %g", half,
          helper::Round(half, 0));
  c.event("helper_calls", 14);
}

void mon::RunCase(Ctx& c) {
  Rng peek = c.rng;
  c.distinct(peek.next());
  if (c.case_index == 0) {
    c.check(helper::CompareStrings("a", "ab") == -1, "helper.compare",
            "\"a\" is before \"ab\"");
    c.check(Vector2d(1, -1e-20).Angle() < 360, "vector.angle_range", "wrap");
    c.check(helper::CompareStrings("\xe9", "a") == 1, "helper.compare",
            "byte above 127");
  }
  Units(c);
  for (int i = 0; i < 6; i++) Vectors(c);
  for (int i = 0; i < 3; i++) Polynomials(c);
  Shapes(c);
  for (int i = 0; i < 6; i++) Helpers(c);
  if (c.want_sample()) c.sample(c.note_.substr(0, 200));
}
