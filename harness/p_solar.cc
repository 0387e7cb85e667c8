// C20: where the sun stands and what it brings to a conductor.
#include "gen.h"

#include "models/thermalrating/solar_radiation_solver.h"

using namespace mon;
using gen::ld;
using units::UnitSystem;

const char* mon::kTag = "C20";
const char* mon::kRule =
    "A case is a place, a day, a conductor direction, an atmosphere and a unit system, taken through all 24 hours and "
    "a history of changes with reads in between, including the zenith, the poles, the equator, noon and midnight. "
    "Distinct: latitude, day, direction, elevation.";
uint64_t mon::FixedCases() { return 6; }

namespace {

struct Setting {
  double azimuth, elevation, latitude;
  int day, hour;
  AtmosphereQualityType air;
  UnitSystem u;
};

ld Declination(int day) { return 23.46L * std::sin(gen::rad((284.0L + day) / 365 * 360)); }

void Judge(Ctx& c, const SolarRadiationSolver& s, const Setting& q, int order) {
  double alt = 0, az = 0, rad = 0;
  for (int i = 0; i < 3; i++) switch ((order + i) % 3) {
    case 0: alt = s.AltitudeSun(); break;
    case 1: az = s.AzimuthSun(); break;
    default: rad = s.Radiation();
  }
  if (q.air == AtmosphereQualityType::kNull || q.u == UnitSystem::kNull) {
    c.check(alt == -999999 && az == -999999 && rad == -999999, "unset", "results without an atmosphere or units");
    c.event("unset_judged");
    return;
  }
  // direction of the sun: east, north, up
  const ld d = gen::rad(Declination(q.day)), l = gen::rad(q.latitude), w = gen::rad((q.hour - 12) * 15);
  const ld E = -std::cos(d) * std::sin(w), N = std::sin(d) * std::cos(l) - std::cos(d) * std::sin(l) * std::cos(w);
  const ld U = std::sin(d) * std::sin(l) + std::cos(d) * std::cos(l) * std::cos(w);
  const ld flat = std::hypot(E, N);
  const ld ea = gen::deg(std::atan2(U, flat)), ez = gen::deg(std::atan2(E, N));
  c.near(alt, (double)ea, 0, 1e-9 + 1e-5 * (flat < 1e-4L), "altitude", fmt("altitude on day %d at %d h, latitude %.8g", q.day, q.hour, q.latitude).c_str());
  c.check(az >= -1e-9 && az <= 360 + 1e-9, "azimuth-range", "azimuth %.10g", az);
  if (flat > 1e-7L)
    c.check(std::fabs(gen::adiff(az, ez)) <= 1e-9L + 1e-12L / flat, "azimuth", "day %d, %d h, latitude %.8g: sun at %.10Lg degrees, reported %.10g",
            q.day, q.hour, q.latitude, gen::adiff(ez, 0), az);
  // published clear and industrial atmosphere curves
  static const ld k[2][2][7] = {
      {{-3.9241L, 5.9276L, -1.7856e-1L, 3.223e-3L, -3.3549e-5L, 1.8053e-7L, -3.7868e-10L},
       {4.9408L, 1.3202L, 6.1444e-2L, -2.9411e-3L, 5.07752e-5L, -4.03627e-7L, 1.22967e-9L}},
      {{-42.2391L, 63.8044L, -1.9220L, 3.46921e-2L, -3.61118e-4L, 1.94318e-6L, -4.07608e-9L},
       {53.1821L, 14.2110L, 6.6138e-1L, -3.1658e-2L, 5.4654e-4L, -4.3446e-6L, 1.3236e-8L}}};
  const bool metric = q.u == UnitSystem::kMetric;
  const ld* p = k[metric][q.air == AtmosphereQualityType::kIndustrial];
  ld Q = 0;
  for (int i = 6; i >= 0; i--) Q = Q * ea + p[i];
  if (ea < 0 || Q < 0) Q = 0;
  const ld e = q.elevation;
  Q *= metric ? 1 + 1.148e-4L * e - 1.108e-8L * e * e : 1 + 3.5e-5L * e - 1e-9L * e * e;
  const ld z = gen::rad(q.azimuth), along = E * std::sin(z) + N * std::cos(z);
  const ld sine = std::sqrt(std::max((ld)0, 1 - along * along));
  if (std::fabs(ea) > 1e-7L) {
    c.near(rad, (double)(Q * sine), 1e-8, (double)Q * (std::fabs(along) > 0.9999L ? 1e-4 : 1e-9) + 1e-9, "radiation",
           fmt("radiation on day %d at %d h, latitude %.8g, sun %.6Lg degrees high", q.day, q.hour, q.latitude, ea).c_str());
    c.check(rad >= 0, "radiation-negative", "radiation %.10g", rad);
  }
  c.event(ea < 0 ? "night" : "day");
  if (q.hour == 12 && q.latitude < Declination(q.day)) c.event("noon_sun_north");
  if (ea > 0) c.event(q.air == AtmosphereQualityType::kClear ? metric ? "clear_metric" : "clear_imperial" : metric ? "industrial_metric" : "industrial_imperial");
  c.distinct(hashd(hashd(hashd(hashd(0, q.latitude), q.day), q.azimuth), q.elevation));
  if (c.want_sample() && ea > 0)
    c.sample(fmt("day %d %d h latitude %.4g: sun %.5g high at %.5g, radiation %.5g", q.day, q.hour, q.latitude, alt, az, rad));
}

}  // namespace

void mon::RunCase(Ctx& c) {
  Rng& r = c.rng;
  Setting q;
  SolarRadiationSolver s;
  auto Latitude = [&]() {
    switch (r.i(0, 7)) {
      case 0: q.latitude = r.i(-1, 1) * 90; break;
      case 1: q.latitude = 0; break;
      case 2: q.latitude = (double)Declination(q.day); break;
      case 3: q.latitude = (double)Declination(q.day) + r.uni(-1, 1) * r.logu(1e-6, 3); break;
      default: q.latitude = r.uni(-90, 90);
    }
  };
  auto Direction = [&]() { q.azimuth = r.p(0.3) ? 90 * r.i(0, 4) : r.uni(0, 360); };
  q.day = r.p(0.1) ? r.pick(std::vector<int>{1, 81, 172, 355, 365}) : r.i(1, 365);
  q.hour = r.i(0, 23);
  q.elevation = r.p(0.2) ? 0 : r.uni(0, 9000);
  q.air = r.p(0.5) ? AtmosphereQualityType::kClear : AtmosphereQualityType::kIndustrial;
  q.u = r.p(0.5) ? UnitSystem::kMetric : UnitSystem::kImperial;
  Latitude();
  Direction();
  if (r.p(0.05)) q.air = AtmosphereQualityType::kNull;
  if (r.p(0.05)) q.u = UnitSystem::kNull;
  int first = r.i(0, 6);
  for (int i = 0; i < 7; i++) switch ((first + i) % 7) {
    case 0: s.set_azimuth_cable(q.azimuth); break;
    case 1: s.set_day(q.day); break;
    case 2: s.set_elevation(q.elevation); break;
    case 3: s.set_hour(q.hour); break;
    case 4: s.set_latitude(q.latitude); break;
    case 5: s.set_quality_atmosphere(q.air); break;
    default: s.set_units(q.u);
  }
  Judge(c, s, q, r.i(0, 2));
  // the whole day
  for (int h = 0; h < 24; h++) {
    q.hour = h;
    s.set_hour(h);
    Judge(c, s, q, r.i(0, 2));
  }
  for (int i = 0, n = r.i(2, 8); i < n; i++) {
    switch (r.i(0, 7)) {
      case 0: Direction(); s.set_azimuth_cable(q.azimuth); break;
      case 1: q.day = r.p(0.4) && q.day < 365 ? q.day + 1 : r.i(1, 365); s.set_day(q.day); break;
      case 2: q.elevation = r.p(0.5) ? std::fabs(gen::Nudge(r, q.elevation)) : r.uni(0, 9000); s.set_elevation(q.elevation); c.event("small_changes"); break;
      case 3: q.hour = r.p(0.3) ? 12 : r.i(0, 23); s.set_hour(q.hour); break;
      case 4: Latitude(); s.set_latitude(q.latitude); break;
      case 5: q.air = r.p(0.5) ? AtmosphereQualityType::kClear : AtmosphereQualityType::kIndustrial; s.set_quality_atmosphere(q.air); break;
      case 6: q.u = r.p(0.5) ? UnitSystem::kMetric : UnitSystem::kImperial; s.set_units(q.u); break;
      default: s.Validate(r.p(0.5), nullptr);
    }
    if (r.p(0.7)) {
      Judge(c, s, q, r.i(0, 2));
      c.event("reads_between_setters");
    }
  }
  c.check(s.azimuth_cable() == q.azimuth && s.day() == q.day && s.elevation() == q.elevation && s.hour() == q.hour &&
              s.latitude() == q.latitude && s.quality() == q.air && s.units() == q.u,
          "settings", "settings are not given back");
  if (q.air != AtmosphereQualityType::kNull && q.u != UnitSystem::kNull)
    c.check(s.Validate(true, nullptr), "accepted", "complete settings are rejected");
  const SolarRadiationSolver copy(s);
  if (r.p(0.5)) {
    s.set_hour((q.hour + 5) % 24);
    s.Radiation();
  }
  Judge(c, copy, q, r.i(0, 2));
}
