// Random and hostile domain objects for the monitors.
#ifndef VERIF_HARNESS_GEN_H_
#define VERIF_HARNESS_GEN_H_

#include <memory>

#include "mon.h"

#include "models/sagtension/sag_tension_cable.h"
#include "models/thermalrating/thermal_rating_cable.h"
#include "models/thermalrating/thermal_rating_weather.h"
#include "models/transmissionline/cable.h"
#include "models/transmissionline/catenary.h"
#include "models/transmissionline/hardware.h"
#include "models/transmissionline/line_cable.h"
#include "models/transmissionline/line_structure.h"
#include "models/transmissionline/structure.h"
#include "models/transmissionline/transmission_line.h"
#include "models/transmissionline/weather_load_case.h"

namespace gen {

typedef long double ld;
constexpr ld kPiL = 3.14159265358979323846264338327950288L;
inline ld rad(ld deg) { return deg * kPiL / 180; }
inline ld deg(ld r) { return r * 180 / kPiL; }
// difference of two angles in degrees, in (-180,180]
inline ld adiff(ld a, ld b) {
  ld d = std::fmod(a - b, (ld)360);
  if (d > 180) d -= 360;
  if (d <= -180) d += 360;
  return d;
}

// a value close to the given one: "changed too little to matter" is never true
inline double Nudge(mon::Rng& r, double v) {
  const double s = r.p(0.5) ? 1 : -1;
  return r.p(0.5) ? v * (1 + s * r.logu(1e-7, 2e-2)) : v + s * r.logu(1e-4, 3);
}

// the ACSR Drake cable of the project's own tests
Cable Drake();
// a one-component (all aluminium) cable
Cable Mono();
// Drake or Mono with every mechanical property varied, kept physical
Cable RandomCable(mon::Rng& r);
WeatherLoadCase RandomWeather(mon::Rng& r, bool cold = true);
ThermalRatingWeather RandomThermalWeather(mon::Rng& r, bool metric);
std::string Describe(const Cable& c);
std::string Describe(const WeatherLoadCase& w);

}  // namespace gen

#endif  // VERIF_HARNESS_GEN_H_
