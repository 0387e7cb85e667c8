// C18: heat balance of a conductor at a steady temperature.
#include "ref_thermal.h"

#include "models/thermalrating/steady_cable_current_solver.h"
#include "models/thermalrating/steady_cable_temperature_solver.h"

using namespace mon;
using gen::ld;
using units::UnitSystem;

const char* mon::kTag = "C18";
const char* mon::kRule =
    "A case is a conductor with 2-6 resistance points and a weather, imperial or metric, judged by heat terms, by the "
    "current that holds a temperature and by the temperature a current brings, through a history of changes with "
    "reads in between. Distinct: conductor, weather, temperature or current.";
uint64_t mon::FixedCases() { return 4; }

namespace {

uint64_t Hash(const Cable& k, const ThermalRatingWeather& w, double x) {
  return hashd(hashd(hashd(hashd(0, k.diameter), w.speed_wind), w.temperature_air), x);
}

void JudgeTerms(Ctx& c, const CableHeatTransferSolver& s, const ThermalRatingCable& t, const ref::Bare& e) {
  for (int i = 0; i < 5; i++) {
    Rng& r = c.rng;
    double T = r.uni(-60, 250);
    if (i == 0) T = e.w->temperature_air;
    if (i == 1) {
      auto p = e.k->resistances_ac.begin();
      std::advance(p, r.i(0, (int)e.k->resistances_ac.size() - 1));
      T = p->temperature;
    }
    const double I = r.logu(1, 3000);
    c.near(s.HeatConvection(T), (double)e.Convection(T), 1e-10, 1e-12, "convection", fmt("convection at %.6g, air %.6g", T, e.w->temperature_air).c_str());
    c.near(s.HeatRadiation(T), (double)e.Radiation(T), 1e-9, 1e-9, "radiation", "radiation");
    c.near(s.HeatSolar(), (double)e.Solar(), 1e-12, 0, "solar", "solar");
    c.near(t.Resistance(T), (double)e.Resistance(T), 1e-9, 0, "resistance", fmt("resistance at %.6g", T).c_str());
    c.near(s.HeatResistance(T, I), (double)(I * I * e.Resistance(T)), 1e-9, 0, "resistive", "resistive heat");
    const double in = r.uni(-50, 50), out = r.uni(-50, 50);
    c.near(s.HeatStored(in, out), in + out, 1e-14, 0, "stored", "stored heat");
    c.event(T < e.w->temperature_air ? "colder_than_air" : "warmer_than_air");
  }
}

void JudgeState(Ctx& c, const CableHeatTransferState& q, const ref::Bare& e, double T, const char* key) {
  c.near(q.heat_convection, (double)e.Convection(T), 1e-9, 1e-11, key, "convection of the state");
  c.near(q.heat_radiation, (double)e.Radiation(T), 1e-9, 1e-9, key, "radiation of the state");
  c.near(q.heat_solar, (double)e.Solar(), 1e-12, 0, key, "solar heat of the state");
  c.check(q.heat_storage == 0, key, "heat is stored: %.10g", q.heat_storage);
  const double size = std::fabs(q.heat_convection) + std::fabs(q.heat_radiation) + q.heat_solar;
  c.near(q.heat_convection + q.heat_radiation + q.heat_solar + q.heat_resistance, 0, 0, 1e-10 * size, "balance", "heat is not balanced");
}

void JudgeCurrent(Ctx& c, const SteadyCableCurrentSolver& s, const ref::Bare& e, double T, bool state_first) {
  if (!(e.Resistance(T) > 0)) return;
  CableHeatTransferState q;
  if (state_first) q = s.StateHeatTransfer();
  const double I = s.Current();
  if (!state_first) q = s.StateHeatTransfer();
  const double room = 1e-9;
  const ld want = e.Current(T);
  c.check(std::fabs(I * std::fabs(I) - want * std::fabs(want)) <= room * (std::fabs(e.Convection(T)) + std::fabs(e.Radiation(T)) + e.Solar() + 1e-3) / e.Resistance(T),
          "current", "current at %.8g degrees: %.10g, expected %.10Lg", T, I, want);
  JudgeState(c, q, e, T, "current-state");
  c.event("currents_judged");
  c.distinct(Hash(*e.k, *e.w, T));
  if (c.want_sample()) c.sample(fmt("diameter %.4g air %.4g wind %.4g at %.5g degrees: %.6g A", e.k->diameter, e.w->temperature_air, e.w->speed_wind, T, I));
}

void JudgeTemperature(Ctx& c, const SteadyCableTemperatureSolver& s, const ref::Bare& e, double I, bool state_first) {
  CableHeatTransferState q;
  if (state_first) q = s.StateHeatTransfer();
  const double T = s.TemperatureCable();
  if (!state_first) q = s.StateHeatTransfer();
  const ld want = e.Temperature(I);
  if (c.verbose) printf("case I %.8g T %.8g want %.8Lg air %.6g wind %.4g sun %.4g\n", I, T, want, e.w->temperature_air, e.w->speed_wind, e.w->radiation_solar);
  if (want < e.w->temperature_air - 60 || want > 500) {
    c.event("beyond_table");
    return;
  }
  if (!c.check(T != -999999, "solvable", "%.8g A hold %.8Lg degrees, reported unsolvable", I, want)) return;
  c.near(T, (double)want, 0, 0.12, "temperature", fmt("temperature of %.8g A", I).c_str());
  JudgeState(c, q, e, T, "temperature-state");
  c.event("temperatures_judged");
  if (e.w->temperature_air > T) c.event("cooled_below_air");
  c.distinct(Hash(*e.k, *e.w, I));
}

}  // namespace

void mon::RunCase(Ctx& c) {
  Rng& r = c.rng;
  bool metric = r.p(0.5);
  Cable k = gen::ThermalCable(r, metric);
  ThermalRatingWeather w = gen::RandomThermalWeather(r, metric);
  ThermalRatingCable t;
  t.set_cable_base(&k);
  // the same conditions in the other units
  Cable k2 = k;
  ThermalRatingWeather w2 = w;
  ThermalRatingCable t2;
  t2.set_cable_base(&k2);
  auto Units = [&]() { return metric ? UnitSystem::kMetric : UnitSystem::kImperial; };

  CableHeatTransferSolver h;
  SteadyCableCurrentSolver a;
  SteadyCableTemperatureSolver b;
  h.set_cable(&t);
  h.set_units(Units());
  h.set_weather(&w);
  double T = r.uni(-20, 200), I = r.p(0.05) ? 0 : r.logu(1, 3000);
  auto Amps = [&]() {
    // a current that brings a temperature
    ref::Bare e = {&k, &w, metric};
    const double to = w.temperature_air + (r.p(0.1) ? r.uni(-15, 0) : r.logu(0.5, 250));
    if (e.Resistance(to) > 0 && !r.p(0.1)) I = (double)e.Current(to);
    else I = r.p(0.3) ? 0 : r.logu(0.1, 500);
    if (r.p(0.15)) I = 0;
  };
  Amps();
  a.set_cable(&t);
  a.set_weather(&w);
  a.set_units(Units());
  a.set_temperature_cable(T);
  b.set_cable(&t);
  b.set_weather(&w);
  b.set_units(Units());
  b.set_current(I);
  std::vector<std::unique_ptr<ThermalRatingWeather>> weathers;
  const ThermalRatingWeather* now = &w;
  for (int i = 0, n = r.i(1, 5); i <= n; i++) {
    const ref::Bare e = {&k, now, metric};
    if (i == n || r.p(0.7)) {
      JudgeTerms(c, h, t, e);
      JudgeCurrent(c, a, e, T, r.p(0.5));
      JudgeTemperature(c, b, e, I, r.p(0.5));
      c.check(a.Validate(false, nullptr) && h.Validate(false, nullptr), "accepted", "a complete solver is rejected");
      if (i < n) c.event("reads_between_setters");
    }
    if (i == n) break;
    switch (r.i(0, 6)) {
      case 0:
        T = r.p(0.4) ? gen::Nudge(r, T) : r.uni(-20, 200);
        a.set_temperature_cable(T);
        break;
      case 1:
        if (r.p(0.4)) I = gen::Nudge(r, I), c.event("small_changes");
        else Amps();
        b.set_current(I);
        break;
      case 2: {  // another weather object
        weathers.emplace_back(new ThermalRatingWeather(r.p(0.5) ? gen::RandomThermalWeather(r, metric) : *now));
        weathers.back()->temperature_air += r.uni(-1, 1);
        now = weathers.back().get();
        h.set_weather(now);
        a.set_weather(now);
        b.set_weather(now);
        c.event("weather_replaced");
        break;
      }
      case 3:  // the same object, changed
        if (now == &w) {
          w.speed_wind = r.p(0.3) ? 0 : r.uni(0, metric ? 6 : 20);
          w.radiation_solar = r.uni(0, metric ? 1200 : 110);
          h.set_weather(now);
          a.set_weather(now);
          b.set_weather(now);
        }
        break;
      case 4: {
        // other units: the numbers mean something else
        if (now != &w) break;
        metric = !metric;
        gen::Convert(&k, &w, metric);
        h.set_units(Units());
        a.set_units(Units());
        b.set_units(Units());
        c.event("units_changed");
        break;
      }
      case 5:
        k = gen::ThermalCable(r, metric);
        h.set_cable(&t);
        a.set_cable(&t);
        b.set_cable(&t);
        c.event("cable_changed");
        break;
      default: {
        std::list<ErrorMessage> m;
        a.Validate(r.p(0.5), &m);
        b.Validate(r.p(0.5), &m);
      }
    }
  }
  const ref::Bare e = {&k, now, metric};
  // one solver undoes the other
  if (e.Resistance(T) > 0 && e.Current(T) == e.Current(T)) {
    const double hold = a.Current();
    if (std::fabs(e.Temperature(hold) - T) < 0.02L) {
      SteadyCableTemperatureSolver z;
      z.set_cable(&t);
      z.set_units(Units());
      z.set_weather(now);
      z.set_current(hold);
      c.near(z.TemperatureCable(), T, 0, 0.12, "inverse", fmt("temperature of the current that holds %.8g", T).c_str());
      c.event("round_trips");
    }
  }
  // both unit systems describe the same conductor
  if (now == &w) {
    k2 = k;
    w2 = w;
    gen::Convert(&k2, &w2, !metric);
    CableHeatTransferSolver o;
    o.set_cable(&t2);
    o.set_weather(&w2);
    o.set_units(metric ? UnitSystem::kImperial : UnitSystem::kMetric);
    const double f = metric ? 1 / 0.3048 : 0.3048;
    const double x = std::max(0.0, T);
    if (std::fabs(x - w.temperature_air) > 1 && w.elevation < (metric ? 3000 : 10000)) {
      c.near(o.HeatConvection(x), h.HeatConvection(x) / f, 0.015, 0, "units-agree", "convection in the other units");
      c.near(o.HeatRadiation(x), h.HeatRadiation(x) / f, 0.015, 0, "units-agree", "radiation in the other units");
      c.near(o.HeatSolar(), h.HeatSolar() / f, 1e-9, 0, "units-agree", "solar heat in the other units");
      c.event("unit_systems_compared");
    }
  }
}
