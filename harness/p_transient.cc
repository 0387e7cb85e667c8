// C19: how a conductor's temperature follows a step in its current.
#include "ref_thermal.h"

#include "models/thermalrating/steady_cable_temperature_solver.h"
#include "models/thermalrating/transient_cable_temperature_solver.h"

using namespace mon;
using gen::ld;
using units::UnitSystem;

const char* mon::kTag = "C19";
const char* mon::kRule =
    "A case is a conductor, a weather, a current before and after a step and a duration of up to two hours, judged "
    "second by second, and a history of changes with reads in between. Distinct: conductor, weather, both currents.";
uint64_t mon::FixedCases() { return 4; }

namespace {

void Judge(Ctx& c, const TransientCableTemperatureSolver& s, const ref::Bare& e, double before, double after, int duration) {
  const std::list<TemperaturePoint>* p = s.PointsTemperature();
  // without a temperature before the step there is nothing to start from
  SteadyCableTemperatureSolver start;
  start.set_cable(s.cable());
  start.set_weather(s.weather());
  start.set_units(s.units());
  start.set_current(before);
  if (!start.Validate(false, nullptr)) {
    c.event("no_start");
    c.check(p == nullptr && !s.Validate(false, nullptr), "no-start", "%.8g A hold no temperature, yet there are temperatures after the step",
            before);
    return;
  }
  const ld first = e.Temperature(before);
  const bool known = first > -100 && first < 500;
  if (!p) {
    c.event("unsolved");
    c.check(!s.Validate(false, nullptr), "failure-validate", "there is no result, yet validation passes");
    c.check(!known, "solvable", "%.8g A hold %.8Lg degrees, reported unsolvable", before, first);
    return;
  }
  c.check((int)p->size() == duration + 1, "duration", "%d seconds give %zu points", duration, p->size());
  if (p->empty() || !known) return;
  const ld heat = (ld)e.k->component_core.capacity_heat + e.k->component_shell.capacity_heat;
  const ld last = e.Temperature(after);
  // a second is short enough if the conductor's time constant is longer
  const ld hot = std::max(std::max(first, last), (ld)p->front().temperature) + 1, cold = std::min(first, last) - 1;
  bool slow = last > -100 && last < 500;
  for (int i = 0; i < 40 && slow; i++) {
    const ld t = cold + (hot - cold) * i / 40, d = 0.01L;
    auto net = [&](ld x) { return (after * (ld)after * e.Resistance(x) - e.Needed(x)) / heat; };
    const ld rate = (net(t + d) - net(t)) / d;
    if (rate < -0.95L || rate >= 0) slow = false;
  }
  int at = 0;
  ld prev = 0;
  bool early = false;
  for (const TemperaturePoint& q : *p) {
    if (!c.check(q.time == at, "time", "point %d is at %d seconds", at, (int)q.time)) return;
    if (at == 0) {
      c.near(q.temperature, (double)first, 0, 0.12, "start", fmt("starting temperature of %.8g A", before).c_str());
    } else {
      // beyond any conductor the formulas have no meaning
      if (std::fabs((double)prev) < 2000 && (at <= 50 || at % 37 == 0 || at == duration)) {
        const ld net = (ld)after * after * e.Resistance(prev) + e.Solar() + e.Convection(prev) + e.Radiation(prev);
        c.near(q.temperature, (double)(prev + net / heat), 1e-12, 1e-11 * (1 + std::fabs((double)(net / heat))), "heat-balance", fmt("temperature after %d seconds", at).c_str());
      }
      if (slow) {
        const ld a = prev - last, b = q.temperature - last;
        if (!c.check(std::fabs(b) <= std::fabs(a) + 1e-9L && (a * b >= 0 || std::fabs(b) < 1e-9L), "monotone",
                     "%.10Lg is followed by %.10g on the way to %.10Lg", prev, q.temperature, last))
          return;
      }
      early = early || q.temperature != prev;
    }
    prev = q.temperature;
    at++;
  }
  if (slow) c.event(last > first ? "heated_up" : "cooled_down");
  if (slow && duration > 600 && std::fabs(prev - last) < 0.05L) c.event("settled");
  c.event("histories_judged");
  c.event("seconds_recorded", p->size());
  c.distinct(hashd(hashd(hashd(hashd(0, e.k->diameter), e.w->temperature_air), before), after));
  if (c.want_sample() && duration)
    c.sample(fmt("%.5g to %.5g A for %d s: %.6g to %.6Lg degrees (steady %.6Lg)", before, after, duration, p->front().temperature, prev, last));
}

}  // namespace

void mon::RunCase(Ctx& c) {
  Rng& r = c.rng;
  bool metric = r.p(0.5);
  Cable k = gen::ThermalCable(r, metric);
  ThermalRatingWeather w = gen::RandomThermalWeather(r, metric);
  ThermalRatingCable t;
  t.set_cable_base(&k);
  auto Amps = [&](ld top) {
    const ref::Bare e = {&k, &w, metric};
    const ld to = w.temperature_air + (ld)r.logu(0.5, top);
    const ld i = e.Resistance(to) > 0 ? e.Current(to) : 0;
    return r.p(0.1) || !(i > 0) ? r.uni(0, 50) : (double)i;
  };
  auto Seconds = [&]() { return r.p(0.1) ? r.i(0, 2) : r.p(0.8) ? r.i(1, 400) : r.i(400, 7200); };
  double before = r.p(0.15) ? 0 : r.p(0.06) ? r.logu(1e3, 1e7) : Amps(120), after = r.p(0.1) ? 0 : Amps(200);
  int duration = Seconds();
  TransientCableTemperatureSolver s;
  s.set_cable(&t);
  s.set_weather(&w);
  s.set_units(metric ? UnitSystem::kMetric : UnitSystem::kImperial);
  s.set_current_steady(before);
  s.set_current_step(after);
  s.set_duration(duration);
  std::vector<std::unique_ptr<ThermalRatingWeather>> others;
  const ThermalRatingWeather* now = &w;
  for (int i = 0, n = r.i(0, 4); i <= n; i++) {
    const ref::Bare e = {&k, now, metric};
    if (i == n || r.p(0.7)) {
      Judge(c, s, e, before, after, duration);
      if (i < n) c.event("reads_between_setters");
    }
    if (i == n) break;
    switch (r.i(0, 6)) {
      case 0:
        before = r.p(0.05) ? r.logu(1e3, 1e7) : r.p(0.4) ? gen::Nudge(r, before + 1e-3) : Amps(120);
        if (before < 0) before = 0;
        s.set_current_steady(before);
        c.event("small_changes");
        break;
      case 1:
        after = r.p(0.4) ? gen::Nudge(r, after + 1e-3) : r.p(0.2) ? before : Amps(200);
        if (after < 0) after = 0;
        s.set_current_step(after);
        break;
      case 2:
        duration = r.p(0.3) ? duration + 1 : Seconds();
        s.set_duration(duration);
        break;
      case 3: {
        others.emplace_back(new ThermalRatingWeather(*now));
        others.back()->temperature_air += r.uni(-5, 5);
        now = others.back().get();
        s.set_weather(now);
        c.event("weather_replaced");
        break;
      }
      case 4: {
        if (now != &w) break;
        gen::Convert(&k, &w, !metric);
        metric = !metric;
        s.set_units(metric ? UnitSystem::kMetric : UnitSystem::kImperial);
        c.event("units_changed");
        break;
      }
      case 5:
        k.component_shell.capacity_heat *= r.uni(0.8, 1.25);
        s.set_cable(&t);
        break;
      default:
        s.Validate(r.p(0.5), nullptr);
    }
  }
  c.check(s.current_steady() == before && s.current_step() == after && s.duration() == duration && s.weather() == now && s.cable() == &t &&
              s.units() == (metric ? UnitSystem::kMetric : UnitSystem::kImperial),
          "settings", "settings are not given back");
  if (r.p(0.3)) {
    const TransientCableTemperatureSolver copy(s);
    s.set_duration(0);
    s.PointsTemperature();
    const ref::Bare e = {&k, now, metric};
    Judge(c, copy, e, before, after, duration);
    c.event("copies_judged");
  }
}
