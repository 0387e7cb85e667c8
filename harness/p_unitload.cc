// C09: unit loads and the ruling-span catenary of a line cable.
#include "ref.h"

#include "models/transmissionline/cable_unit_load_solver.h"

using gen::ld;
using mon::Ctx;
using mon::Rng;
using mon::fmt;

namespace mon {
const char* kTag = "unitload";
const char* kRule =
    "each case varies cable, weather, ruling span and constraint of one solver "
    "and one line cable 1-6 times and recomputes the unit load from cylinder "
    "volumes and the constraint's target from extended-precision statics of "
    "the returned catenary; non-trivial = a new load or constraint";
uint64_t FixedCases() { return 20; }
}  // namespace mon

typedef CableConstraint::LimitType LT;

static ld Target(LT t, ld a, ld b, const Vector3d& w, ld H) {
  const ref::Cat3 e(a, b, w.y(), w.z(), H, 1);
  switch (t) {
    case LT::kCatenaryConstant: return e.p.c;
    case LT::kHorizontalTension: return H;
    case LT::kLength: return e.p.L;
    case LT::kSag: return e.p.Sag(e.p.FractionOfSlope(e.p.b / e.p.a));
    case LT::kSupportTension: {
      // the support that is higher, the ahead one only if it is above
      return e.p.T(b <= 0 ? 0 : 1);
    }
    default: return 0;
  }
}

void mon::RunCase(Ctx& c) {
  Rng& r = c.rng;
  Cable cable = gen::RandomCable(r);
  WeatherLoadCase weather = gen::RandomWeather(r);
  WeatherLoadCase other = gen::RandomWeather(r);
  LineCable line;
  line.set_cable(&cable);
  line.set_weathercase_stretch_creep(&other);
  line.set_weathercase_stretch_load(&other);
  CableUnitLoadSolver solver;
  const int rounds = r.i(1, 6);
  for (int round = 0; round < rounds; round++) {
    if (r.p(0.5)) cable.diameter = r.logu(0.01, 0.3);
    if (r.p(0.5)) cable.weight_unit = r.logu(0.05, 5);
    if (r.p(0.7)) weather = gen::RandomWeather(r);
    if (r.p(0.1)) weather.thickness_ice = r.logu(1e-6, 0.3);
    if (r.p(0.1)) weather.pressure_wind = r.logu(1e-3, 60);
    if (r.p(0.1)) weather.density_ice = r.logu(1, 200);
    c.clear_note();
    c.note("d=%.17g w=%.17g ice=%.17g density=%.17g wind=%.17g", cable.diameter, cable.weight_unit,
           weather.thickness_ice, weather.density_ice, weather.pressure_wind);
    // unit load
    double d = cable.diameter, w = cable.weight_unit;
    solver.set_diameter_cable(&d);
    solver.set_weight_unit_cable(&w);
    const ld D = (ld)d + 2 * (ld)weather.thickness_ice, di = d;
    const ld ice = gen::kPiL / 4 * (D * D - di * di);
    const ld ev = w + ice * weather.density_ice, et = D * weather.pressure_wind;
    const Vector3d u = solver.UnitCableLoad(weather);
    c.check(u.x() == 0, "longitudinal", "longitudinal unit load %g", u.x());
    c.near(u.y(), et, 1e-13, 0, "transverse", "transverse unit load");
    const double tol = 1e-13 * (double)(D * D * weather.density_ice);
    c.near(u.z(), ev, 1e-13, tol, "vertical", "vertical unit load");
    c.check(solver.Validate(r.p(0.5), nullptr), "validate", "valid cable was rejected");
    c.check(solver.diameter_cable() == &d && solver.weight_unit_cable() == &w, "getter", "getters");
    c.event(weather.thickness_ice > 0 ? "iced_loads" : "bare_loads");
    if (r.p(0.2)) {
      // the solver reads the cable at the time of the question
      w *= 2;
      c.near(solver.UnitCableLoad(weather).z() - u.z(), w / 2, 1e-10, 10 * tol, "vertical",
             "added cable weight");
      w = -1;
      c.check(!solver.Validate(true, nullptr), "validate", "a negative weight was accepted");
      w = cable.weight_unit;
      d = 0;
      c.check(!solver.Validate(true, nullptr), "validate", "a zero diameter was accepted");
      d = cable.diameter;
    }

    // ruling span
    const ld a = (double)r.logu(100, 3000);
    const ld b = r.p(0.3) ? 0.0 : (double)((double)a * r.uni(-0.5, 0.5));
    line.set_spacing_attachments_ruling_span(Vector3d(a, 0, b));
    static const LT kinds[] = {LT::kHorizontalTension, LT::kCatenaryConstant, LT::kLength, LT::kSag,
                               LT::kSupportTension};
    CableConstraint con;
    con.case_weather = &weather;
    con.condition = r.p(0.5) ? CableConditionType::kInitial : CableConditionType::kCreep;
    con.note = "n";
    con.type_limit = kinds[r.i(0, 4)];
    const ld wt = std::hypot(et, ev), Hmin = std::hypot(a, b) / 2 * wt;
    con.limit = Target(con.type_limit, a, b, u, Hmin * (r.p(0.08) ? r.logu(0.3, 1) : r.logu(1.0, 60)));
    line.set_constraint(con);
    c.note("a=%.17g b=%.17g type=%d limit=%.17g minimum tension=%.10g", (double)a, (double)b,
           (int)con.type_limit, con.limit, (double)Hmin);
    c.distinct(mon::hashd(mon::hashd((int)con.type_limit, con.limit), weather.thickness_ice));
    if (c.want_sample()) c.sample(c.note_);
    const Catenary3d k = line.CatenaryRulingSpan();
    const Vector3d sp = k.spacing_endpoints(), kw = k.weight_unit();
    c.check(sp.x() == (double)a && sp.y() == 0 && sp.z() == (double)b, "spacing",
            "the ruling span is %g/%g/%g", sp.x(), sp.y(), sp.z());
    c.check(kw.x() == u.x() && kw.y() == u.y() && kw.z() == u.z(), "weight",
            "ruling span weight (%.17g, %.17g), unit load (%.17g, %.17g)", kw.y(), kw.z(), u.y(), u.z());
    const double H = k.tension_horizontal();
    const bool valid = k.Validate(false, nullptr);
    if (!valid) {
      const ld lo = Target(con.type_limit, a, b, u, Hmin * 1.000001L),
               hi = Target(con.type_limit, a, b, u, Hmin * 1000);
      c.check(con.limit <= std::min(lo, hi) || con.limit >= std::max(lo, hi) ||
                  (con.type_limit == LT::kSupportTension && con.limit - Hmin < 0.05) || Hmin < 1,
              "unsolved", "the limit is reachable but the ruling span is not solved (H=%.10g)", H);
      c.event("unreachable_limits");
      std::list<ErrorMessage> msg;
      c.check(!line.Validate(true, &msg) && !msg.empty(), "unsolved-validate",
              "a line cable with an unreachable constraint validates");
      continue;
    }
    const ld dH = con.type_limit == LT::kHorizontalTension ? 0 : 0.02L + 1e-9L * H;
    const ld f0 = Target(con.type_limit, a, b, u, H), f1 = Target(con.type_limit, a, b, u, H - dH),
             f2 = Target(con.type_limit, a, b, u, H + dH);
    const ld lo = std::min(f0, std::min(f1, f2)), hi = std::max(f0, std::max(f1, f2));
    const ld slack = 1e-12L * std::fabs(con.limit) + 1e-15L * H / wt;
    c.check(con.limit >= lo - slack && con.limit <= hi + slack,
            fmt("limit-%d", (int)con.type_limit).c_str(),
            "the ruling span gives %.12Lg (%.12Lg to %.12Lg), limit %.12g", f0, lo, hi, con.limit);
    c.event(fmt("ruling_spans_type_%d", (int)con.type_limit).c_str());
    if (b != 0) c.event("inclined_ruling_spans");
  }
}
