// C14: LineCableReloader and LineCableUnloader against the independent chain.
#include "line_fix.h"

#include "models/sagtension/line_cable_reloader.h"
#include "models/sagtension/line_cable_unloader.h"

using gen::ld;
using mon::Ctx;
using mon::Rng;
using mon::fmt;
using ref::PT;
using ref::State;
typedef CableConditionType CC;
typedef CableElongationModel::ComponentType CT;

namespace mon {
const char* kTag = "linereload";
const char* kRule =
    "each case drives one line cable reloader and one unloader through 1-4 "
    "settings (line cable, constraint, ruling span, weather, condition, spacing "
    "changed in any order with reads in between) and recomputes the stretch "
    "states, the reloaded catenary, the component tensions and the unloaded "
    "length through an independent chain; non-trivial = a new setting";
uint64_t FixedCases() { return 10; }
}  // namespace mon

namespace {

struct Chain {
  const gen::LineFix* f;
  SagTensionCable sag;
  Catenary3d cc;
  ref::Cat3 e0;
  State con;  // constraint state
  ld s0;      // strain of the constraint catenary
  double amp = 1;

  static State Make(const SagTensionCable& k, double temp, PT curve, const CableStretchState& x) {
    State o;
    o.s.temperature = temp;
    o.s.type_polynomial = curve;
    o.x = x;
    o.e = ref::CableCurve::Make(k, o.s, o.x);
    return o;
  }
  static CableStretchState None() {
    CableStretchState x;
    x.load = 0;
    x.temperature = 0;
    x.type_polynomial = PT::kLoadStrain;
    return x;
  }
  ref::Reloading To(const State& s, const Vector3d& w) const {
    ref::Reloading q;
    q.a = cc.spacing_endpoints().x();
    q.b = cc.spacing_endpoints().z();
    q.wy = w.y();
    q.wz = w.z();
    q.L0 = e0.p.L;
    q.s0 = s0;
    q.to = &s.e;
    return q;
  }
};

bool Steep(const State& s, ld y) { return s.e.Load(s.e.Strain(y) - 1e-6L) < y - 0.3L; }

}  // namespace

void mon::RunCase(Ctx& c) {
  Rng& r = c.rng;
  gen::LineFix fix[2];
  gen::LineFix* f = &fix[0];
  WeatherLoadCase wcon[2], wre[8];
  int used = 0;
  const WeatherLoadCase* w = nullptr;
  CC cond = CC::kNull, cond_u = CC::kNull;
  double temp_u = 0;
  Vector3d sp_u;
  LineCableReloader m;
  LineCableUnloader u;
  const int rounds = r.i(1, 4);
  for (int round = 0; round < rounds; round++) {
    const int change = round == 0 ? 15 : r.i(1, 15);
    int order[4] = {0, 1, 2, 3};
    for (int i = 3; i > 0; i--) std::swap(order[i], order[r.i(0, i)]);
    for (int i : order) {
      if (!((change >> i) & 1)) continue;
      if (i == 0) {
        const bool swap = round == 0 || r.p(0.4);
        if (swap) {
          f = &fix[round == 0 ? 0 : r.i(0, 1)];
          f->Draw(r);
          const double a = r.logu(200, 2200);
          f->line.set_spacing_attachments_ruling_span(
              Vector3d(a, 0, r.p(0.3) ? 0 : a * r.uni(-0.3, 0.3)));
        } else {
          c.event("same_line_cable_changed");
        }
        WeatherLoadCase& k = wcon[f - fix];
        CableConstraint con = f->line.constraint();
        if (swap || r.p(0.6)) {
          k = gen::RandomWeather(r);
          if (r.p(0.2)) k = f->creep;
          if (r.p(0.2)) k = f->load;
          con = f->Constraint(r, &k, r.uni(0.08, 0.5), false);
        } else if (con.limit > 0) {
          con.limit *= 1 + r.uni(-1e-4, 1e-4);
          if (con.type_limit == CableConstraint::LimitType::kLength) con.limit /= 1 - 1e-4;
          c.event("small_changes");
        }
        f->line.set_constraint(con);
        m.set_line_cable(&f->line);
        u.set_line_cable(&f->line);
      } else if (i == 1) {
        WeatherLoadCase& k = wre[used++ % 8];
        k = gen::RandomWeather(r);
        if (r.p(0.12)) {
          k.temperature_cable = r.p(0.5) ? r.uni(-49.9, -20) : r.uni(120, 300);
          c.event("extreme_reloaded_temperatures");
        }
        if (round > 0 && w != nullptr && r.p(0.3)) {
          k = *w;
          k.temperature_cable += r.uni(-0.2, 0.2);
          c.event("small_changes");
        }
        w = &k;
        m.set_weathercase_reloaded(w);
      } else if (i == 2) {
        cond = r.p(0.34) ? CC::kInitial : r.p(0.5) ? CC::kCreep : CC::kLoad;
        m.set_condition_reloaded(cond);
      } else {
        const int what = round == 0 ? 7 : r.i(1, 7);
        if (what & 1) {
          cond_u = r.p(0.34) ? CC::kInitial : r.p(0.5) ? CC::kCreep : CC::kLoad;
          u.set_condition_unloaded(cond_u);
        }
        if (what & 2) {
          temp_u = r.p(0.3) && round > 0 ? temp_u + r.uni(-0.1, 0.1)
                   : r.p(0.2)             ? (r.p(0.5) ? r.uni(-49.9, -20) : r.uni(120, 300))
                                          : r.uni(-20, 120);
          if (temp_u < -20 || 120 < temp_u) c.event("extreme_unloaded_temperatures");
          u.set_temperature_unloaded(temp_u);
        }
        if (what & 4) {
          const double a = r.logu(100, 2500);
          sp_u = Vector3d(a, 0, r.p(0.3) ? 0 : a * r.uni(-0.3, 0.3));
          u.set_spacing_attachments(sp_u);
        }
      }
      if (round > 0 && r.p(0.3)) {
        switch (r.i(0, 4)) {
          case 0: m.CatenaryReloaded(); break;
          case 1: m.StretchStateCreep(); break;
          case 2: m.TensionAverageComponent(CT::kCore); break;
          case 3: u.LengthUnloaded(); break;
          default: m.Validate(r.p(0.5), nullptr); break;
        }
        c.event("reads_between_setters");
      }
    }
    const CableConstraint con = f->line.constraint();
    c.clear_note();
    c.note("%s; span %.9g %.9g; constraint type %d cond %d limit %.17g %s; creep T=%.9g load %s; reload cond %d %s; "
           "unload cond %d T=%.9g span %.9g %.9g; round %d",
           gen::Describe(f->cable).c_str(), f->line.spacing_attachments_ruling_span().x(),
           f->line.spacing_attachments_ruling_span().z(), (int)con.type_limit, (int)con.condition,
           con.limit, gen::Describe(*con.case_weather).c_str(), f->creep.temperature_cable,
           gen::Describe(f->load).c_str(), (int)cond, gen::Describe(*w).c_str(), (int)cond_u, temp_u,
           sp_u.x(), sp_u.z(), round);
    c.distinct(mon::hashd(mon::hashd(mon::hashd((int)cond, con.limit), w->temperature_cable), temp_u));
    if (c.want_sample()) c.sample(c.note_);

    // what the reloader says, in any order of asking
    Catenary3d out;
    CableStretchState xc, xl;
    double H = 0, part[3] = {0, 0, 0}, hpart[3] = {0, 0, 0};
    const CT types[3] = {CT::kCore, CT::kShell, CT::kCombined};
    if (r.p(0.3)) m.Validate(r.p(0.5), nullptr);
    const int first = r.i(0, 4);
    for (int i = 0; i < 5; i++) switch ((first + i) % 5) {
        case 0: out = m.CatenaryReloaded(); break;
        case 1: xc = m.StretchStateCreep(); break;
        case 2: xl = m.StretchStateLoad(); break;
        case 3: H = m.TensionHorizontal(); break;
        default:
          for (int j = 0; j < 3; j++) {
            part[j] = m.TensionAverageComponent(types[j]);
            hpart[j] = m.TensionHorizontalComponent(types[j]);
          }
      }
    const double lu = u.LengthUnloaded();
    const bool failed = H == -999999;
    c.check(failed == (out.tension_horizontal() == -999999) && failed == (part[2] == -999999), "failure",
            "tension %.10g catenary %.10g combined %.10g", H, out.tension_horizontal(), part[2]);
    c.check(failed == !m.Validate(false, nullptr), "failure", "tension %.10g, validation disagrees", H);
    c.check((lu == -999999) == !u.Validate(false, nullptr), "failure", "unloaded length %.10g, validation disagrees", lu);

    Chain k;
    k.f = f;
    k.sag.set_cable_base(&f->cable);
    k.cc = f->line.CatenaryRulingSpan();
    if (!k.cc.Validate(false, nullptr)) {
      c.check(failed && lu == -999999, "failure", "a constraint that cannot be solved gives %.10g", H);
      c.event("unsolved_constraint");
      continue;
    }
    const Vector3d ccw = k.cc.weight_unit(), ccs = k.cc.spacing_endpoints();
    k.e0 = ref::Cat3(ccs.x(), ccs.z(), ccw.y(), ccw.z(), k.cc.tension_horizontal(), 1);
    const ld mean0 = ref::MeanTension(k.e0);
    const State free_creep = Chain::Make(k.sag, f->creep.temperature_cable, PT::kCreep, Chain::None());
    const State free_load = Chain::Make(k.sag, f->load.temperature_cable, PT::kLoadStrain, Chain::None());
    auto constraint_state = [&](double stretch) {
      CableStretchState x = Chain::None();
      if (con.condition == CC::kCreep) {
        x.load = stretch;
        x.temperature = f->creep.temperature_cable;
        x.type_polynomial = PT::kCreep;
      } else if (con.condition == CC::kLoad) {
        x.load = stretch;
        x.temperature = f->load.temperature_cable;
      }
      return Chain::Make(k.sag, con.case_weather->temperature_cable, PT::kLoadStrain, x);
    };
    const Vector3d wc = gen::UnitLoad(f->cable, f->creep), wl = gen::UnitLoad(f->cable, f->load),
                   wr = gen::UnitLoad(f->cable, *w);
    if (failed) {
      // a failure is right when some link of the chain has no solution
      bool all = true;
      ld X = 0;
      if (con.condition != CC::kInitial) {
        const State& to = con.condition == CC::kCreep ? free_creep : free_load;
        const Vector3d& wt = con.condition == CC::kCreep ? wc : wl;
        auto res = [&](ld x, bool* ok) {
          k.con = constraint_state((double)x);
          k.s0 = k.con.e.Strain(mean0);
          ref::Reloading q = k.To(to, wt);
          ld h = 0;
          *ok = q.Solve(&h);
          return *ok ? ref::MeanTension(q.At(h)) - x : 0;
        };
        bool ok1, ok2;
        ld lo = 0, hi = f->cable.strength_rated;
        const ld r0 = res(lo, &ok1), r1 = res(hi, &ok2);
        if (!ok1 || !ok2 || r0 < 0 || r1 > 0) all = false;
        for (int i = 0; all && i < 30; i++) {
          const ld mid = (lo + hi) / 2;
          bool ok;
          (res(mid, &ok) > 0 ? lo : hi) = mid;
          all = all && ok;
        }
        X = (lo + hi) / 2;
      }
      if (all) {
        k.con = constraint_state((double)X);
        k.s0 = k.con.e.Strain(mean0);
        ld h;
        for (int i = 0; i < 2; i++) {
          ref::Reloading q = k.To(i ? free_load : free_creep, i ? wl : wc);
          if (!q.Solve(&h)) all = false;
        }
        if (all) {
          // the stretched reload too
          CableStretchState x = Chain::None();
          ref::Reloading q = k.To(cond == CC::kLoad ? free_load : free_creep, cond == CC::kLoad ? wl : wc);
          q.Solve(&h);
          if (cond != CC::kInitial) {
            x.load = (double)ref::MeanTension(q.At(h));
            x.temperature = cond == CC::kLoad ? f->load.temperature_cable : f->creep.temperature_cable;
            x.type_polynomial = cond == CC::kLoad ? PT::kLoadStrain : PT::kCreep;
          }
          const State s = Chain::Make(k.sag, w->temperature_cable, PT::kLoadStrain, x);
          ref::Reloading last = k.To(s, wr);
          if (!last.Solve(&h) || s.e.amp > 100 || k.con.e.amp > 100) all = false;
        }
      }
      c.check(!all, "no-solution", "reported failure, but every link of the chain has a solution (stretch %.10g)", (double)X);
      c.event("no_solution_reported");
      continue;
    }
    c.check(xc.type_polynomial == PT::kCreep && xc.temperature == f->creep.temperature_cable, "stretch-state",
            "creep stretch is on curve %d at %.10g", (int)xc.type_polynomial, xc.temperature);
    c.check(xl.type_polynomial == PT::kLoadStrain && xl.temperature == f->load.temperature_cable, "stretch-state",
            "load stretch is on curve %d at %.10g", (int)xl.type_polynomial, xl.temperature);
    k.con = constraint_state(con.condition == CC::kCreep ? xc.load : xl.load);
    if (k.con.e.amp > 100) {
      c.event("nearly_parallel_stretch_skipped");
      continue;
    }
    k.s0 = k.con.e.Strain(mean0);
    if (!Steep(k.con, mean0)) {
      c.event("flat_constraint_skipped");
      continue;
    }
    // stretch states: average tension of the constraint catenary reloaded to
    // the unstretched cable under the stretch weather
    for (int i = 0; i < 2; i++) {
      const State& to = i ? free_load : free_creep;
      const double got = i ? xl.load : xc.load;
      ref::Reloading q = k.To(to, i ? wl : wc);
      ld h;
      if (!c.check(q.Solve(&h), "stretch", "stretch %.10g without a solution", got)) continue;
      const ld mean = ref::MeanTension(q.At(h));
      if (!Steep(to, mean)) {
        c.event("flat_stretch_skipped");
        continue;
      }
      const ld tol = 0.012L + (k.con.e.TolStrain() + to.e.TolStrain()) * q.L0 /
                                  std::max((ld)1e-9, q.Within(h, 0.5) / 0.5L);
      const ld ratio = mean / h + 0.2L;
      c.near(got, mean, 1e-9, (double)(tol * ratio * 1.5L + 0.012L), i ? "stretch-load" : "stretch-creep",
             fmt("stretch load (condition %d)", (int)con.condition).c_str());
      c.event(i ? "load_stretch_judged" : "creep_stretch_judged");
    }
    // the reloaded catenary
    CableStretchState x = cond == CC::kCreep ? xc : cond == CC::kLoad ? xl : Chain::None();
    const State s = Chain::Make(k.sag, w->temperature_cable, PT::kLoadStrain, x);
    c.check(out.spacing_endpoints().x() == ccs.x() && out.spacing_endpoints().z() == ccs.z(), "geometry",
            "reloaded spacing %.10g %.10g", out.spacing_endpoints().x(), out.spacing_endpoints().z());
    c.near(out.weight_unit().y(), wr.y(), 1e-12, 0, "unit-load", "transverse unit load");
    c.near(out.weight_unit().z(), wr.z(), 1e-12, 0, "unit-load", "vertical unit load");
    c.near(out.tension_horizontal(), H, 0, 0, "agree", "tension of the reloaded catenary");
    if (s.e.amp <= 100) {
      ref::Reloading q = k.To(s, wr);
      const double ts = k.con.e.TolStrain() + s.e.TolStrain();
      const ld mean = ref::MeanTension(q.At(H));
      if (Steep(s, mean)) {
        ld want = 0;
        q.Solve(&want);
        const ld d = q.Diff(H);
        c.near(q.At(H).p.L - d, q.At(H).p.L, 1e-10, (double)(ts * q.L0 + q.Within(H, 0.011L)), "reloaded",
               fmt("length of the strained cable against the catenary (tension %.10g, expected %.10g)", H,
                   (double)want).c_str());
        c.event(fmt("reloaded_condition_%d", (int)cond).c_str());
        // components at equal strain
        const ld e = s.e.Strain(mean);
        double sum = 0;
        for (int j = 0; j < 2; j++) {
          const int p = j ? s.e.shell : s.e.core;
          const double tl = p < 0 ? 0 : s.e.TolLoad(p) + 1e-9 * (double)mean;
          c.near(part[j], p < 0 ? 0 : s.e.parts[p].Load(e), 1e-9, tl + 0.03, "component",
                 j ? "average tension of the shell" : "average tension of the core");
          sum += part[j];
          c.near(hpart[j], part[j] * H / (double)mean, 1e-9, 1e-9, "component-horizontal",
                 "horizontal tension of a component");
        }
        c.near(part[2], sum, 1e-12, 1e-9, "component-sum", "combined average tension");
        c.near(part[2], mean, 1e-9, 0.0101, "component-sum", "combined average tension");
        c.near(hpart[2], H, 1e-9, 0.011, "component-horizontal", "combined horizontal tension");
      } else {
        c.event("flat_reload_skipped");
      }
    }
    const CableState state = m.StateReloaded();
    c.check(state.temperature == w->temperature_cable && state.type_polynomial == PT::kLoadStrain, "state",
            "reloaded state at %.10g on curve %d", state.temperature, (int)state.type_polynomial);
    // the constraint's own case
    if (r.p(0.5)) {
      LineCableReloader own;
      own.set_condition_reloaded(con.condition);
      own.set_line_cable(&f->line);
      own.set_weathercase_reloaded(con.case_weather);
      c.near(own.TensionHorizontal(), k.cc.tension_horizontal(), 1e-8, 0.03, "own-case",
             "tension reloaded at the constraint's own case");
      c.event("own_case");
    }
    // unloading
    if (lu != -999999) {
      CableStretchState y = cond_u == CC::kCreep ? xc : cond_u == CC::kLoad ? xl : Chain::None();
      const State z = Chain::Make(k.sag, temp_u, PT::kLoadStrain, y);
      const ref::Cat3 e(sp_u.x(), sp_u.z(), ccw.y(), ccw.z(), k.cc.tension_horizontal(), 1);
      if (z.e.amp <= 100) {
        ld ec = 0, un = z.e.Strain(0);
        for (const ref::Curve& p : z.e.parts) ec += p.Ec;
        if (ec == 0) {
          un = 9;
          for (const ref::Curve& p : z.e.parts) un = std::min(un, p.xu);
        }
        const ld meanu = ref::MeanTension(e);
        const double ts = k.con.e.TolStrain() + z.e.TolStrain();
        if (Steep(k.con, meanu)) {
          c.near(lu, ref::Strained(e.p.L, un - k.con.e.Strain(meanu)), 1e-10, ts * (double)e.p.L, "unloaded",
                 "unloaded length");
          c.event("unloaded_lengths_judged");
        }
      }
    } else {
      c.event("unloading_reported_impossible");
      const double cu = k.cc.tension_horizontal() / ccw.Magnitude();
      c.check(std::hypot(sp_u.x(), sp_u.z()) / 2 > cu * 0.9, "no-unloading",
              "unloading is reported impossible at spacing %.10g, constant %.10g", sp_u.x(), cu);
    }
  }
}
