// C15: LineCableSagger against every design constraint reloaded on its own.
#include "line_fix.h"

#include "models/sagtension/line_cable_reloader.h"
#include "models/sagtension/line_cable_sagger.h"

using gen::ld;
using mon::Ctx;
using mon::Rng;
using mon::fmt;
using gen::LT;

namespace mon {
const char* kTag = "sagger";
const char* kRule =
    "each case sags one line cable 1-3 times to 1-5 random design constraints "
    "(changed, nudged and reordered in between), reloads the sagged line cable "
    "at every design constraint with a new reloader and compares actual values, "
    "capacities and the controlling constraint, then sags in another order and "
    "from another starting limit; non-trivial = a new list of constraints";
uint64_t FixedCases() { return 10; }
}  // namespace mon

static double Value(LT t, const Catenary3d& k) {
  return t == LT::kHorizontalTension ? k.tension_horizontal()
         : t == LT::kCatenaryConstant ? k.Constant()
                                      : k.TensionMax();
}

static double TensionOf(const gen::LineFix& f, const CableConstraint& k) {
  LineCable line = f.line;
  line.set_constraint(k);
  return line.CatenaryRulingSpan().tension_horizontal();
}

static CableConstraint Design(Rng& r, gen::LineFix& f, const WeatherLoadCase* w) {
  return f.Constraint(r, w, r.uni(0.12, 0.6), true);
}

void mon::RunCase(Ctx& c) {
  Rng& r = c.rng;
  gen::LineFix f;
  WeatherLoadCase wline, ws[24];
  int used = 0;
  std::vector<CableConstraint> list;
  LineCableSagger m;
  const int rounds = r.i(1, 3);
  for (int round = 0; round < rounds; round++) {
    const bool small = round > 0 && r.p(0.4);
    if (round == 0 || (!small && r.p(0.4))) {
      f.Draw(r);
      const double a = r.logu(200, 2000);
      f.line.set_spacing_attachments_ruling_span(Vector3d(a, 0, r.p(0.3) ? 0 : a * r.uni(-0.3, 0.3)));
      wline = gen::RandomWeather(r);
      if (r.p(0.6)) wline.thickness_ice = wline.pressure_wind = 0;
      f.line.set_constraint(f.Constraint(r, &wline, r.uni(0.1, 0.4), false));
      list.clear();
    }
    if (list.empty() || !small) {
      list.clear();
      const int n = r.p(0.15) ? 1 : r.i(2, 5);
      for (int i = 0; i < n; i++) {
        WeatherLoadCase& w = ws[used++ % 24];
        w = gen::RandomWeather(r);
        // one weather case may serve constraints of several conditions
        const bool shared = i > 0 && r.p(0.2);
        if (shared) c.event("shared_weather");
        list.push_back(Design(r, f, shared ? list.back().case_weather : &w));
        if (r.p(0.15)) {
          // nearly the same limit again, now or in another place
          CableConstraint k = list[r.i(0, i)];
          k.limit *= 1 + r.uni(-1, 1) * r.logu(2e-4, 1e-2);
          list.insert(list.begin() + r.i(0, (int)list.size()), k);
          c.event("close_limits");
        }
      }
    } else {
      CableConstraint& k = list[r.i(0, list.size() - 1)];
      k.limit *= 1 + r.uni(-0.01, 0.01);
      if (r.p(0.3)) std::swap(list.front(), list.back());
      c.event("small_changes");
    }
    // a constraint that no line cable meets
    if (r.p(0.05)) {
      CableConstraint& k = list[r.i(0, list.size() - 1)];
      if (r.p(0.5)) {
        k.limit *= r.logu(2, 100);
      } else {
        k.limit = r.p(0.5) ? 0 : -k.limit;
      }
      c.event("impossible_constraints");
    }
    // the order of wiring does not matter
    if (r.p(0.5)) {
      m.set_line_cable(&f.line);
      m.set_constraints_design(&list);
    } else {
      m.set_constraints_design(&list);
      if (round > 0 && r.p(0.5)) {
        m.IndexConstraintControlling();
        c.event("reads_between_setters");
      }
      m.set_line_cable(&f.line);
    }
    const CableConstraint before = f.line.constraint();
    c.clear_note();
    c.note("%s span %.9g %.9g; line constraint type %d cond %d limit %.9g %s; creep T=%.9g load %s; round %d",
           gen::Describe(f.cable).c_str(), f.line.spacing_attachments_ruling_span().x(),
           f.line.spacing_attachments_ruling_span().z(), (int)before.type_limit, (int)before.condition,
           before.limit, gen::Describe(wline).c_str(), f.creep.temperature_cable,
           gen::Describe(f.load).c_str(), round);
    for (const CableConstraint& k : list)
      c.note("  design type %d cond %d limit %.17g %s", (int)k.type_limit, (int)k.condition, k.limit,
             gen::Describe(*k.case_weather).c_str());
    uint64_t h = 1;
    for (const CableConstraint& k : list) h = mon::hashd(h, k.limit);
    c.distinct(h);
    if (c.want_sample()) c.sample(c.note_);
    const int n = list.size();
    // the sagger is asked in any order
    int index = -1;
    double limit = 0;
    std::vector<double> cap(n), H(n), T(n), C(n);
    const int first = r.i(0, 3);
    for (int i = 0; i < 4; i++) switch ((first + i) % 4) {
        case 0: index = m.IndexConstraintControlling(); break;
        case 1: limit = m.LimitConstraintSaggedLineCable(); break;
        case 2:
          for (int j = n - 1; j >= 0; j--) cap[j] = m.CapacityAllowable(j);
          break;
        default:
          for (int j = 0; j < n; j++) {
            H[j] = m.TensionHorizontalActual(j);
            T[j] = m.TensionSupportActual(j);
            C[j] = m.CatenaryConstantActual(j);
          }
      }
    const bool failed = index == -9999;
    c.check(failed == (limit == -999999) && failed == (cap[0] == -999999) && failed == (H[0] == -999999),
            "failure", "index %d limit %.10g capacity %.10g tension %.10g", index, limit, cap[0], H[0]);
    c.check(failed == !m.Validate(false, nullptr), "failure", "index %d, validation disagrees", index);
    if (failed) {
      // some constraint cannot be solved or reloaded
      bool all = true;
      LineCableReloader v;
      for (const CableConstraint& k : list) {
        LineCable other = f.line;
        other.set_constraint(k);
        v.set_line_cable(&other);
        v.set_weathercase_reloaded(before.case_weather);
        v.set_condition_reloaded(before.condition);
        all = all && v.Validate(false, nullptr);
        for (const CableConstraint& q : list) {
          v.set_weathercase_reloaded(q.case_weather);
          v.set_condition_reloaded(q.condition);
          all = all && v.Validate(false, nullptr);
        }
        if (!all) break;
      }
      c.check(!all, "no-solution", "reported failure, but every constraint can be reloaded at every other");
      c.event("no_solution_reported");
      f.line.set_constraint(f.Constraint(r, &wline, r.uni(0.1, 0.4), false));
      continue;
    }
    if (!c.check(index >= 0 && index < n, "index", "controlling index %d of %d", index, n)) continue;
    for (int bad : {-1, n, n + 5})
      c.check(m.CapacityAllowable(bad) == -999999 && m.TensionHorizontalActual(bad) == -999999 &&
                  m.TensionSupportActual(bad) == -999999 && m.CatenaryConstantActual(bad) == -999999,
              "bad-index", "index %d of %d is answered", bad, n);
    // every design constraint on its own at the loading of the line cable: the
    // controlling one gives the lowest tension, and no one may be left out
    {
      std::vector<double> alone(n);
      LineCableReloader v;
      v.set_weathercase_reloaded(before.case_weather);
      v.set_condition_reloaded(before.condition);
      double least = 1e99;
      for (int i = 0; i < n; i++) {
        LineCable other = f.line;
        other.set_constraint(list[i]);
        v.set_line_cable(&other);
        alone[i] = v.TensionHorizontal();
        c.check(alone[i] != -999999, "left-out", "constraint %d can't be reloaded, and %d controls", i, index);
        least = std::min(least, alone[i]);
      }
      c.check(n == 1 || alone[index] <= least + 0.1 + 1e-4 * std::fabs(least), "lowest",
              "constraint %d controls with %.10g, another gives %.10g", index, alone[index], least);
    }
    const CableConstraint now = f.line.constraint();
    c.check(now.limit == limit, "limit", "the line cable is sagged to %.10g, reported %.10g", now.limit, limit);
    c.check(now.case_weather == before.case_weather && now.condition == before.condition &&
                now.type_limit == before.type_limit && now.note == before.note,
            "only-limit", "more than the limit of the line cable constraint changed");
    // every design constraint on its own
    LineCableReloader v;
    v.set_line_cable(&f.line);
    double top = 0;
    std::vector<double> real(n);
    for (int i = 0; i < n; i++) {
      const CableConstraint& k = list[i];
      v.set_condition_reloaded(k.condition);
      v.set_weathercase_reloaded(k.case_weather);
      const Catenary3d e = v.CatenaryReloaded();
      c.near(H[i], e.tension_horizontal(), 1e-12, 0, "actual", "actual horizontal tension");
      c.near(T[i], e.TensionMax(), 1e-12, 0, "actual", "actual support tension");
      c.near(C[i], e.Constant(), 1e-12, 0, "actual", "actual catenary constant");
      real[i] = Value(k.type_limit, e) / k.limit;
      c.near(cap[i], real[i], 1e-12, 0, "capacity", fmt("capacity of constraint %d", i).c_str());
      top = std::max(top, real[i]);
      c.event(fmt("design_type_%d", (int)k.type_limit).c_str());
    }
    // reloads are solved to 0.01 in tension and stretch
    // the sagged state comes from a chain of them
    const CableConstraint& k = list[index];
    const double w = gen::UnitLoad(f.cable, *k.case_weather).Magnitude();
    auto worth = [&](const CableConstraint& q) {
      const double wq = gen::UnitLoad(f.cable, *q.case_weather).Magnitude();
      (void)w;
      return (q.type_limit == LT::kCatenaryConstant ? 0.1 / wq : 0.1) / q.limit + 2e-4;
    };
    double room = worth(k);
    // a strain that is taken on in two steps lengthens the cable by the product
    // of the steps more than one that is taken on in a single step, and a loaded
    // line constraint is a state with a strain of its own
    const double EA = f.cable.component_core.modulus_tension_elastic_area + f.cable.component_shell.modulus_tension_elastic_area;
    auto slip = [&](const CableConstraint& q) {
      return wline.pressure_wind + wline.thickness_ice > 0 ? EA * 1.2e-5 / TensionOf(f, q) : 0;
    };
    room += slip(k);
    // a line that is itself constrained stretched has its stretch solved in turn
    // with its constraint, which multiplies the tolerance of that solution
    if (now.condition != CableConditionType::kInitial) room += 1e-3;
    if (std::fabs(real[index] - 1) > room) {
      // some lines turn the solvers' tolerances into much more: how the actual
      // value scatters around a straight line when the limit changes by no
      // more than those tolerances
      std::vector<double> dx, y;
      for (int i = -6; i <= 6; i++) {
        LineCable line = f.line;
        CableConstraint q = now;
        const double step = i * 0.004 / std::max(100.0, TensionOf(f, now));
        q.limit *= 1 + step;
        line.set_constraint(q);
        LineCableReloader z;
        z.set_line_cable(&line);
        z.set_condition_reloaded(k.condition);
        z.set_weathercase_reloaded(k.case_weather);
        const Catenary3d e = z.CatenaryReloaded();
        if (e.tension_horizontal() == -999999) continue;
        y.push_back(Value(k.type_limit, e) / k.limit);
      }
      const double lo = *std::min_element(y.begin(), y.end()), hi = *std::max_element(y.begin(), y.end());
      room += 4 * (hi - lo);
      c.event("sensitive_lines");
    }
    c.check(std::fabs(real[index] - 1) <= room, "controlling-met",
            "the controlling constraint %d is used to %.8f (allowed %.2g)", index, real[index], room);
    for (int i = 0; i < n; i++)
      c.check(real[i] <= 1 + worth(list[i]) + slip(list[i]) + room, "exceeded", "constraint %d is used to %.8f (controlling %d %.8f)", i,
              real[i], index, real[index]);
    c.event(fmt("line_constraint_type_%d", (int)now.type_limit).c_str());
    if (wline.pressure_wind > 0 && now.type_limit == LT::kCatenaryConstant) c.event("windy_line_constant");
    c.event(fmt("controlling_condition_%d", (int)k.condition).c_str());
    c.event(n == 1 ? "single_constraint" : "several_constraints");
    // another order and another start give the same line cable
    if (r.p(0.4)) {
      std::vector<CableConstraint> other(list);
      std::vector<int> at(n);
      for (int i = 0; i < n; i++) at[i] = i;
      for (int i = n - 1; i > 0; i--) {
        const int j = r.i(0, i);
        std::swap(other[i], other[j]);
        std::swap(at[i], at[j]);
      }
      LineCable line = f.line;
      CableConstraint start = now;
      start.limit *= now.type_limit == LT::kLength ? 1 + r.uni(0, 1e-3) : r.uni(0.8, 1.3);
      line.set_constraint(start);
      LineCableSagger q;
      q.set_line_cable(&line);
      q.set_constraints_design(&other);
      const int index2 = q.IndexConstraintControlling();
      if (c.check(index2 >= 0 && index2 < n, "order", "no controlling constraint in another order")) {
        c.near(q.LimitConstraintSaggedLineCable(), limit, 1e-4, 0.1, "order", "limit found in another order");
        c.check(at[index2] == index || std::fabs(real[at[index2]] - 1) < worth(list[at[index2]]) + room,
                "order", "constraint %d controls in another order, not %d", at[index2], index);
      }
      c.event("reordered");
    }
  }
}
