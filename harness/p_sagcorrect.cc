// C16: a cable in pulleys carries the length of the clipped cable, and its
// tension is the same on both sides of every pulley.
#include "line_fix.h"

#include <algorithm>

#include "models/sagging/cable_sag_position_corrector.h"

using namespace mon;
using gen::ld;
using gen::LT;

const char* mon::kTag = "C16";
const char* mon::kRule =
    "A case is a line cable with a random cable, weather and constraint, hung over one to nine spans that turn "
    "and climb freely, and a history of changes to points, cable and constraint with reads in between. Distinct: "
    "attachment points and section tension.";
uint64_t mon::FixedCases() { return 4; }

namespace {

struct Span {
  ld a, b;
};

// horizontal tension of a span whose tension at its back end is T, on the
// tensioned branch, or 0
ld TautH(const Span& s, const Vector3d& w, ld T) {
  const ld m = w.Magnitude();
  auto tension = [&](ld H) { return ref::Cat3(s.a, s.b, w.y(), w.z(), H, 1).p.T(0); };
  ld lo = m * s.a / 12, hi = T;
  if (hi <= lo) return 0;
  // solutions are only sought for catenary constants above half the span
  const ld least = std::hypot(s.a, s.b) / 2 * m * 1.02L;
  // the least tension over H splits the slack from the tensioned branch
  ld l = lo, h = hi;
  for (int i = 0; i < 120; i++) {
    const ld p = l + (h - l) / 3, q = h - (h - l) / 3;
    if (tension(p) < tension(q)) h = q; else l = p;
  }
  l = (l + h) / 2;
  if (tension(l) > T) return 0;
  h = T;
  for (int i = 0; i < 90; i++) {
    const ld q = (l + h) / 2;
    if (tension(q) < T) l = q; else h = q;
  }
  return l < least ? 0 : l;
}

struct Chain {
  bool ok;
  ld L;
  std::vector<ld> H;
};

Chain Pulley(const std::vector<Span>& s, const Vector3d& w, ld H) {
  Chain o;
  o.ok = true;
  o.L = 0;
  for (size_t i = 0; i < s.size(); i++) {
    if (i) {
      const ld T = ref::Cat3(s[i - 1].a, s[i - 1].b, w.y(), w.z(), H, 1).p.T(1);
      H = TautH(s[i], w, T);
      if (!(H > 0)) {
        o.ok = false;
        return o;
      }
    }
    o.H.push_back(H);
    o.L += ref::Cat3(s[i].a, s[i].b, w.y(), w.z(), H, 1).p.L;
  }
  return o;
}

void Judge(Ctx& c, const CableSagPositionCorrector& x, const gen::LineFix& f,
           const std::vector<Point3d<double>>& at, int order) {
  const int n = (int)at.size() - 1;
  const std::vector<Catenary3d>*k = nullptr, *p = nullptr;
  std::vector<double> off, cor;
  for (int i = 0; i < 4; i++) switch ((order + i) % 4) {
    case 0: k = x.CatenariesClipped(); break;
    case 1: p = x.CatenariesPulleyed(); break;
    case 2: off = x.ClippingOffsets(); break;
    default: cor = x.SagCorrections();
  }
  std::vector<Span> s(n);
  for (int i = 0; i < n; i++) {
    s[i].a = std::hypot((ld)at[i + 1].x - at[i].x, (ld)at[i + 1].y - at[i].y);
    s[i].b = (ld)at[i + 1].z - at[i].z;
  }
  const Vector3d w = gen::UnitLoad(f.cable, *f.line.constraint().case_weather);
  const Catenary3d section = f.line.CatenaryRulingSpan();
  const double H = section.tension_horizontal();
  if (!k || !p) {
    c.event("unsolved");
    c.check(!k && !p && off.empty() && cor.empty(), "failure-alike", "one result is given, another is not");
    c.check(!x.Validate(false, nullptr), "failure-validate", "nothing is solved, yet validation passes");
    if (!section.Validate(false, nullptr)) return;
    // the pulleys have a balanced state that carries the length
    const Chain at0 = Pulley(s, w, H);
    if (!at0.ok) return;
    ld target = 0;
    for (int i = 0; i < n; i++) target += ref::Cat3(s[i].a, s[i].b, w.y(), w.z(), H, 1).p.L;
    // well away from the least tension everything is monotone
    const Chain lo = Pulley(s, w, H * 0.7L), hi = Pulley(s, w, H * 1.4L);
    c.event("failure_judged");
    // a cable that the pulleys would let go of by several percent is out of reach
    // of the extrapolation
    c.check(!(at0.L > 0.99L * target && lo.ok && hi.ok && lo.L > target && target > hi.L), "solvable",
            "%d spans at H %.6g have a balanced state, reported unsolvable", n, H);
    return;
  }
  c.event("solved");
  if (n > 1) c.event("several_spans");
  c.check((int)k->size() == n && (int)p->size() == n && (int)off.size() == n + 1 && (int)cor.size() == n, "sizes",
          "%d spans give %zu, %zu, %zu, %zu results", n, k->size(), p->size(), off.size(), cor.size());
  if ((int)k->size() != n || (int)p->size() != n || (int)off.size() != n + 1 || (int)cor.size() != n) return;
  ld Lk = 0, Lp = 0, slack = 0;
  double back = 0, scale = 0;
  for (int i = 0; i < n; i++) {
    const Catenary3d &a = (*k)[i], &b = (*p)[i];
    for (const Catenary3d* e : {&a, &b}) {
      c.near(e->spacing_endpoints().x(), (double)s[i].a, 1e-9, 1e-6, "spacing", "horizontal span");
      c.near(e->spacing_endpoints().z(), (double)s[i].b, 1e-9, 1e-6, "spacing", "vertical span");
      c.check(e->spacing_endpoints().y() == 0, "spacing", "span %d has a transverse distance", i);
      c.near(e->weight_unit().y(), w.y(), 1e-9, 1e-12, "weight", "transverse unit load");
      c.near(e->weight_unit().z(), w.z(), 1e-9, 1e-12, "weight", "vertical unit load");
    }
    c.near(a.tension_horizontal(), H, 1e-12, 0, "clipped-tension", "clipped horizontal tension");
    const double Hp = b.tension_horizontal();
    if (!c.check(std::isfinite(Hp) && Hp > 0, "pulley-tension", "span %d: H %.10g", i, Hp)) return;
    const ref::Cat3 ra(s[i].a, s[i].b, w.y(), w.z(), H, 1), rb(s[i].a, s[i].b, w.y(), w.z(), Hp, 1);
    if (i) {
      c.near((double)rb.p.T(0), back, 1e-6, 0.03, "pulley-balance", fmt("tensions at pulley %d", i).c_str());
      c.near(off[i], (double)(Lk - Lp), 1e-8, 1e-6 * scale, "offset", "clipping offset");
    }
    c.check(i ? true : off[0] == 0, "offset-ends", "offset %g at the first structure", off[0]);
    back = (double)rb.p.T(1);
    Lk += ra.p.L;
    Lp += rb.p.L;
    scale = std::max(1.0, 1e-3 * (double)Lk);
    // length against the section's tension
    slack += std::fabs(rb.p.L - ref::Cat3(s[i].a, s[i].b, w.y(), w.z(), Hp + 0.11L, 1).p.L);
    const ld sa = ra.p.Sag(ra.p.FractionOfSlope(ra.p.b / ra.p.a)), sb = rb.p.Sag(rb.p.FractionOfSlope(rb.p.b / rb.p.a));
    c.near(cor[i], (double)(sb - sa), 1e-6, 1e-6 * std::max(1.0, (double)sa), "correction", "sag correction");
  }
  c.check(off[n] == 0, "offset-ends", "offset %g at the last structure", off[n]);
  c.check(std::fabs(Lk - Lp) <= 0.0102 + 2 * slack, "length", "clipped %.8Lg, in pulleys %.8Lg, spans %d", Lk, Lp, n);
  uint64_t h = hashd(0, H);
  for (const auto& q : at) h = hashd(hashd(hashd(h, q.x), q.y), q.z);
  c.distinct(h);
  if (c.want_sample() && n > 1)
    c.sample(fmt("spans %d H %.6g first pulley H %.8g offset %.5g correction %.5g", n, H,
                 (*p)[0].tension_horizontal(), off[1], cor[0]));
}

}  // namespace

void mon::RunCase(Ctx& c) {
  Rng& r = c.rng;
  gen::LineFix f;
  f.Draw(r);
  WeatherLoadCase w = gen::RandomWeather(r);
  if (r.p(0.5)) w.pressure_wind = w.thickness_ice = 0;
  std::vector<Point3d<double>> at;
  auto points = [&]() {
    const int n = c.case_index < 2 ? 1 + (int)c.case_index : r.p(0.25) ? 1 : r.i(2, 9);
    const double climb = r.p(0.15) ? 0 : r.logu(1e-3, 0.25);
    const double turn = r.p(0.4) ? 0 : r.uni(0, 60);
    double heading = r.p(0.3) ? 0 : r.uni(-180, 180);
    const double typical = r.logu(200, 1800), even = r.p(0.2) ? 0 : r.uni(0, 0.6);
    at.assign(1, Point3d<double>(r.p(0.4) ? 0 : r.uni(-1e5, 1e5), r.p(0.4) ? 0 : r.uni(-1e5, 1e5),
                                 r.p(0.4) ? 0 : r.uni(-100, 3000)));
    for (int i = 0; i < n; i++) {
      const double a = typical * (1 + even * r.uni(-1, 1)), b = a * climb * r.uni(-1, 1);
      const Point3d<double>& q = at.back();
      const double t = (double)gen::rad(heading);
      at.push_back(Point3d<double>(q.x + a * (heading == 0 ? 1 : std::cos(t)), q.y + a * (heading == 0 ? 0 : std::sin(t)), q.z + b));
      heading += turn * r.uni(-1, 1);
    }
  };
  points();
  auto section = [&]() {
    f.line.set_spacing_attachments_ruling_span(Vector3d(r.logu(200, 2000), 0, r.p(0.6) ? 0 : r.uni(-50, 50)));
    f.line.set_constraint(f.Constraint(r, &w, r.logu(0.05, 0.4), true));
  };
  section();
  CableSagPositionCorrector x;
  x.set_points_attachment(&at);
  x.set_linecable(&f.line);
  c.check(x.linecable() == &f.line && x.points_attachment() == &at, "settings", "settings are not given back");
  Judge(c, x, f, at, r.i(0, 3));
  gen::LineFix other;
  std::vector<Point3d<double>> others;
  for (int i = 0, m = r.i(1, 4); i < m; i++) {
    switch (r.i(0, 5)) {
      case 0:
        points();
        x.set_points_attachment(&at);
        break;
      case 1: {
        Point3d<double>& q = at[r.i(0, (int)at.size() - 1)];
        q.z += r.uni(-1, 1) * r.logu(1e-3, 5);
        x.set_points_attachment(&at);
        c.event("small_changes");
        break;
      }
      case 2:
        section();
        x.set_linecable(&f.line);
        break;
      case 3: {
        CableConstraint k = f.line.constraint();
        k.limit *= 1 + r.uni(-1, 1) * r.logu(1e-5, 1e-2);
        f.line.set_constraint(k);
        x.set_linecable(&f.line);
        c.event("small_changes");
        break;
      }
      case 4: {
        // nothing is left to work with, then there is again
        others.assign(1, at[0]);
        x.set_points_attachment(&others);
        c.check(!x.Validate(r.p(0.5), nullptr), "one-point", "a single attachment point is accepted");
        c.check(x.CatenariesClipped() == nullptr && x.CatenariesPulleyed() == nullptr && x.ClippingOffsets().empty() && x.SagCorrections().empty(),
                "one-point", "a single attachment point is solved");
        x.set_points_attachment(&at);
        c.event("unusable_points");
        break;
      }
      default:
        std::reverse(at.begin(), at.end());
        x.set_points_attachment(&at);
        c.event("reversed");
    }
    if (r.p(0.6)) {
      Judge(c, x, f, at, r.i(0, 3));
      c.event("reads_between_setters");
    }
  }
  Judge(c, x, f, at, r.i(0, 3));
  const CableSagPositionCorrector copy(x);
  Judge(c, copy, f, at, r.i(0, 3));
}
