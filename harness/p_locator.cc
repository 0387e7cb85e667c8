// C07: CablePositionLocator against structure geometry and cable statics.
#include "line_model.h"
#include "ref.h"

#include "models/transmissionline/cable_position_locator.h"

using namespace lm;

namespace mon {
const char* kTag = "locator";
const char* kRule =
    "each case builds a line of 3-9 structures with turns to both sides and "
    "suspension hardware between two dead ends, locates its cable under 1-4 "
    "loads (tension, wind and side changed with reads in between), and judges "
    "attachment points, force balance and span points by extended-precision "
    "geometry and statics; the line is also rotated, shifted and mirrored; "
    "non-trivial = a new line and load";
uint64_t FixedCases() { return 20; }
}  // namespace mon

struct Load {
  double wy, wz, H;
  int side;
};

// The generated line, kept apart from the real objects so that it can be built
// again turned, moved or mirrored.
struct Site {
  std::vector<double> station, turn, elevation, rotation, offset, height;
  std::vector<double> lo, tr, vt, len;
};

struct Built {
  std::vector<Structure> structures;
  std::vector<Hardware> hardwares, others;
  Cable cable;
  int index = 0;  // of the judged cable
  WeatherLoadCase weather;
  TransmissionLine line;
  Model m;
};

static void Build(Ctx& c, const Site& s, Point3d<double> origin, double heading, int mirror,
                  Built* b) {
  const int n = s.station.size();
  b->structures.resize(n);
  b->hardwares.resize(n);
  b->others.resize(n);
  b->m.origin = origin;
  b->line.set_origin(origin);
  for (int i = 0; i < n; i++) {
    MPoint q;
    q.station = s.station[i];
    q.rotation = (i == 0 ? heading : 0) + mirror * s.turn[i];
    q.elevation = s.elevation[i];
    b->m.AddPoint(q);
    AlignmentPoint p;
    p.station = q.station;
    p.rotation = q.rotation;
    p.elevation = q.elevation;
    b->line.AddAlignmentPoint(p);
  }
  LineCable cable;
  b->cable = gen::Drake();
  b->weather = gen::RandomWeather(c.rng);
  cable.set_cable(&b->cable);
  cable.set_spacing_attachments_ruling_span(Vector3d(1000, 0, 0));
  cable.set_weathercase_stretch_creep(&b->weather);
  cable.set_weathercase_stretch_load(&b->weather);
  CableConstraint con;
  con.case_weather = &b->weather;
  con.condition = CableConditionType::kInitial;
  con.limit = 6000;
  con.note = "n";
  con.type_limit = CableConstraint::LimitType::kHorizontalTension;
  cable.set_constraint(con);
  for (int i = 0; i < n; i++) {
    Structure& t = b->structures[i];
    t.name = "s";
    t.height = s.height[i];
    t.attachments.resize(3);
    for (StructureAttachment& a : t.attachments)
      a.offset_longitudinal = a.offset_transverse = a.offset_vertical_top = 0;
    t.attachments[1].offset_longitudinal = s.lo[i];
    t.attachments[1].offset_transverse = mirror * s.tr[i];
    t.attachments[1].offset_vertical_top = s.vt[i];
    Hardware& h = b->hardwares[i];
    h.area_cross_section = 0;
    h.name = "h";
    h.length = s.len[i];
    h.weight = 100;
    h.type = i == 0 || i == n - 1 ? Hardware::HardwareType::kDeadEnd
                                  : Hardware::HardwareType::kSuspension;
    // another cable may hang from the tops
    b->others[i] = h;
    b->others[i].length = h.length + 3;
    MStructure q;
    q.id = i;
    q.station = s.station[i];
    q.rotation = mirror * s.rotation[i];
    q.offset = mirror * s.offset[i];
    q.height = 0;
    q.structure = &t;
    q.hw = {&b->others[i], &h, &b->others[i]};
    b->m.AddStructure(q);
    b->line.AddLineStructure(ToReal(q));
  }
  auto it = b->line.line_structures()->begin();
  for (int i = 0; i < n; i++, it++) {
    LineCableConnection x;
    x.line_structure = &*it;
    x.index_attachment = 1;
    cable.AddConnection(x);
  }
  // a line keeps its cables in the order of their attachments
  const int other = c.rng.i(0, 3);
  LineCable top = cable;
  if (other == 0 || other == 2) {
    while (!top.connections()->empty()) top.DeleteConnection(0);
    for (LineCableConnection x : *cable.connections()) {
      x.index_attachment = other;
      top.AddConnection(x);
    }
    c.event("lines_with_two_cables");
  }
  b->index = other == 0 ? 1 : 0;
  if (other == 0)
    c.check(b->line.AddLineCable(top) == 0, "setup", "the other cable was not accepted");
  c.check(b->line.AddLineCable(cable) == b->index, "setup", "the cable was not accepted");
  if (other == 2)
    c.check(b->line.AddLineCable(top) == 1, "setup", "the other cable was not accepted");
}

typedef std::vector<Point3d<double>> Points;

// force of the two cables on attachment i, in earth coordinates
static void Force(const Point3d<double>* p, const Load& q, ld* f, ld* size) {
  f[0] = f[1] = f[2] = *size = 0;
  for (int k = 0; k < 2; k++) {
    const ld dx = (ld)p[k + 1].x - p[k].x, dy = (ld)p[k + 1].y - p[k].y, a = std::hypot(dx, dy);
    const ref::Cat3 cat(a, (ld)p[k + 1].z - p[k].z, q.wy, q.wz, q.H, q.side);
    ld t[3];
    if (k == 0) cat.Tangent(1, -1, t);
    else cat.Tangent(0, 1, t);
    const ld T = k == 0 ? cat.p.T(1) : cat.p.T(0);
    f[0] += T * (t[0] * dx - t[1] * dy) / a;
    f[1] += T * (t[0] * dy + t[1] * dx) / a;
    f[2] += T * t[2];
    *size += T;
  }
}

// whether every suspension is pulled clearly downward
static bool Ordinary(const Built& b, const Load& q) {
  const int n = b.m.strs.size();
  Points p(n);
  for (int i = 0; i < n; i++) {
    ld o[3];
    b.m.AttachmentXyz(i, 1, o);
    p[i] = Point3d<double>(o[0], o[1], o[2]);
  }
  for (int i = 1; i + 1 < n; i++) {
    ld f[3], size;
    Force(&p[i - 1], q, f, &size);
    // swinging the hardware moves the end of a span by up to its length twice
    ld slack = 0;
    for (int k = -1; k <= 1; k += 2)
      slack += q.H * (b.hardwares[i].length + b.hardwares[i + k].length) /
               std::hypot(p[i + k].x - p[i].x, p[i + k].y - p[i].y);
    if (-f[2] < 2 * slack) return false;
  }
  return true;
}

// judges one located cable; returns false if it was not located
static bool Judge(Ctx& c, const Built& b, const CablePositionLocator& loc, const Load& ld0,
                  Points* out) {
  Rng& r = c.rng;
  const int n = b.m.strs.size();
  const Points* pp = loc.PointsCableAttachment();
  if (!pp) {
    std::list<ErrorMessage> msg;
    c.check(loc.PointsCable(0, 3).empty(), "failure", "span points without attachment points");
    CablePositionLocator l2 = loc;
    c.check(!l2.Validate(false, &msg) && !msg.empty(), "failure", "an unsolved cable validates");
    c.check(!Ordinary(b, ld0), "no-position",
            "no position although every suspension is pulled clearly downward");
    c.event("unsolved");
    return false;
  }
  c.event("cables_located");
  if (Ordinary(b, ld0)) c.event("ordinary_lines_located");
  if (!c.check((int)pp->size() == n, "points", "%d points, expected %d", (int)pp->size(), n))
    return false;
  const Points pts = *pp;
  *out = pts;
  const double span = b.m.pts.back().station - b.m.pts.front().station;
  const double tol = 1e-8 * (span + std::fabs(b.m.origin.x) + std::fabs(b.m.origin.y)) + 1e-3;
  std::vector<std::array<ld, 3>> att(n);
  for (int i = 0; i < n; i++) b.m.AttachmentXyz(i, 1, att[i].data());
  for (int i = 0; i < n; i++) {
    const ld d[3] = {pts[i].x - att[i][0], pts[i].y - att[i][1], pts[i].z - att[i][2]};
    const ld len = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
    const ld want = i == 0 || i == n - 1 ? 0 : (ld)b.hardwares[i].length;
    c.check(std::fabs((double)(len - want)) <= tol, "hardware-length",
            "attachment point %d is %.10g from its structure, hardware is %.10g", i, (double)len,
            (double)want);
    if (i == 0 || i == n - 1) continue;
    // the two cables at the attachment
    ld f[3], size;
    Force(&pts[i - 1], ld0, f, &size);
    if (want == 0) {  // no direction to judge
      c.event("hardware_without_length");
      continue;
    }
    // the hardware swings in the plane that bisects the structure attachments
    ld u[2] = {0, 0};
    for (int k = -1; k <= 1; k += 2) {
      const ld dx = att[i + k][0] - att[i][0], dy = att[i + k][1] - att[i][1], a = std::hypot(dx, dy);
      u[0] += k * dx / a;
      u[1] += k * dy / a;
    }
    const ld q = std::hypot(u[0], u[1]);
    const ld lon = (d[0] * u[0] + d[1] * u[1]) / q;
    c.check(std::fabs((double)lon) <= tol + 1e-4, "swing-plane",
            "attachment point %d is %.10g off the bisecting plane", i, (double)lon);
    // Imbalance: cable force less a hardware reaction of that size. The
    // locator promises less than 5, and leaves hardware alone that would turn
    // by less than 0.001 degrees.
    // The project balances forces across the bisector of the spans themselves.
    ld v[2] = {0, 0};
    for (int k = -1; k <= 1; k += 2) {
      const ld dx = (ld)pts[i + k].x - pts[i].x, dy = (ld)pts[i + k].y - pts[i].y, a = std::hypot(dx, dy);
      v[0] += k * dx / a;
      v[1] += k * dy / a;
    }
    const ld tr = (f[0] * -v[1] + f[1] * v[0]) / std::hypot(v[0], v[1]);
    const ld dt = (d[0] * -u[1] + d[1] * u[0]) / q;
    const ld ang = gen::adiff(gen::deg(std::atan2(tr, f[2])), gen::deg(std::atan2(dt, d[2])));
    const ld yz = std::hypot(tr, f[2]);
    // equilibrium in the swing plane, as a force
    const ld imb = 2 * yz * std::sin(std::fabs(gen::rad(ang)) / 2);
    c.check(imb <= 5 + 1e-3L + 3e-5L * size, "balance",
            "attachment %d: force (%.8g transverse, %.8g vertical) against hardware (%.8g, %.8g), "
            "imbalance %.6g", i, (double)tr, (double)f[2], (double)dt, (double)d[2], (double)imb);
    c.event("suspensions_judged");
    if (tr < 0) c.event("swing_right");
    else c.event("swing_left");
  }
  // points along the spans
  for (int s = 0; s + 1 < n; s++) {
    if (n > 4 && r.p(0.5)) continue;
    const int num = r.p(0.2) ? 2 : r.p(0.03) ? r.i(50, 300) : r.i(2, 12);
    const std::list<Point3d<double>> ps = loc.PointsCable(s, num);
    if (!c.check((int)ps.size() == num, "span-points", "%d points, expected %d", (int)ps.size(), num))
      continue;
    const ld dx = (ld)pts[s + 1].x - pts[s].x, dy = (ld)pts[s + 1].y - pts[s].y, a = std::hypot(dx, dy);
    const ref::Cat3 cat(a, (ld)pts[s + 1].z - pts[s].z, ld0.wy, ld0.wz, ld0.H, ld0.side);
    int i = 0;
    for (const Point3d<double>& p : ps) {
      const ld t = (ld)i / (num - 1);
      ld o[3];
      cat.At(t, o);
      const ld e[3] = {pts[s].x + (o[0] * dx - o[1] * dy) / a, pts[s].y + (o[0] * dy + o[1] * dx) / a,
                       pts[s].z + o[2]};
      const double err = std::max(std::fabs((double)(p.x - e[0])),
                                  std::max(std::fabs((double)(p.y - e[1])), std::fabs((double)(p.z - e[2]))));
      c.check(err <= tol + 2e-6 * (double)a, "span-points",
              "span %d point %d/%d is (%.10g,%.10g,%.10g), expected (%.10g,%.10g,%.10g)", s, i, num,
              p.x, p.y, p.z, (double)e[0], (double)e[1], (double)e[2]);
      i++;
    }
    c.event("span_points_judged", num);
  }
  for (int bad : {-1, n - 1, n, INT_MIN, INT_MAX})
    c.check(loc.PointsCable(bad, 3).empty(), "span-index", "span %d of %d has points", bad, n - 1);
  c.check(loc.PointsCable(0, 0).empty(), "span-points", "no points were asked for");
  return true;
}

static void Set(CablePositionLocator* l, int what, const Built& b, const Load& q,
                const Vector3d* w) {
  switch (what) {
    case 0: l->set_direction_wind(q.side > 0 ? AxisDirectionType::kPositive
                                             : AxisDirectionType::kNegative); break;
    case 1: l->set_tension_horizontal(q.H); break;
    case 2: l->set_weight_unit(w); break;
    case 3: l->set_transmission_line(&b.line); break;
    default: l->set_index_line_cable(b.index);
  }
}

void mon::RunCase(Ctx& c) {
  Rng& r = c.rng;
  Site s;
  const int n = r.i(3, 9);
  double st = r.p(0.5) ? 0 : r.uni(0, 5000), el = r.uni(1300, 2000);
  const double slope = r.p(0.3) ? 0 : r.uni(0.01, 0.1);
  const double maxturn = r.p(0.3) ? 0 : r.p(0.5) ? 20 : 90;
  const double spans = r.p(0.15) ? 4000 : 1500;
  double shortest = 1e9, longest = 0;
  for (int i = 0; i < n; i++) {
    s.station.push_back(st);
    s.turn.push_back(i == 0 || maxturn == 0 ? 0 : r.p(0.2) ? 0 : r.uni(-maxturn, maxturn));
    if (std::fabs(s.turn.back()) < 0.01) s.turn.back() = 0;
    s.elevation.push_back(el);
    s.rotation.push_back(r.p(0.6) ? 0 : r.uni(-10, 10));
    s.offset.push_back(r.p(0.6) ? 0 : r.uni(-20, 20));
    s.height.push_back(r.uni(40, 120));
    s.lo.push_back(r.p(0.5) ? 0 : r.uni(-3, 3));
    s.tr.push_back(r.p(0.3) ? 0 : r.uni(-20, 20));
    s.vt.push_back(r.p(0.3) ? 0 : r.uni(0, 10));
    s.len.push_back(r.p(0.06) ? 0 : r.p(0.2) ? 1 : r.uni(0.5, 12));
    const double span = r.uni(300, spans);
    if (i + 1 < n) {
      shortest = std::min(shortest, span);
      longest = std::max(longest, span);
    }
    st += span;
    el += span * r.uni(-slope, slope);
  }
  Point3d<double> origin(r.p(0.3) ? 0 : r.uni(-5000, 5000), r.p(0.3) ? 0 : r.uni(-5000, 5000), r.uni(0, 500));
  const double heading = r.p(0.3) ? r.i(0, 3) * 90 : r.uni(0, 360);
  Built b;
  Build(c, s, origin, heading, 1, &b);
  CablePositionLocator loc;
  std::vector<Vector3d> w(8, Vector3d(0, 0, 0));
  Load q = {0, 1, 5000, 1};
  const int rounds = r.i(1, 4);
  for (int k = 0; k < rounds; k++) {
    const int change = k == 0 ? 31 : r.i(1, 31);
    if (change & 4) {
      q.wz = r.logu(0.3, 4);
      q.wy = r.p(0.4) ? 0 : q.wz * r.logu(0.05, 3);
    }
    if (change & 2) q.H = r.logu(1.0, 8) * longest * std::hypot(q.wy, q.wz);
    if (q.H < longest * std::hypot(q.wy, q.wz)) q.H = 1.2 * longest * std::hypot(q.wy, q.wz);
    if (change & 1) q.side = r.p(0.5) ? 1 : -1;
    w[k] = Vector3d(0, q.wy, q.wz);
    int order[5] = {0, 1, 2, 3, 4};
    for (int i = 4; i > 0; i--) std::swap(order[i], order[r.i(0, i)]);
    for (int i : order) {
      if (i > 2 && !((change >> i) & 1)) continue;
      Set(&loc, i, b, q, &w[k]);
      if (k > 0 && r.p(0.2)) {
        loc.PointsCableAttachment();
        c.event("reads_between_setters");
      }
    }
    c.clear_note();
    c.note("origin %.17g %.17g %.17g heading %.17g", origin.x, origin.y, origin.z, heading);
    for (int i = 0; i < n; i++)
      c.note("structure %d st=%.17g turn=%.17g el=%.17g rot=%.17g off=%.17g ht=%.17g att=%.17g/%.17g/%.17g hw=%.17g",
             i, s.station[i], s.turn[i], s.elevation[i], s.rotation[i], s.offset[i], s.height[i],
             s.lo[i], s.tr[i], s.vt[i], s.len[i]);
    c.note("load wy=%.17g wz=%.17g H=%.17g side=%d round %d", q.wy, q.wz, q.H, q.side, k);
    c.distinct(mon::hashd(mon::hashd(s.station[1], q.H), q.wy + q.side));
    if (c.want_sample()) c.sample(c.note_.substr(0, 400));
    Points p0;
    const bool ok = Judge(c, b, loc, q, &p0);
    if (ok) {
      std::list<ErrorMessage> msg;
      const bool valid = loc.Validate(r.p(0.5), &msg);
      c.check(valid, "validate", "a located cable does not validate: %s %s",
              msg.empty() ? "" : msg.front().title.c_str(),
              msg.empty() ? "" : msg.front().description.c_str());
    }
    if (r.p(0.5) && Ordinary(b, q)) {
      // the same line elsewhere, turned, or mirrored together with its wind
      const int mirror = r.p(0.5) ? -1 : 1;
      const double turn = r.uni(0, 360);
      const Point3d<double> o2(r.uni(-5000, 5000), r.uni(-5000, 5000), r.uni(0, 500));
      Built b2;
      Build(c, s, o2, turn, mirror, &b2);
      Load q2 = q;
      q2.side *= mirror;
      CablePositionLocator l2;
      for (int i = 0; i < 5; i++) Set(&l2, i, b2, q2, &w[k]);
      Points p2;
      const bool ok2 = Judge(c, b2, l2, q2, &p2);
      c.check(ok == ok2, "equivariance", "moved or mirrored, the cable is%s located", ok2 ? "" : " not");
      if (ok && ok2) {
        const ld h1 = gen::rad(heading), h2 = gen::rad(turn);
        for (int i = 0; i < n; i++) {
          ld x = (ld)p0[i].x - origin.x, y = (ld)p0[i].y - origin.y;
          const ld along = x * std::cos(h1) + y * std::sin(h1);
          const ld left = mirror * (y * std::cos(h1) - x * std::sin(h1));
          x = o2.x + along * std::cos(h2) - left * std::sin(h2);
          y = o2.y + along * std::sin(h2) + left * std::cos(h2);
          const ld z = (ld)p0[i].z - origin.z + o2.z;
          const double err = std::max(std::fabs((double)(x - p2[i].x)),
                                      std::max(std::fabs((double)(y - p2[i].y)), std::fabs((double)(z - p2[i].z))));
          c.check(err < 0.01, "equivariance", "attachment point %d is off by %g when %s", i, err,
                  mirror < 0 ? "mirrored" : "moved");
        }
        c.event(mirror < 0 ? "mirrored_lines" : "moved_lines");
      }
    }
  }
}
