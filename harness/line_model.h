// An executable model of an edited transmission line: lists of what was
// successfully added and not removed, plus the reference geometry.
#ifndef VERIF_HARNESS_LINE_MODEL_H_
#define VERIF_HARNESS_LINE_MODEL_H_

#include <algorithm>
#include <climits>
#include <memory>

#include "gen.h"

namespace lm {
using gen::ld;
using mon::Ctx;
using mon::Rng;
using mon::fmt;

// Objects that lines reference; they outlive every line.
struct Library {
  std::vector<Structure> structures;
  std::vector<Hardware> hardwares;
  explicit Library(Rng& r) {
    for (int i = 0; i < 5; i++) {
      Structure s;
      s.name = fmt("structure %d", i);
      s.height = r.uni(10, 150);
      const int n = i == 4 ? 0 : r.i(1, 5);
      for (int j = 0; j < n; j++) {
        StructureAttachment a;
        a.offset_longitudinal = r.p(0.3) ? 0 : r.uni(-10, 10);
        a.offset_transverse = r.p(0.2) ? 0 : r.uni(-30, 30);
        a.offset_vertical_top = r.p(0.2) ? 0 : r.uni(-20, 0);
        s.attachments.push_back(a);
      }
      structures.push_back(s);
    }
    for (int i = 0; i < 4; i++) {
      Hardware h;
      h.area_cross_section = 0;
      h.length = r.uni(1, 10);
      h.name = fmt("hardware %d", i);
      h.type = i < 2 ? Hardware::HardwareType::kDeadEnd
                     : Hardware::HardwareType::kSuspension;
      h.weight = r.uni(10, 300);
      hardwares.push_back(h);
    }
    hardwares.push_back(Hardware());  // unset type
  }
};

struct MStructure {
  int id;
  double station, rotation, offset, height;
  const Structure* structure;
  std::vector<const Hardware*> hw;
};
struct MConn {
  int sid, att;
};
struct MCable {
  double tag;  // unique constraint limit
  std::vector<MConn> conns;
};
struct MPoint {
  double station, rotation, elevation;
};

struct Model {
  std::vector<MPoint> pts;
  std::vector<MStructure> strs;
  std::vector<MCable> cabs;
  Point3d<double> origin;

  bool ValidStation(double s) const {
    return !pts.empty() && pts.front().station <= s && s <= pts.back().station;
  }
  int IndexOf(int sid) const {
    for (size_t i = 0; i < strs.size(); i++)
      if (strs[i].id == sid) return i;
    return -1;
  }
  bool CableValid(const MCable& k) const {
    if (k.conns.size() < 2) return false;
    for (size_t i = 0; i < k.conns.size(); i++) {
      const int s = IndexOf(k.conns[i].sid);
      if (s < 0) return false;
      const int att = k.conns[i].att;
      if (att < 0 || att >= (int)strs[s].hw.size() || !strs[s].hw[att]) return false;
      const auto t = strs[s].hw[att]->type;
      const bool end = i == 0 || i + 1 == k.conns.size();
      if (t != (end ? Hardware::HardwareType::kDeadEnd : Hardware::HardwareType::kSuspension))
        return false;
    }
    return true;
  }
  void DropInvalidCables() {
    cabs.erase(std::remove_if(cabs.begin(), cabs.end(),
                              [&](const MCable& k) { return !CableValid(k); }),
               cabs.end());
  }
  void DropConns(int sid, int min_att) {
    for (MCable& k : cabs)
      k.conns.erase(std::remove_if(k.conns.begin(), k.conns.end(),
                                   [&](const MConn& m) {
                                     return m.sid == sid && m.att >= min_att;
                                   }),
                    k.conns.end());
  }
  void DropOutside() {
    for (size_t i = 0; i < strs.size();) {
      if (!ValidStation(strs[i].station)) {
        DropConns(strs[i].id, INT_MIN);
        strs.erase(strs.begin() + i);
      } else {
        i++;
      }
    }
    DropInvalidCables();
  }
  int AddPoint(const MPoint& p) {
    size_t i = 0;
    while (i < pts.size() && pts[i].station < p.station) i++;
    if (i < pts.size() && pts[i].station == p.station) return -1;
    pts.insert(pts.begin() + i, p);
    return i;
  }
  bool DeletePoint(int i) {
    if (i < 0 || i >= (int)pts.size()) return false;
    pts.erase(pts.begin() + i);
    DropOutside();
    return true;
  }
  int ModifyPoint(int i, const MPoint& p) {
    if (i < 0 || i >= (int)pts.size()) return -1;
    for (int j = 0; j < (int)pts.size(); j++)
      if (j != i && pts[j].station == p.station) return -1;
    pts.erase(pts.begin() + i);
    const int n = AddPoint(p);
    DropOutside();
    return n;
  }
  int AddStructure(const MStructure& s) {
    if (!ValidStation(s.station)) return -1;
    size_t i = 0;
    while (i < strs.size() && strs[i].station < s.station) i++;
    if (i < strs.size() && strs[i].station == s.station) return -1;
    strs.insert(strs.begin() + i, s);
    return i;
  }
  bool DeleteStructure(int i) {
    if (i < 0 || i >= (int)strs.size()) return false;
    DropConns(strs[i].id, INT_MIN);
    strs.erase(strs.begin() + i);
    DropInvalidCables();
    return true;
  }
  bool ModifyStructure(int i, MStructure s) {
    if (i < 0 || i >= (int)strs.size() || !ValidStation(s.station)) return false;
    if (i > 0 && s.station <= strs[i - 1].station) return false;
    if (i + 1 < (int)strs.size() && s.station >= strs[i + 1].station) return false;
    s.id = strs[i].id;
    strs[i] = s;
    DropConns(s.id, s.structure ? (int)s.structure->attachments.size() : 0);
    DropInvalidCables();
    return true;
  }
  bool Connected(int sid, int att) const {
    for (const MCable& k : cabs)
      for (const MConn& m : k.conns)
        if (m.sid == sid && m.att == att) return true;
    return false;
  }
  int AddCable(const MCable& k) {
    if (!CableValid(k)) return -1;
    for (const MConn& m : k.conns)
      if (Connected(m.sid, m.att)) return -1;
    const int s = IndexOf(k.conns[0].sid), a = k.conns[0].att;
    size_t i = 0;
    while (i < cabs.size()) {
      const int s2 = IndexOf(cabs[i].conns[0].sid), a2 = cabs[i].conns[0].att;
      if (s < s2 || (s == s2 && a < a2)) break;
      i++;
    }
    cabs.insert(cabs.begin() + i, k);
    return i;
  }
  bool DeleteCable(int i) {
    if (i < 0 || i >= (int)cabs.size()) return false;
    cabs.erase(cabs.begin() + i);
    return true;
  }
  int ModifyCable(int i, const MCable& k) {
    if (i < 0 || i >= (int)cabs.size()) return -1;
    const MCable old = cabs[i];
    cabs.erase(cabs.begin() + i);
    const int n = AddCable(k);
    if (n == -1) cabs.insert(cabs.begin() + i, old);
    return n;
  }

  // ---- reference geometry
  ld Heading(int seg) const {
    ld h = 0;
    for (int i = 0; i <= seg; i++) h += pts[i].rotation;
    return h;
  }
  void AlignmentXyz(int i, ld* o) const {
    o[0] = origin.x;
    o[1] = origin.y;
    for (int j = 0; j < i; j++) {
      const ld d = (ld)pts[j + 1].station - pts[j].station, h = gen::rad(Heading(j));
      o[0] += d * std::cos(h);
      o[1] += d * std::sin(h);
    }
    o[2] = (ld)origin.z + pts[i].elevation - pts[0].elevation;
  }
  int Segment(double s) const {  // the segment that contains s, back one on a point
    int i = 0;
    while (i + 2 < (int)pts.size() && s > pts[i + 1].station) i++;
    return i;
  }
  void StationXyz(double s, ld* o) const {
    if (pts.size() == 1) return AlignmentXyz(0, o);
    const int i = Segment(s);
    AlignmentXyz(i, o);
    const ld d = (ld)s - pts[i].station, h = gen::rad(Heading(i));
    o[0] += d * std::cos(h);
    o[1] += d * std::sin(h);
    o[2] += d * ((ld)pts[i + 1].elevation - pts[i].elevation) /
            ((ld)pts[i + 1].station - pts[i].station);
  }
  // heading of a structure; false if it is not well defined (line reverses)
  bool StructureHeading(double s, ld* h) const {
    if (pts.size() == 1) {
      *h = 0;
      return true;
    }
    const int i = Segment(s);
    *h = Heading(i);
    if (s == pts[i + 1].station && i + 2 < (int)pts.size()) {
      const ld turn = std::remainder((ld)pts[i + 1].rotation, (ld)360);
      // doubling back exactly bisects to the side it turns to; about that the
      // side is a matter of rounding
      if (std::fabs(std::fabs(turn) - 180) < 1 && std::fabs(turn) != 180) return false;
      *h += turn / 2;
    }
    return true;
  }
  bool AttachmentXyz(int si, int ai, ld* o) const {
    const MStructure& s = strs[si];
    const StructureAttachment& a = s.structure->attachments[ai];
    ld h;
    StationXyz(s.station, o);
    if (!StructureHeading(s.station, &h)) return false;
    ld r = gen::rad(s.rotation), x = a.offset_longitudinal, y = -a.offset_transverse;
    const ld x1 = x * std::cos(r) - y * std::sin(r);
    const ld y1 = x * std::sin(r) + y * std::cos(r) - s.offset;
    h = gen::rad(h);
    o[0] += x1 * std::cos(h) - y1 * std::sin(h);
    o[1] += x1 * std::sin(h) + y1 * std::cos(h);
    o[2] += (ld)s.height + s.structure->height + a.offset_vertical_top;
    return true;
  }
};

inline LineStructure ToReal(const MStructure& m) {
  LineStructure s;
  s.set_structure(m.structure);
  for (size_t i = 0; i < m.hw.size(); i++)
    if (m.hw[i]) s.AttachHardware(i, m.hw[i]);
  s.set_height_adjustment(m.height);
  s.set_offset(m.offset);
  s.set_rotation(m.rotation);
  s.set_station(m.station);
  return s;
}

// Compares everything the line lets one see with the model.
inline void CompareState(Ctx& c, const TransmissionLine& line, const Model& m,
                         const char* when) {
  const std::list<AlignmentPoint>* pts = line.alignment()->points();
  if (!c.check(pts->size() == m.pts.size(), "alignment-points", "%s: %d points, expected %d", when,
               (int)pts->size(), (int)m.pts.size()))
    return;
  int i = 0;
  for (const AlignmentPoint& p : *pts) {
    const MPoint& q = m.pts[i];
    c.check(p.station == q.station && p.rotation == q.rotation && p.elevation == q.elevation,
            "alignment-points", "%s: alignment point %d is %g/%g/%g, expected %g/%g/%g", when, i,
            p.station, p.rotation, p.elevation, q.station, q.rotation, q.elevation);
    i++;
  }
  const std::list<LineStructure>* ss = line.line_structures();
  if (!c.check(ss->size() == m.strs.size(), "line-structures", "%s: %d structures, expected %d",
               when, (int)ss->size(), (int)m.strs.size()))
    return;
  i = 0;
  for (const LineStructure& s : *ss) {
    const MStructure& q = m.strs[i];
    c.check(s.station() == q.station && s.rotation() == q.rotation && s.offset() == q.offset &&
                s.height_adjustment() == q.height && s.structure() == q.structure &&
                *s.hardwares() == q.hw,
            "line-structures", "%s: line structure %d (station %g) differs, expected station %g",
            when, i, s.station(), q.station);
    c.check(line.IndexLineStructure(&s) == i, "index-line-structure",
            "%s: IndexLineStructure of structure %d is %d", when, i, line.IndexLineStructure(&s));
    i++;
  }
  const std::list<LineCable>* cs = line.line_cables();
  if (!c.check(cs->size() == m.cabs.size(), "line-cables", "%s: %d cables, expected %d", when,
               (int)cs->size(), (int)m.cabs.size()))
    return;
  i = 0;
  for (const LineCable& k : *cs) {
    const MCable& q = m.cabs[i];
    c.check(k.constraint().limit == q.tag, "line-cables", "%s: cable %d is %g, expected %g", when,
            i, k.constraint().limit, q.tag);
    c.check(k.connections()->size() == q.conns.size(), "connections",
            "%s: cable %d has %d connections, expected %d", when, i,
            (int)k.connections()->size(), (int)q.conns.size());
    size_t j = 0;
    for (const LineCableConnection& n : *k.connections()) {
      if (j >= q.conns.size()) break;
      const int at = line.IndexLineStructure(n.line_structure);
      c.check(at >= 0, "dangling-connection",
              "%s: cable %d connection %d refers to no structure of the line", when, i, (int)j);
      c.check(at == m.IndexOf(q.conns[j].sid) && n.index_attachment == q.conns[j].att,
              "connections", "%s: cable %d connection %d is structure %d attachment %d, expected %d/%d",
              when, i, (int)j, at, n.index_attachment, m.IndexOf(q.conns[j].sid), q.conns[j].att);
      j++;
    }
    i++;
  }
  for (int s = -1; s <= (int)m.strs.size(); s++) {
    for (int a = -1; a <= 5; a++) {
      const bool e = s >= 0 && s < (int)m.strs.size() && m.Connected(m.strs[s].id, a);
      c.check(line.HasConnection(s, a) == e, "has-connection", "%s: HasConnection(%d,%d) is %d",
              when, s, a, !e);
    }
  }
}

// Compares all reported coordinates with the reference geometry.
inline void CompareGeometry(Ctx& c, const TransmissionLine& line, const Model& m,
                            const char* when) {
  Rng& r = c.rng;
  auto near3 = [&](const Point3d<double>& p, const ld* o, double tol, const char* key,
                   const char* what) {
    const double d = std::max(std::fabs(p.x - (double)o[0]),
                              std::max(std::fabs(p.y - (double)o[1]), std::fabs(p.z - (double)o[2])));
    c.check(d <= tol, key, "%s: %s is (%.12g, %.12g, %.12g), expected (%.12g, %.12g, %.12g)", when,
            what, p.x, p.y, p.z, (double)o[0], (double)o[1], (double)o[2]);
  };
  ld o[3];
  const double len = m.pts.size() ? m.pts.back().station - m.pts.front().station : 0;
  const double tol = 1e-9 * (len + std::fabs(m.origin.x) + std::fabs(m.origin.y) +
                             std::fabs(m.origin.z) + 10000) + 1e-6;
  const int first = r.i(0, 3);
  for (int step = 0; step < 4; step++) {
    switch ((first + step) % 4) {
      case 0: {
        const auto* ps = line.PointsXyzAlignment();
        if (!c.check(ps && ps->size() == m.pts.size(), "xyz-alignment", "%s: alignment coordinates",
                     when)) break;
        for (size_t i = 0; i < m.pts.size(); i++) {
          m.AlignmentXyz(i, o);
          near3(ps->at(i), o, tol, "xyz-alignment", fmt("alignment point %d", (int)i).c_str());
        }
        c.event("alignment_points_located", m.pts.size());
        break;
      }
      case 1: {
        const auto* ps = line.PointsXyzLineStructures();
        if (!c.check(ps && ps->size() == m.strs.size(), "xyz-structure",
                     "%s: structure coordinates", when)) break;
        for (size_t i = 0; i < m.strs.size(); i++) {
          m.StationXyz(m.strs[i].station, o);
          near3(ps->at(i), o, tol, "xyz-structure", fmt("structure %d", (int)i).c_str());
          near3(line.PointXyzLineStructure(i), o, tol, "xyz-structure",
                fmt("structure point %d", (int)i).c_str());
        }
        c.event("structures_located", m.strs.size());
        break;
      }
      case 2: {
        for (size_t i = 0; i < m.strs.size(); i++) {
          const Structure* s = m.strs[i].structure;
          const int n = s ? s->attachments.size() : 0;
          for (int a = 0; a < n; a++) {
            const Point3d<double> p = line.PointXyzLineStructureAttachment(i, a);
            if (!m.AttachmentXyz(i, a, o)) {
              c.event("reversing_line_skipped");
              continue;
            }
            near3(p, o, tol + 1e-4, "xyz-attachment",
                  fmt("structure %d attachment %d", (int)i, a).c_str());
            c.event("attachments_located");
          }
          const Point3d<double> p = line.PointXyzLineStructureAttachment(i, r.p(0.5) ? -1 : n);
          const Point3d<double> q;
          c.check(p.x == q.x && p.y == q.y && p.z == q.z, "xyz-attachment",
                  "%s: a missing attachment has coordinates", when);
        }
        break;
      }
      default: {
        for (int i = 0; i < 3; i++) {
          double s = len == 0 ? (m.pts.empty() ? 5 : m.pts[0].station)
                              : r.uni(m.pts.front().station, m.pts.back().station);
          if (r.p(0.3) && !m.pts.empty()) s = m.pts[r.i(0, m.pts.size() - 1)].station;
          if (r.p(0.1)) s += len + 1;
          if (r.p(0.1)) s = -1;
          const Point3d<double> p = line.PointXyzAlignment(s);
          if (!m.ValidStation(s)) {
            const Point3d<double> q;
            c.check(p.x == q.x && p.y == q.y && p.z == q.z, "xyz-alignment",
                    "%s: station %g beyond the alignment has coordinates", when, s);
          } else {
            m.StationXyz(s, o);
            near3(p, o, tol, "xyz-alignment", fmt("station %.17g", s).c_str());
            c.event("stations_located");
          }
        }
      }
    }
  }
}

// A line under test together with its model.
struct Pair {
  TransmissionLine line;
  Model m;
};

class Editor {
 public:
  Editor(Ctx& c, const Library& lib) : c_(c), r_(c.rng), lib_(lib), next_id_(1), tag_(1) {}

  // one random edit of both the line and the model
  void Step(Pair* p) {
    const int k = r_.i(0, 104);
    TransmissionLine& L = p->line;
    Model& m = p->m;
    if (k >= 100) {
      Own(p);
    } else if (k < 14) {
      AddPoint(p);
    } else if (k < 17) {
      const int i = Index(m.pts.size());
      note("DeleteAlignmentPoint(%d)", i);
      const bool e = m.DeletePoint(i), g = L.DeleteAlignmentPoint(i);
      c_.check(e == g, "return", "DeleteAlignmentPoint(%d) returned %d, expected %d", i, g, e);
      c_.event(e ? "delete_point" : "rejected_operation");
    } else if (k < 26) {
      const int i = Index(m.pts.size());
      MPoint q = Point(m);
      if (r_.p(0.5) && i >= 0 && i < (int)m.pts.size()) q.station = m.pts[i].station;
      note("ModifyAlignmentPoint(%d, st=%.17g rot=%.17g el=%.17g)", i, q.station, q.rotation, q.elevation);
      const int e = m.ModifyPoint(i, q), g = L.ModifyAlignmentPoint(i, Real(q));
      c_.check(e == g, "return", "ModifyAlignmentPoint(%d) returned %d, expected %d", i, g, e);
      c_.event(e >= 0 ? "modify_point" : "rejected_operation");
    } else if (k < 46) {
      const MStructure s = Struct(m);
      note("AddLineStructure(st=%.17g)", s.station);
      const int e = m.AddStructure(s), g = L.AddLineStructure(ToReal(s));
      c_.check(e == g, "return", "AddLineStructure at %g returned %d, expected %d", s.station, g, e);
      c_.event(e >= 0 ? "add_structure" : "rejected_operation");
    } else if (k < 50) {
      const int i = Index(m.strs.size());
      note("DeleteLineStructure(%d)", i);
      const bool e = m.DeleteStructure(i), g = L.DeleteLineStructure(i);
      c_.check(e == g, "return", "DeleteLineStructure(%d) returned %d, expected %d", i, g, e);
      c_.event(e ? "delete_structure" : "rejected_operation");
    } else if (k < 63) {
      const int i = Index(m.strs.size());
      MStructure s = Struct(m);
      if (i >= 0 && i < (int)m.strs.size() && r_.p(0.8)) {
        const MStructure old = m.strs[i];
        double st = r_.p(0.6) ? old.station : s.station;
        if (r_.p(0.15)) st = old.station + (r_.p(0.5) ? 1 : -1) * r_.logu(1e-6, 1);
        if (r_.p(0.5)) {
          s.hw = old.hw;
          s.structure = old.structure;
          if (!s.hw.empty() && r_.p(0.4)) s.hw[r_.i(0, s.hw.size() - 1)] = Hw();
        }
        s.station = st;
      }
      note("ModifyLineStructure(%d, st=%.17g)", i, s.station);
      const size_t before = m.cabs.size();
      const bool e = m.ModifyStructure(i, s), g = L.ModifyLineStructure(i, ToReal(s));
      c_.check(e == g, "return", "ModifyLineStructure(%d) to %g returned %d, expected %d", i, s.station, g, e);
      c_.event(e ? "modify_structure" : "rejected_operation");
      if (m.cabs.size() < before) c_.event("cables_dropped_by_edit");
    } else if (k < 85) {
      AddCable(p, -2);
    } else if (k < 89) {
      const int i = Index(m.cabs.size());
      note("DeleteLineCable(%d)", i);
      const bool e = m.DeleteCable(i), g = L.DeleteLineCable(i);
      c_.check(e == g, "return", "DeleteLineCable(%d) returned %d, expected %d", i, g, e);
      c_.event(e ? "delete_cable" : "rejected_operation");
    } else if (k < 96) {
      AddCable(p, Index(m.cabs.size()));
    } else {
      const Point3d<double> o(r_.uni(-1e4, 1e4), r_.uni(-1e4, 1e4), r_.uni(0, 1000));
      // all of it or one coordinate
      const int w = r_.i(0, 5);
      if (w >= 3 || w == 0) m.origin.x = o.x;
      if (w >= 3 || w == 1) m.origin.y = o.y;
      if (w >= 3 || w == 2) m.origin.z = o.z;
      note("set_origin(%.17g,%.17g,%.17g)", m.origin.x, m.origin.y, m.origin.z);
      L.set_origin(m.origin);
      c_.check(L.origin().x == m.origin.x && L.origin().z == m.origin.z, "origin", "origin getter");
      c_.event("set_origin");
    }
  }

  // an operation whose argument is a reference to an element of the very line
  // it is applied to, including the element that is replaced
  void Own(Pair* p) {
    TransmissionLine& L = p->line;
    Model& m = p->m;
    const bool adds = r_.p(0.2);
    auto pick = [&](size_t n) { return n == 0 ? -1 : r_.i(0, (int)n - 1); };
    const int w = r_.i(0, 2);
    const size_t n = w == 0 ? m.pts.size() : w == 1 ? m.strs.size() : m.cabs.size();
    const int j = pick(n), i = r_.p(0.6) ? j : Index(n);
    if (j < 0) return;
    int e, g;
    note("own element: kind %d, %s %d by element %d", w, adds ? "add" : "modify", i, j);
    if (w == 0) {
      const AlignmentPoint& x = *std::next(L.alignment()->points()->begin(), j);
      const MPoint q = m.pts[j];
      e = adds ? m.AddPoint(q) : m.ModifyPoint(i, q);
      g = adds ? L.AddAlignmentPoint(x) : L.ModifyAlignmentPoint(i, x);
    } else if (w == 1) {
      const LineStructure& x = *std::next(L.line_structures()->begin(), j);
      const MStructure q = m.strs[j];
      e = adds ? m.AddStructure(q) : (int)m.ModifyStructure(i, q);
      g = adds ? L.AddLineStructure(x) : (int)L.ModifyLineStructure(i, x);
    } else {
      const LineCable& x = *std::next(L.line_cables()->begin(), j);
      const MCable q = m.cabs[j];
      e = adds ? m.AddCable(q) : m.ModifyCable(i, q);
      g = adds ? L.AddLineCable(x) : L.ModifyLineCable(i, x);
    }
    c_.check(e == g, "return", "an operation on the line's own element returned %d, expected %d", g, e);
    c_.event(!adds && i == j ? "element_modified_by_itself" : "own_element_given");
  }

  // a line with an alignment and structures to work on
  void Start(Pair* p) {
    p->m.origin = Point3d<double>(0, 0, 0);
    p->line.set_origin(p->m.origin);
    const int n = r_.i(0, 6);
    for (int i = 0; i < n; i++) AddPoint(p);
    // now and then a long line
    const int s = r_.p(0.06) ? r_.i(9, 20) : r_.i(0, 6);
    for (int i = 0; i < s; i++) {
      const MStructure q = Struct(p->m);
      note("AddLineStructure(st=%.17g)", q.station);
      const int e = p->m.AddStructure(q), g = p->line.AddLineStructure(ToReal(q));
      c_.check(e == g, "return", "AddLineStructure at %g returned %d, expected %d", q.station, g, e);
    }
    const int k = r_.i(0, 5);
    for (int i = 0; i < k; i++) AddCable(p, -2);
  }

  uint64_t hash() const { return hash_; }

 private:
  template <class... A>
  void note(const char* f, A... a) {
    const std::string s = fmt(f, a...);
    for (char ch : s) hash_ = (hash_ ^ (unsigned char)ch) * 1099511628211ull;
    c_.note("%s", s.c_str());
  }
  int Index(int n) {
    if (n > 0 && r_.p(0.9)) return r_.p(0.3) ? (r_.p(0.5) ? 0 : n - 1) : r_.i(0, n - 1);
    static const int bad[] = {-1, -2, INT_MIN, INT_MAX};
    return r_.p(0.5) ? n + r_.i(0, 2) : bad[r_.i(0, 3)];
  }
  static AlignmentPoint Real(const MPoint& q) {
    AlignmentPoint p;
    p.station = q.station;
    p.rotation = q.rotation;
    p.elevation = q.elevation;
    return p;
  }
  MPoint Point(const Model& m) {
    MPoint q;
    q.station = r_.p(0.5) ? r_.i(0, 60) * 100 : r_.uni(0, 6000);
    if (r_.p(0.1) && !m.pts.empty()) q.station = m.pts[r_.i(0, m.pts.size() - 1)].station;
    q.rotation = r_.p(0.3) ? 0 : r_.p(0.2) ? r_.i(-4, 4) * 90 : r_.p(0.8) ? r_.uni(-90, 90) : r_.uni(-360, 360);
    if (q.rotation != 0 && std::fabs(q.rotation) < 0.001) q.rotation = 0.5;
    q.elevation = r_.uni(0, 500);
    return q;
  }
  const Hardware* Hw() {
    const int i = r_.i(0, 9);
    if (i < 4) return &lib_.hardwares[r_.i(0, 1)];
    if (i < 8) return &lib_.hardwares[r_.i(2, 3)];
    if (i < 9) return nullptr;
    return &lib_.hardwares[4];
  }
  MStructure Struct(const Model& m) {
    MStructure s;
    s.id = next_id_++;
    double a = 0, b = 6000;
    if (m.pts.size() >= 2) {
      a = m.pts.front().station;
      b = m.pts.back().station;
    }
    s.station = r_.p(0.4) ? std::floor(r_.uni(a, b) / 50) * 50 : r_.uni(a, b);
    if (r_.p(0.35) && !m.pts.empty()) s.station = m.pts[r_.i(0, m.pts.size() - 1)].station;
    if (r_.p(0.05)) s.station = r_.p(0.5) ? b + 10 : a - 10;
    s.rotation = r_.p(0.4) ? 0 : r_.uni(-360, 360);
    if (s.rotation != 0 && std::fabs(s.rotation) < 0.001) s.rotation = 0.5;
    s.offset = r_.p(0.4) ? 0 : r_.uni(-50, 50);
    s.height = r_.p(0.3) ? 0 : r_.uni(0, 40);
    s.structure = r_.p(0.04) ? nullptr : &lib_.structures[r_.i(0, r_.p(0.9) ? 3 : 4)];
    if (s.structure) {
      // mostly one type per structure so that cables find matching hardware
      const Hardware* h = Hw();
      for (size_t i = 0; i < s.structure->attachments.size(); i++)
        s.hw.push_back(r_.p(0.8) ? h : Hw());
    }
    return s;
  }
  void AddPoint(Pair* p) {
    const MPoint q = Point(p->m);
    note("AddAlignmentPoint(st=%.17g rot=%.17g el=%.17g)", q.station, q.rotation, q.elevation);
    const int e = p->m.AddPoint(q), g = p->line.AddAlignmentPoint(Real(q));
    c_.check(e == g, "return", "AddAlignmentPoint at %g returned %d, expected %d", q.station, g, e);
    c_.event(e >= 0 ? "add_point" : "rejected_operation");
  }
  // index -2: add, otherwise modify cable `index`
  void AddCable(Pair* p, int index) {
    Model& m = p->m;
    MCable k;
    k.tag = tag_++;
    LineCable real;
    CableConstraint con;
    con.limit = k.tag;
    real.set_constraint(con);
    std::vector<std::pair<int, int>> want;  // structure index, attachment
    const int n = m.strs.size();
    if (n && r_.p(0.85)) {
      // walk forward picking hardware that fits
      int i = r_.i(0, n - 1);
      bool started = false;
      for (; i < n; i++) {
        std::vector<int> de, su;
        for (int a = 0; a < (int)m.strs[i].hw.size(); a++) {
          const Hardware* h = m.strs[i].hw[a];
          if (!h || (m.Connected(m.strs[i].id, a) && r_.p(0.9))) continue;
          if (h->type == Hardware::HardwareType::kDeadEnd) de.push_back(a);
          if (h->type == Hardware::HardwareType::kSuspension) su.push_back(a);
        }
        if (!started) {
          if (!de.empty()) {
            want.push_back({i, de[r_.i(0, de.size() - 1)]});
            started = true;
          }
        } else if (!de.empty() && r_.p(n > 8 ? 0.1 : 0.5)) {
          want.push_back({i, de[r_.i(0, de.size() - 1)]});
          break;
        } else if (!su.empty() && r_.p(0.8)) {
          want.push_back({i, su[r_.i(0, su.size() - 1)]});
        }
      }
    } else {
      const int z = r_.i(0, 4);
      for (int i = 0; i < z; i++)
        if (n) want.push_back({r_.i(0, n - 1), r_.i(-1, 5)});
    }
    // any order of adding gives the same sorted connections
    for (size_t i = want.size(); i > 1; i--) std::swap(want[i - 1], want[r_.i(0, i - 1)]);
    for (auto& w : want) {
      LineCableConnection x;
      x.line_structure = &*std::next(p->line.line_structures()->begin(), w.first);
      x.index_attachment = w.second;
      // model of the sorted connection list
      size_t at = 0;
      bool dup = false;
      for (; at < k.conns.size(); at++) {
        const int o = m.IndexOf(k.conns[at].sid);
        if (o == w.first) dup = true;
        if (o >= w.first) break;
      }
      const int e = dup ? -1 : (int)at;
      const int g = real.AddConnection(x);
      c_.check(e == g, "return-connection", "AddConnection returned %d, expected %d", g, e);
      if (!dup) k.conns.insert(k.conns.begin() + at, MConn{m.strs[w.first].id, w.second});
    }
    LineStructure foreign;
    std::unique_ptr<LineStructure> keep;
    if (r_.p(0.04)) {
      // a structure that the line does not own
      MStructure s = Struct(m);
      s.station = 1e6;
      foreign = ToReal(s);
      LineCableConnection x;
      x.line_structure = &foreign;
      x.index_attachment = 0;
      real.AddConnection(x);
      k.conns.push_back(MConn{-7, 0});
    }
    if (r_.p(0.05)) {
      LineCableConnection x;
      c_.check(real.AddConnection(x) == -1, "return-connection",
               "a connection without a structure was accepted");
    }
    if (index == -2) {
      note("AddLineCable(%g, %d connections)", k.tag, (int)k.conns.size());
      const int e = m.AddCable(k), g = p->line.AddLineCable(real);
      c_.check(e == g, "return", "AddLineCable returned %d, expected %d", g, e);
      c_.event(e >= 0 ? "add_cable" : "rejected_operation");
      if (e >= 0 && k.conns.size() > 2) c_.event("add_cable_with_suspension");
    } else {
      if (r_.p(0.5) && index >= 0 && index < (int)m.cabs.size()) {
        // the same connections with another payload
        const double t = k.tag;
        k = m.cabs[index];
        k.tag = t;
        real = *std::next(p->line.line_cables()->begin(), index);
        real.set_constraint(con);
      }
      note("ModifyLineCable(%d, %g)", index, k.tag);
      const int e = m.ModifyCable(index, k), g = p->line.ModifyLineCable(index, real);
      c_.check(e == g, "return", "ModifyLineCable(%d) returned %d, expected %d", index, g, e);
      c_.event(e >= 0 ? "modify_cable" : "rejected_operation");
    }
  }

  Ctx& c_;
  Rng& r_;
  const Library& lib_;
  int next_id_;
  double tag_;
  uint64_t hash_ = 1469598103934665603ull;
};

}  // namespace lm

#endif  // VERIF_HARNESS_LINE_MODEL_H_
