// C05: edit histories of TransmissionLine, Alignment, LineCable and
// LineStructure against executable list models.
#include "line_model.h"

using namespace lm;

namespace mon {
const char* kTag = "lineedit";
const char* kRule =
    "each case applies 5-60 random edits (add/modify/delete of alignment "
    "points, line structures and line cables with valid, duplicate, "
    "out-of-range and foreign arguments) to one line and compares its complete "
    "visible state with a list model after every edit; further cases edit a "
    "standalone alignment, line cable or line structure; non-trivial = a new "
    "edit history with at least one accepted edit";
uint64_t FixedCases() { return 20; }
}  // namespace mon

static void Line(Ctx& c) {
  Rng& r = c.rng;
  const Library lib(r);
  Pair p;
  Editor ed(c, lib);
  ed.Start(&p);
  CompareState(c, p.line, p.m, "start");
  const int n = r.i(5, 60);
  for (int i = 0; i < n; i++) {
    ed.Step(&p);
    CompareState(c, p.line, p.m, fmt("after edit %d", i).c_str());
    if (r.p(0.1)) p.line.Validate(r.p(0.5), nullptr);
    if (r.p(0.1)) p.line.PointsXyzLineStructures();
    if (c.nviol > 20) break;
  }
  c.event("line_histories");
  c.distinct(ed.hash());
  if (c.want_sample()) c.sample(c.note_.substr(0, 400));
}

static void AlignmentOnly(Ctx& c) {
  Rng& r = c.rng;
  Alignment a;
  Model m;
  uint64_t h = 7;
  const int n = r.i(3, 40);
  for (int i = 0; i < n; i++) {
    AlignmentPoint p;
    p.station = r.p(0.7) ? r.i(-2, 20) * 10 : r.uni(-10, 200);
    p.rotation = r.uni(-400, 400);
    p.elevation = r.uni(-5, 500);
    const MPoint q = {p.station, p.rotation, p.elevation};
    const int at = r.p(0.85) && !m.pts.empty() ? r.i(0, m.pts.size() - 1) : r.i(-2, 25);
    const int op = r.i(0, 4);
    h = mon::hashd(mon::mix(h, op * 64 + at + 3), p.station);
    c.note("alignment op %d at %d station %.17g", op, at, p.station);
    if (op <= 2) {
      const int e = m.AddPoint(q), g = a.AddPoint(p);
      c.check(e == g, "alignment-return", "AddPoint returned %d, expected %d", g, e);
    } else if (op == 3) {
      const int own = !m.pts.empty() && r.p(0.2) ? r.p(0.5) && at >= 0 && at < (int)m.pts.size() ? at : r.i(0, m.pts.size() - 1) : -1;
      const MPoint mq = own >= 0 ? m.pts[own] : q;
      const int e = m.ModifyPoint(at, mq);
      const int g = a.ModifyPoint(at, own >= 0 ? *std::next(a.points()->begin(), own) : p);
      if (own >= 0) c.event("alignment_own_point_given");
      c.check(e == g, "alignment-return", "ModifyPoint(%d) returned %d, expected %d", at, g, e);
    } else {
      const bool e = m.DeletePoint(at), g = a.DeletePoint(at);
      c.check(e == g, "alignment-return", "DeletePoint(%d) returned %d, expected %d", at, g, e);
    }
    c.check(a.points()->size() == m.pts.size(), "alignment-list", "size");
    size_t j = 0;
    bool ok = true;
    for (const AlignmentPoint& x : *a.points()) {
      if (j >= m.pts.size()) break;
      if (x.station != m.pts[j].station || x.rotation != m.pts[j].rotation ||
          x.elevation != m.pts[j].elevation) ok = false;
      j++;
    }
    c.check(ok, "alignment-list", "the alignment's points differ from what was added");
    for (int k = 0; k < 3; k++) {
      double s = r.uni(-20, 220);
      if (r.p(0.5) && !m.pts.empty()) s = m.pts[r.i(0, m.pts.size() - 1)].station;
      const bool v = m.ValidStation(s);
      c.check(a.IsValidStation(s) == v, "valid-station", "IsValidStation(%g) is %d", s, !v);
      const int e = !v ? -1 : m.pts.size() == 1 ? 0 : m.Segment(s);
      c.check(a.IndexSegment(s) == e, "index-segment", "IndexSegment(%g) is %d, expected %d", s,
              a.IndexSegment(s), e);
    }
  }
  c.distinct(h);
  c.event("alignment_histories");
}

static void CableOnly(Ctx& c) {
  Rng& r = c.rng;
  std::vector<LineStructure> ss(8);
  for (auto& s : ss) s.set_station(r.i(0, 6) * 100);
  LineCable k;
  std::vector<LineCableConnection> m;
  auto add = [&](const LineCableConnection& x) -> int {
    if (!x.line_structure) return -1;
    size_t i = 0;
    while (i < m.size() && m[i].line_structure->station() < x.line_structure->station()) i++;
    if (i < m.size() && m[i].line_structure->station() == x.line_structure->station()) return -1;
    m.insert(m.begin() + i, x);
    return i;
  };
  uint64_t h = 9;
  const int n = r.i(3, 40);
  for (int i = 0; i < n; i++) {
    LineCableConnection x;
    const int w = r.i(0, 8);
    x.line_structure = w == 8 ? nullptr : &ss[w];
    x.index_attachment = r.i(-1, 4);
    const int at = r.p(0.8) && !m.empty() ? r.i(0, m.size() - 1) : r.i(-2, 10);
    const int op = r.i(0, 9);
    h = mon::mix(h, op * 1000 + at * 10 + w);
    c.note("connection op %d at %d structure %d station %g", op, at, w, w == 8 ? -1.0 : ss[w].station());
    if (op < 5) {
      const int e = add(x), g = k.AddConnection(x);
      c.check(e == g, "cable-return", "AddConnection returned %d, expected %d", g, e);
    } else if (op < 7) {
      int e = -1;
      const int own = !m.empty() && r.p(0.2) ? r.p(0.5) && at >= 0 && at < (int)m.size() ? at : r.i(0, m.size() - 1) : -1;
      if (own >= 0) x = m[own], c.event("cable_own_connection_given");
      if (at >= 0 && at < (int)m.size()) {
        const std::vector<LineCableConnection> old = m;
        m.erase(m.begin() + at);
        e = add(x);
        if (e == -1) m = old;
      }
      const int g = k.ModifyConnection(at, own >= 0 ? *std::next(k.connections()->begin(), own) : x);
      c.check(e == g, "cable-return", "ModifyConnection(%d) returned %d, expected %d", at, g, e);
    } else if (op < 9) {
      const bool e = at >= 0 && at < (int)m.size();
      if (e) m.erase(m.begin() + at);
      c.check(k.DeleteConnection(at) == e, "cable-return", "DeleteConnection(%d) returned %d", at, !e);
    } else if (r.p(0.3)) {
      k.ClearConnections();
      m.clear();
    }
    c.check(k.connections()->size() == m.size(), "cable-connections", "size %d expected %d",
            (int)k.connections()->size(), (int)m.size());
    size_t j = 0;
    for (const LineCableConnection& y : *k.connections()) {
      if (j >= m.size()) break;
      c.check(y.line_structure == m[j].line_structure && y.index_attachment == m[j].index_attachment,
              "cable-connections", "connection %d differs", (int)j);
      j++;
    }
  }
  c.distinct(h);
  c.event("line_cable_histories");
}

static void StructureOnly(Ctx& c) {
  Rng& r = c.rng;
  const Library lib(r);
  LineStructure s;
  std::vector<const Hardware*> m;
  uint64_t h = 11;
  const int n = r.i(3, 30);
  for (int i = 0; i < n; i++) {
    const int op = r.i(0, 2), at = r.i(-1, 6), w = r.i(0, 4);
    h = mon::mix(h, op * 1000 + at * 10 + w);
    c.note("structure op %d at %d with %d", op, at, w);
    if (op == 0 && r.p(0.5)) {
      const Structure* t = r.p(0.1) ? nullptr : &lib.structures[w];
      s.set_structure(t);
      m.resize(t ? t->attachments.size() : 0, nullptr);
      c.check(s.structure() == t, "structure-hardware", "structure getter");
    } else if (op == 1) {
      s.AttachHardware(at, &lib.hardwares[w]);
      if (at >= 0 && at < (int)m.size()) m[at] = &lib.hardwares[w];
    } else {
      s.DetachHardware(at);
      if (at >= 0 && at < (int)m.size()) m[at] = nullptr;
    }
    c.check(*s.hardwares() == m, "structure-hardware", "the hardware list differs from what was attached");
  }
  c.distinct(h);
  c.event("line_structure_histories");
}

void mon::RunCase(Ctx& c) {
  switch (c.rng.i(0, 9)) {
    case 0: AlignmentOnly(c); break;
    case 1: CableOnly(c); break;
    case 2: StructureOnly(c); break;
    default: Line(c); break;
  }
}
