// C06: coordinates of an edited line against reference geometry.
#include "line_model.h"

using namespace lm;

namespace mon {
const char* kTag = "geometry";
const char* kRule =
    "each case builds and edits a line (0-6 starting alignment points with "
    "turns up to a full circle, structures on and between points, offsets, "
    "rotations, heights, moved origin) and compares every reported coordinate "
    "with reference geometry at random moments of the history; non-trivial = a "
    "new edit history";
uint64_t FixedCases() { return 20; }
}  // namespace mon

void mon::RunCase(Ctx& c) {
  Rng& r = c.rng;
  const Library lib(r);
  Pair p;
  Editor ed(c, lib);
  ed.Start(&p);
  CompareGeometry(c, p.line, p.m, "start");
  const int n = r.i(2, 25);
  for (int i = 0; i < n; i++) {
    ed.Step(&p);
    if (r.p(0.5)) {
      // a partial read may leave one cache fresh and the other stale
      switch (r.i(0, 3)) {
        case 0: p.line.PointsXyzAlignment(); break;
        case 1: p.line.PointXyzLineStructure(0); break;
        case 2: p.line.Validate(true, nullptr); break;
        default: p.line.PointXyzAlignment(100); break;
      }
      c.event("reads_between_edits");
    }
    if (r.p(0.5)) CompareGeometry(c, p.line, p.m, fmt("after edit %d", i).c_str());
    if (c.nviol > 20) break;
  }
  CompareGeometry(c, p.line, p.m, "end");
  c.distinct(ed.hash());
  if (c.want_sample()) c.sample(c.note_.substr(0, 400));
}
