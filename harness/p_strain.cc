// C12: CableStrainer and CatenaryCableUnloader against independent elongation.
#include "ref_sag.h"

#include "models/sagtension/cable_strainer.h"
#include "models/sagtension/catenary_cable_unloader.h"

using gen::ld;
using mon::Ctx;
using mon::Rng;
using mon::fmt;
using ref::State;

namespace mon {
const char* kTag = "strain";
const char* kRule =
    "each case drives one strainer and one unloader through 1-5 settings of "
    "one cable in random states and compares every finish and unloaded length "
    "with independent component curves and statics, undoes each straining, and "
    "raises the tension of each catenary; non-trivial = a new setting";
uint64_t FixedCases() { return 20; }
}  // namespace mon

void mon::RunCase(Ctx& c) {
  Rng& r = c.rng;
  std::vector<Cable> cables(1, r.p(0.2) ? gen::Drake() : gen::RandomCable(r));
  Cable& b = cables[0];
  if (r.p(0.2)) {
    (r.p(0.7) ? b.component_core : b.component_shell) = gen::Mono().component_core;
    b.strength_rated *= 0.4;
    c.event("single_component");
  }
  SagTensionCable k;
  k.set_cable_base(&b);
  State st[2];
  CableElongationModel model[2];
  model[0].set_cable(&k);
  model[1].set_cable(&k);
  CableStrainer s;
  CatenaryCableUnloader u;
  ref::Hung hung;
  Catenary3d cat;
  double length = 0, load[2] = {0, 0};
  // the objects are wired once; everything after is changes
  auto wire = [&](int i) {
    if (i == 0) {
      s.set_model_start(&model[0]);
      u.set_model_reference(&model[0]);
    } else {
      s.set_model_finish(&model[1]);
      u.set_model_unloaded(&model[1]);
    }
  };
  const bool late = r.p(0.5);
  if (!late) wire(0), wire(1);
  const int rounds = r.i(1, 5);
  for (int round = 0; round < rounds; round++) {
    int change = round == 0 ? 31 : r.i(1, 31);
    const bool small = round > 0 && r.p(0.3);
    if (small) c.event("small_changes");
    int order[5] = {0, 1, 2, 3, 4};
    for (int i = 4; i > 0; i--) std::swap(order[i], order[r.i(0, i)]);
    for (int i : order) {
      if (!((change >> i) & 1)) continue;
      if (i < 2) {
        if (small) {
          st[i].s.temperature += r.uni(-0.02, 0.02);
          if (r.p(0.5)) st[i].x.load = std::fabs(st[i].x.load + r.uni(-1, 1));
        } else if (i == 1 && round > 0 && r.p(0.3)) {
          st[1] = st[0];
        } else {
          st[i] = ref::DrawState(r, k);
        }
        if (r.p(0.5)) {
          model[i].set_state(st[i].s);
          model[i].set_state_stretch(st[i].x);
        } else {
          model[i].set_state_stretch(st[i].x);
          model[i].set_state(st[i].s);
        }
        if (round == 0 && late) wire(i);
      } else if (i == 2) {
        length = small ? length * (1 + r.uni(-1e-6, 1e-6)) : r.logu(10, 5000);
        s.set_length_start(length);
      } else if (i == 3) {
        for (int j = 0; j < 2; j++)
          if (r.p(0.7) || round == 0)
            load[j] = small ? std::fabs(load[j] + r.uni(-0.5, 0.5))
                            : r.p(0.2) ? 0 : b.strength_rated * r.uni(0, 0.7);
        if (r.p(0.5)) {
          s.set_load_start(load[0]);
          s.set_load_finish(load[1]);
        } else {
          s.set_load_finish(load[1]);
          s.set_load_start(load[0]);
        }
      } else {
        if (small) {
          const double v = gen::Nudge(r, hung.H);
          if (v > hung.MinH() * 1.001 && v < b.strength_rated) hung.H = v;
        } else {
          hung = ref::DrawHung(r, b.weight_unit, b.strength_rated);
        }
        cat = hung.Real();
        u.set_catenary(&cat);
      }
      if (round > 0 && r.p(0.3)) {
        if (r.p(0.5)) s.LengthFinish();
        else u.LengthUnloaded();
        c.event("reads_between_setters");
      }
    }
    c.clear_note();
    for (int i = 0; i < 2; i++) st[i].e = ref::CableCurve::Make(k, st[i].s, st[i].x);
    c.note("%s; start %s finish %s length %.17g loads %.17g %.17g; catenary a=%.9g b=%.9g w=%.6g %.6g H=%.9g; round %d",
           gen::Describe(b).c_str(), st[0].text().c_str(), st[1].text().c_str(), length, load[0],
           load[1], hung.a, hung.b, hung.wy, hung.wz, hung.H, round);
    c.distinct(mon::hashd(mon::hashd(mon::hashd(1, length), load[0]), hung.H));
    if (c.want_sample()) c.sample(c.note_);
    if (st[0].e.amp > 100 || st[1].e.amp > 100) {
      c.event("nearly_parallel_stretch_skipped");
      continue;
    }
    if (r.p(0.3)) s.Validate(r.p(0.5), nullptr);
    if (r.p(0.3)) u.Validate(r.p(0.5), nullptr);
    const double tol = st[0].e.TolStrain() + st[1].e.TolStrain();

    // straining
    const ld d = st[1].e.Strain(load[1]) - st[0].e.Strain(load[0]);
    const ld want = ref::Strained(length, d);
    // without load the strain of a cable that cannot be compressed is the
    // least unloaded strain, where a compressed component bends the curve
    const double got = s.LengthFinish();
    auto steep = [&](int i, double y) {
      // loads so small that the curve is nearly flat there are not judged
      return st[i].e.Load(st[i].e.Strain(y) - 1e-6L) < y - 0.3L;
    };
    if ((load[0] == 0 || steep(0, load[0])) && (load[1] == 0 || steep(1, load[1]))) {
      ld ec = 0;
      for (int i = 0; i < 2; i++)
        for (const ref::Curve& p : st[i].e.parts) ec += p.Ec;
      ld extra = 0;
      if (ec == 0)
        for (int i = 0; i < 2; i++)
          if (load[i] == 0) {
            // the greatest strain without load is the least unloaded strain
            ld lo = 9;
            for (const ref::Curve& p : st[i].e.parts) lo = std::min(lo, p.xu);
            extra += (i ? 1 : -1) * (lo - st[i].e.Strain(0));
          }
      c.near(got, ref::Strained(length, d + extra), 1e-12, tol * length, "strained-length",
             "length strained to the finish state");
      c.event(d + extra < 0 ? "strain_given_up" : "strain_taken_on");
    }
    (void)want;
    // and back
    CableStrainer back;
    back.set_model_start(&model[1]);
    back.set_model_finish(&model[0]);
    back.set_load_start(load[1]);
    back.set_load_finish(load[0]);
    back.set_length_start(got);
    c.near(back.LengthFinish(), length, 1e-12, 0, "round-trip", "length strained there and back");
    c.near(s.LengthFinish(), got, 0, 0, "repeat", "finish length read again");

    // unloading
    const ref::Cat3 e = hung.Ref();
    const ld mean = ref::MeanTension(e);
    const ld du = st[1].e.Strain(0) - st[0].e.Strain(mean);
    const double lu = u.LengthUnloaded();
    ld ec = 0;
    for (const ref::Curve& p : st[1].e.parts) ec += p.Ec;
    if (steep(0, (double)mean)) {
      ld z = du;
      if (ec == 0) {
        ld lo = 9;
        for (const ref::Curve& p : st[1].e.parts) lo = std::min(lo, p.xu);
        z = lo - st[0].e.Strain(mean);
      }
      c.near(lu, ref::Strained(e.p.L, z), 1e-11, tol * (double)e.p.L + 2e-15 * (double)e.p.c,
             "unloaded-length", "unloaded length of the catenary");
      c.event("catenaries_unloaded");
    }
    c.check(u.catenary() == &cat && u.model_reference() == &model[0] && u.model_unloaded() == &model[1],
            "accessors", "accessors return other objects than set");
    // reloading the unloaded length at the original state gives the cable back
    CableStrainer re;
    re.set_model_start(&model[1]);
    re.set_load_start(0);
    re.set_model_finish(&model[0]);
    re.set_load_finish(cat.TensionAverage());
    re.set_length_start(lu);
    c.near(re.LengthFinish(), cat.Length(), 1e-12, 0, "reload", "reloaded length of the unloaded cable");
    // a tighter cable between the same supports holds less unloaded cable
    ref::Hung up = hung;
    up.H *= 1 + r.logu(1e-3, 0.5);
    Catenary3d tight = up.Real();
    CatenaryCableUnloader v;
    if (r.p(0.5)) v.set_catenary(&tight);
    v.set_model_unloaded(&model[1]);
    v.set_model_reference(&model[0]);
    v.set_catenary(&tight);
    const double lt = v.LengthUnloaded();
    c.check(lt < lu + 1e-12 * lu, "monotone",
            "unloaded length grows from %.12g to %.12g when the tension rises to %.10g", lu, lt, up.H);
    c.event("tensions_raised");
    c.near(u.LengthUnloaded(), lu, 0, 0, "repeat", "unloaded length read again");
  }
}
