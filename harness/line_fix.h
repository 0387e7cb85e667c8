// A valid line cable with everything it refers to.
#ifndef VERIF_HARNESS_LINE_FIX_H_
#define VERIF_HARNESS_LINE_FIX_H_

#include "ref_sag.h"

namespace gen {

typedef CableConstraint::LimitType LT;

// the unit load of a cable under a weather case
inline Vector3d UnitLoad(const Cable& k, const WeatherLoadCase& w) {
  const ld d = k.diameter, D = d + 2 * (ld)w.thickness_ice;
  return Vector3d(0, (double)(D * w.pressure_wind),
                  (double)(k.weight_unit + kPiL / 4 * (D * D - d * d) * w.density_ice));
}

// the value a constraint of a type limits
inline ld Limited(LT t, const ref::Cat3& e) {
  switch (t) {
    case LT::kCatenaryConstant: return e.p.c;
    case LT::kHorizontalTension: return e.p.H;
    case LT::kLength: return e.p.L;
    case LT::kSag: return e.p.Sag(e.p.FractionOfSlope(e.p.b / e.p.a));
    case LT::kSupportTension: return e.p.MaxT();
    default: return 0;
  }
}

struct LineFix {
  Hardware dead;
  Structure tower;
  LineStructure at[2];
  Cable cable;
  WeatherLoadCase creep, load;
  LineCable line;
  LineFix() {
    dead.area_cross_section = 0.5;
    dead.length = 2;
    dead.name = "dead end";
    dead.type = Hardware::HardwareType::kDeadEnd;
    dead.weight = 50;
    tower.height = 80;
    tower.name = "tower";
    StructureAttachment p;
    p.offset_longitudinal = 0;
    p.offset_transverse = 0;
    p.offset_vertical_top = 0;
    tower.attachments.push_back(p);
    for (int i = 0; i < 2; i++) {
      at[i].set_structure(&tower);
      at[i].set_height_adjustment(0);
      at[i].set_offset(0);
      at[i].set_rotation(0);
      at[i].set_station(i * 1000);
      at[i].AttachHardware(0, &dead);
      LineCableConnection c;
      c.line_structure = &at[i];
      c.index_attachment = 0;
      line.AddConnection(c);
    }
    line.set_cable(&cable);
    line.set_weathercase_stretch_creep(&creep);
    line.set_weathercase_stretch_load(&load);
  }
  LineFix(const LineFix&) = delete;
  void Draw(mon::Rng& r) {
    cable = r.p(0.3) ? Drake() : RandomCable(r);
    creep = RandomWeather(r);
    creep.thickness_ice = creep.pressure_wind = 0;
    creep.temperature_cable = r.p(0.5) ? 60 : r.uni(0, 100);
    load = RandomWeather(r);
    load.temperature_cable = r.uni(-20, 40);
    if (r.p(0.7)) {
      load.thickness_ice = r.uni(0.2, 0.8) / 12;
      load.pressure_wind = r.uni(2, 8);
      load.density_ice = 57.3;
    }
    line.set_cable(&cable);
  }
  // a constraint whose limit is met by a share of the strength
  CableConstraint Constraint(mon::Rng& r, const WeatherLoadCase* w, double share, bool tensions) {
    static const LT kinds[] = {LT::kHorizontalTension, LT::kCatenaryConstant, LT::kSupportTension,
                               LT::kLength, LT::kSag};
    CableConstraint k;
    k.case_weather = w;
    k.condition = r.p(0.34) ? CableConditionType::kInitial
                            : r.p(0.5) ? CableConditionType::kCreep : CableConditionType::kLoad;
    k.note = "constraint";
    k.type_limit = kinds[r.i(0, tensions || r.p(0.7) ? 2 : 4)];
    const Vector3d u = UnitLoad(cable, *w), s = line.spacing_attachments_ruling_span();
    double H = cable.strength_rated * share;
    const double low = std::hypot(s.x(), s.z()) / 2 * u.Magnitude() * 1.1;
    if (H < low) H = low;
    k.limit = (double)Limited(k.type_limit, ref::Cat3(s.x(), s.z(), u.y(), u.z(), H, 1));
    return k;
  }
};

}  // namespace gen

#endif  // VERIF_HARNESS_LINE_FIX_H_
