#include "gen.h"

namespace gen {

static std::vector<double> Scaled(std::initializer_list<double> psi, double a) {
  std::vector<double> v;
  for (double p : psi) v.push_back(p * 144 * a);
  return v;
}

Cable Drake() {
  Cable c;
  const double a = 0.7264 / 144;
  c.area_physical = a;
  c.diameter = 1.108 / 12;
  c.name = "ACSR Drake";
  c.strength_rated = 31500;
  c.temperature_properties_components = 70;
  c.weight_unit = 1.094;
  c.absorptivity = 0.8;
  c.emissivity = 0.8;
  Cable::ResistancePoint p;
  p.temperature = 25;
  p.resistance = 0.1166 / 5280;
  c.resistances_ac.push_back(p);
  p.temperature = 75;
  p.resistance = 0.1390 / 5280;
  c.resistances_ac.push_back(p);
  CableComponent k;
  k.capacity_heat = 41.316 * 1.8;
  k.coefficient_expansion_linear_thermal = 0.0000064;
  k.coefficients_polynomial_creep =
      Scaled({47.1, 36211.3, 12201.4, -72392, 46338}, a);
  k.coefficients_polynomial_loadstrain =
      Scaled({-69.3, 38629, 3998.1, -45713, 27892}, a);
  k.load_limit_polynomial_creep = 22406 * 144 * a;
  k.load_limit_polynomial_loadstrain = 19154 * 144 * a;
  k.modulus_compression_elastic_area = 0;
  k.modulus_tension_elastic_area = 37000 * 100 * 144 * a;
  k.scale_polynomial_x = 0.01;
  k.scale_polynomial_y = 1;
  c.component_core = k;
  k.capacity_heat = 180.203 * 1.8;
  k.coefficient_expansion_linear_thermal = 0.0000128;
  k.coefficients_polynomial_creep =
      Scaled({-544.8, 21426.8, -18842.2, 5495, 0}, a);
  k.coefficients_polynomial_loadstrain =
      Scaled({-1213, 44308.1, -14004.4, -37618, 30676}, a);
  k.load_limit_polynomial_creep = 7535 * 144 * a;
  k.load_limit_polynomial_loadstrain = 20252 * 144 * a;
  k.modulus_compression_elastic_area = 1500 * 100 * 144 * a;
  k.modulus_tension_elastic_area = 64000 * 100 * 144 * a;
  c.component_shell = k;
  return c;
}

Cable Mono() {
  // all aluminium: the shell carries everything, the core is absent
  Cable c = Drake();
  c.name = "AAC";
  c.weight_unit = 0.75;
  c.strength_rated = 15000;
  CableComponent k;
  k.capacity_heat = 0;
  k.coefficient_expansion_linear_thermal = 0;
  k.coefficients_polynomial_creep = {0, 0, 0, 0, 0};
  k.coefficients_polynomial_loadstrain = {0, 0, 0, 0, 0};
  k.load_limit_polynomial_creep = 0;
  k.load_limit_polynomial_loadstrain = 0;
  k.modulus_compression_elastic_area = 0;
  k.modulus_tension_elastic_area = 0;
  k.scale_polynomial_x = 0.01;
  k.scale_polynomial_y = 1;
  c.component_core = k;
  return c;
}

// steepest tangent of the two polynomials within their limits
static double MaxSlope(const CableComponent& k) {
  double top = 0;
  for (const std::vector<double>* p :
       {&k.coefficients_polynomial_creep, &k.coefficients_polynomial_loadstrain}) {
    const double limit = p == &k.coefficients_polynomial_creep
                             ? k.load_limit_polynomial_creep
                             : k.load_limit_polynomial_loadstrain;
    for (double x = 0; x < 2; x += 0.002) {
      double y = 0, d = 0;
      for (size_t i = p->size(); i-- > 0;) {
        d = d * x + y;
        y = y * x + (*p)[i];
      }
      top = std::max(top, d / k.scale_polynomial_x * k.scale_polynomial_y);
      if (y * k.scale_polynomial_y > limit) break;
    }
  }
  return top;
}

Cable RandomCable(mon::Rng& r) {
  Cable c = Drake();
  const double s = r.logu(0.3, 3);   // overall size
  const double q = r.uni(0.85, 1.15);  // stiffness of the core
  const double t = r.uni(0.85, 1.15);  // stiffness of the shell
  auto scale = [](CableComponent* k, double f) {
    for (double& v : k->coefficients_polynomial_creep) v *= f;
    for (double& v : k->coefficients_polynomial_loadstrain) v *= f;
    k->load_limit_polynomial_creep *= f;
    k->load_limit_polynomial_loadstrain *= f;
    k->modulus_compression_elastic_area *= f;
    k->modulus_tension_elastic_area *= f;
  };
  scale(&c.component_core, s * q);
  scale(&c.component_shell, s * t);
  c.area_physical *= s;
  c.diameter *= std::sqrt(s) * r.uni(0.9, 1.1);
  c.strength_rated *= s * r.uni(0.9, 1.1);
  c.weight_unit *= s * r.uni(0.9, 1.2);
  c.temperature_properties_components = r.uni(50, 90);
  c.component_core.coefficient_expansion_linear_thermal *= r.uni(0.7, 1.3);
  c.component_shell.coefficient_expansion_linear_thermal *= r.uni(0.8, 1.2);
  for (CableComponent* k : {&c.component_core, &c.component_shell}) {
    k->modulus_tension_elastic_area *= r.uni(0.97, 1.1);
    // a real conductor may unload a little softer than it is first loaded;
    // most here do not
    if (r.p(0.7)) {
      k->modulus_tension_elastic_area =
          std::max(k->modulus_tension_elastic_area, MaxSlope(*k) * r.uni(1.01, 1.1));
    }
    if (r.p(0.2)) {
      // the polynomials in other load units
      const double u = r.p(0.5) ? 1000 : r.logu(0.1, 10);
      for (double& v : k->coefficients_polynomial_creep) v /= u;
      for (double& v : k->coefficients_polynomial_loadstrain) v /= u;
      k->scale_polynomial_y = u;
    }
  }
  c.absorptivity = r.uni(0.2, 1);
  c.emissivity = r.uni(0.2, 1);
  return c;
}

WeatherLoadCase RandomWeather(mon::Rng& r, bool cold) {
  WeatherLoadCase w;
  w.description = "case";
  w.density_ice = r.p(0.1) ? 0 : r.uni(30, 57.3);
  w.thickness_ice = r.p(0.4) ? 0 : r.uni(0, 1.0) / 12;
  w.pressure_wind = r.p(0.4) ? 0 : r.uni(0, 12);
  w.temperature_cable = r.uni(cold ? -20 : 30, 120);
  return w;
}

ThermalRatingWeather RandomThermalWeather(mon::Rng& r, bool metric) {
  ThermalRatingWeather w;
  w.angle_wind = r.p(0.15) ? (r.p(0.5) ? 0 : 90) : r.uni(0, 90);
  w.elevation = r.p(0.2) ? 0 : r.uni(0, metric ? 3000 : 10000);
  w.radiation_solar = r.p(0.2) ? 0 : r.uni(0, metric ? 1200 : 110);
  w.speed_wind = r.p(0.2) ? 0 : r.uni(0, metric ? 6 : 20);
  w.temperature_air = r.uni(-30, 50);
  return w;
}

std::string Describe(const Cable& c) {
  return mon::fmt("cable(w=%.6g d=%.6g rts=%.6g Tref=%.4g)", c.weight_unit,
                  c.diameter, c.strength_rated,
                  c.temperature_properties_components);
}
std::string Describe(const WeatherLoadCase& w) {
  return mon::fmt("weather(ice=%.6g dens=%.5g wind=%.5g T=%.5g)",
                  w.thickness_ice, w.density_ice, w.pressure_wind,
                  w.temperature_cable);
}

}  // namespace gen
