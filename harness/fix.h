// Concrete objects shared by harnesses: a Drake-like conductor, a line cable and a short line.
#pragma once
#include <vector>
#include "models/sagtension/cable_elongation_model.h"
#include "models/sagtension/sag_tension_cable.h"
#include "models/transmissionline/line_cable.h"
#include "models/transmissionline/line_structure.h"
#include "models/transmissionline/transmission_line.h"
namespace fix {
inline WeatherLoadCase Weather(double t, double ice = 0, double dens = 0, double wind = 0) { WeatherLoadCase w; w.thickness_ice = ice; w.density_ice = dens; w.pressure_wind = wind; w.temperature_cable = t; return w; }
inline Hardware Hard(Hardware::HardwareType t) { Hardware h; h.area_cross_section = 1; h.length = 10; h.type = t; h.weight = 100; return h; }
inline Structure Pole() {
  Structure s; s.height = 100;
  for (int i = -1; i <= 1; i++) { StructureAttachment a; a.offset_longitudinal = i; a.offset_transverse = 0; a.offset_vertical_top = 0; s.attachments.push_back(a); }
  return s;
}
// areas in square inches, stresses in psi, as in the test factory
inline Cable Conductor() {
  const double a = 0.7264;
  Cable c; c.absorptivity = 0.5; c.emissivity = 0.5; c.area_physical = a / 144; c.diameter = 1.108 / 12; c.strength_rated = 31500; c.temperature_properties_components = 70; c.weight_unit = 1.094;
  c.resistances_ac.push_back({0.1166 / 5280, 25}); c.resistances_ac.push_back({0.1278 / 5280, 75});
  CableComponent& k = c.component_core; CableComponent& s = c.component_shell;
  for (double v : {47.1, 36211.3, 12201.4, -72392.0, 46338.0}) k.coefficients_polynomial_creep.push_back(v * a);
  for (double v : {-69.3, 38629.0, 3998.1, -45713.0, 27892.0}) k.coefficients_polynomial_loadstrain.push_back(v * a);
  for (double v : {-544.8, 21426.8, -18842.2, 5495.0, 0.0}) s.coefficients_polynomial_creep.push_back(v * a);
  for (double v : {-1213.0, 44308.1, -14004.4, -37618.0, 30676.0}) s.coefficients_polynomial_loadstrain.push_back(v * a);
  k.capacity_heat = 43; s.capacity_heat = 180; k.coefficient_expansion_linear_thermal = 0.0000064; s.coefficient_expansion_linear_thermal = 0.0000128;
  k.load_limit_polynomial_creep = 20585 * a; k.load_limit_polynomial_loadstrain = 22619 * a; s.load_limit_polynomial_creep = 7535 * a; s.load_limit_polynomial_loadstrain = 20252 * a;
  k.modulus_compression_elastic_area = 0; k.modulus_tension_elastic_area = 3700000 * a; s.modulus_compression_elastic_area = 150000 * a; s.modulus_tension_elastic_area = 6400000 * a;
  k.scale_polynomial_x = s.scale_polynomial_x = 0.01; k.scale_polynomial_y = s.scale_polynomial_y = 1;
  return c;
}
struct Strung {  // a line cable strung between two structures
  Cable cable = Conductor();
  WeatherLoadCase constraint = Weather(60), creep = Weather(60), load = Weather(0, 0.5 / 12, 57.3, 8);
  Structure pole = Pole();
  Hardware dead = Hard(Hardware::HardwareType::kDeadEnd), susp = Hard(Hardware::HardwareType::kSuspension);
  LineStructure ls[2];
  LineCable lc;
  Strung() {
    for (int i = 0; i < 2; i++) {
      ls[i].set_structure(&pole); ls[i].set_height_adjustment(0); ls[i].set_offset(0); ls[i].set_rotation(0); ls[i].set_station(1000 * i); ls[i].AttachHardware(0, &dead);
      LineCableConnection k; k.line_structure = &ls[i]; k.index_attachment = 0; lc.AddConnection(k);
    }
    CableConstraint q; q.case_weather = &constraint; q.condition = CableConditionType::kInitial; q.limit = 6000; q.type_limit = CableConstraint::LimitType::kHorizontalTension;
    lc.set_cable(&cable); lc.set_constraint(q); lc.set_spacing_attachments_ruling_span(Vector3d(1200, 0, 0)); lc.set_weathercase_stretch_creep(&creep); lc.set_weathercase_stretch_load(&load);
  }
};
struct Route {  // a transmission line with a cable from dead end over suspensions to dead end
  Cable cable = Conductor();
  WeatherLoadCase constraint = Weather(60), creep = Weather(60), load = Weather(0, 0.5 / 12, 57.3, 8);
  Structure pole = Pole();
  Hardware dead = Hard(Hardware::HardwareType::kDeadEnd), susp = Hard(Hardware::HardwareType::kSuspension);
  TransmissionLine line;
  // heading of the first span, turn at each alignment point after it (degrees), elevations
  Route(double heading, const std::vector<double>& turns, const std::vector<double>& elevations) {
    pole.attachments[1].offset_longitudinal = 0;
    line.set_origin(Point3d<double>(0, 0, 0));
    const int n = turns.size() + 2;
    for (int i = 0; i < n; i++) {
      AlignmentPoint p; p.station = 1000 * i; p.elevation = elevations[i]; p.rotation = i == 0 ? heading : i == n - 1 ? 0 : turns[i - 1]; line.AddAlignmentPoint(p);
    }
    for (int i = 0; i < n; i++) {
      LineStructure s; s.set_structure(&pole); s.set_height_adjustment(0); s.set_offset(0); s.set_rotation(0); s.set_station(1000 * i); s.AttachHardware(1, i == 0 || i == n - 1 ? &dead : &susp); line.AddLineStructure(s);
    }
    LineCable c = Wire();
    for (const LineStructure& s : *line.line_structures()) { LineCableConnection k; k.line_structure = &s; k.index_attachment = 1; c.AddConnection(k); }
    line.AddLineCable(c);
  }
  LineCable Wire() const {
    LineCable c; CableConstraint q; q.case_weather = &constraint; q.condition = CableConditionType::kInitial; q.limit = 6000; q.type_limit = CableConstraint::LimitType::kHorizontalTension;
    c.set_cable(&cable); c.set_constraint(q); c.set_spacing_attachments_ruling_span(Vector3d(1200, 0, 0)); c.set_weathercase_stretch_creep(&creep); c.set_weathercase_stretch_load(&load);
    return c;
  }
};
}
