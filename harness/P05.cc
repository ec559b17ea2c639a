// P05: unit loads on a cable and the cylinders they are built from.
// @h h_cylinder mode=real
// @h h_unit_load mode=real
// @h h_unit_load_bare mode=real
#include "models/base/geometric_shapes.h"
#include "models/transmissionline/cable_unit_load_solver.h"
#include "sx.h"
namespace { const double kPi = 3.141592653589793; }
HARNESS h_cylinder() {
  double d = sx_double("d", 1e-3, 1e3), l = sx_double("l", 1e-3, 1e3), e = sx_double("e", 1e-3, 1e3);
  Cylinder c; c.set_diameter(d); c.set_length(l);
  if (sx_choose("reuse", 2)) { c.AreaCrossSection(); c.Volume(); c.Validate(); c.set_diameter(e); d = e; }
  sx_close(c.AreaCrossSection(), kPi * d * d / 4, 1e-9, 0, "cross section area");
  sx_close(c.Volume(), kPi * d * d / 4 * l, 1e-9, 0, "volume");
  sx_same(c.diameter(), d, "diameter"); sx_same(c.length(), l, "length");
  sx_reach("end");
}
HARNESS h_unit_load() {
  double d = sx_double("d", 1e-3, 1), w = sx_double("w", 1e-3, 100), t = sx_double("ice", 0, 1), rho = sx_double("rho", 0, 1e4), p = sx_double("wind", 0, 1e4);
  CableUnitLoadSolver s; s.set_diameter_cable(&d); s.set_weight_unit_cable(&w);
  WeatherLoadCase wc; wc.thickness_ice = t; wc.density_ice = rho; wc.pressure_wind = p; wc.temperature_cable = sx_double("temp", -50, 100);
  Vector3d v = s.UnitCableLoad(wc);
  sx_close(v.x(), 0, 0, 1e-12, "no longitudinal load");
  sx_close(v.y(), p * (d + 2 * t), 1e-9, 1e-9, "wind on the iced diameter");
  sx_close(v.z(), w + rho * kPi * t * (d + t), 1e-6, 1e-6, "bare weight plus the ice ring");
  sx_assert(v.z() >= w - 1e-9 * w - 1e-9, "ice never lightens the cable");
  // inputs are read through the pointers at call time
  double w2 = sx_double("w2", 1e-3, 100); double iced = v.z() - w; w = w2;
  sx_close(s.UnitCableLoad(wc).z() - w2, iced, 1e-6, 1e-6, "current cable weight is used");
  sx_reach("end");
}
HARNESS h_unit_load_bare() {
  double d = sx_double("d", 1e-3, 1), w = sx_double("w", 1e-3, 100);
  CableUnitLoadSolver s; s.set_diameter_cable(&d); s.set_weight_unit_cable(&w);
  WeatherLoadCase wc; wc.thickness_ice = 0; wc.density_ice = sx_double("rho", 0, 1e4); wc.pressure_wind = 0;
  Vector3d v = s.UnitCableLoad(wc);
  sx_close(v.x(), 0, 0, 1e-12, "x"); sx_close(v.y(), 0, 0, 1e-12, "no wind"); sx_close(v.z(), w, 1e-12, 0, "bare weight");
  sx_assert(s.diameter_cable() == &d && s.weight_unit_cable() == &w, "getters");
  sx_reach("end");
}
