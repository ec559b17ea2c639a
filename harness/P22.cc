// P22: steady ratings.
// @h h_steady_balance mode=real
// @h h_steady_state mode=real
// @h h_steady_rest mode=real wall=120
// @h h_steady_temperature mode=fpu guided=1 unwind=110 wall=90 timeout=500
// @h h_steady_accuracy mode=fpu guided=1 unwind=110 wall=90 timeout=500
#include <cmath>
#include "models/thermalrating/cable_heat_transfer_solver.h"
#include "models/thermalrating/steady_cable_current_solver.h"
#include "models/thermalrating/steady_cable_temperature_solver.h"
#include "sx.h"
namespace {
struct World {
  Cable c; ThermalRatingCable k; ThermalRatingWeather w; CableHeatTransferSolver s; units::UnitSystem u;
  void Init(int metric) {
    bool m = metric; c.diameter = m ? 0.028 : 0.092; c.absorptivity = 0.5; c.emissivity = 0.5; c.strength_rated = 10000; c.area_physical = 0.5; c.weight_unit = 1; c.temperature_properties_components = 20;
    c.component_core.capacity_heat = 80; c.component_shell.capacity_heat = 300;
    CableComponent* p[] = {&c.component_core, &c.component_shell};
    for (CableComponent* q : p) { q->coefficient_expansion_linear_thermal = 1e-5; q->modulus_compression_elastic_area = 1000; q->modulus_tension_elastic_area = 100000; q->load_limit_polynomial_creep = 10000; q->load_limit_polynomial_loadstrain = 10000; q->coefficients_polynomial_creep.assign(5, 100); q->coefficients_polynomial_loadstrain.assign(5, 100); }
    Table(2e-5, 2.6e-5);
    w.angle_wind = 90; w.elevation = 0; w.radiation_solar = 0; w.speed_wind = 2; w.temperature_air = 20;
    k.set_cable_base(&c); u = m ? units::UnitSystem::kMetric : units::UnitSystem::kImperial;
    s.set_cable(&k); s.set_weather(&w); s.set_units(u);
  }
  void Table(double a, double b) { c.resistances_ac.clear(); Cable::ResistancePoint p; p.temperature = 25; p.resistance = a; c.resistances_ac.push_back(p); p.temperature = 75; p.resistance = b; c.resistances_ac.push_back(p); }
  double Net(double t, double i) const { return s.HeatStored(s.HeatResistance(t, i) + s.HeatSolar(), s.HeatConvection(t) + s.HeatRadiation(t)); }
};
template <class S> void Put(S* s, const World& o) { s->set_cable(&o.k); s->set_units(o.u); s->set_weather(&o.w); }
}
HARNESS h_steady_balance() {   // the current makes gain equal loss; negative when the weather alone is too much
  World o; o.Init(sx_choose("metric", 2));
  o.c.diameter = sx_double("d", 0.01, 0.2); o.c.emissivity = sx_double("em", 0.1, 1); o.c.absorptivity = sx_double("ab", 0, 1); o.w.radiation_solar = sx_double("q", 0, 1500);
  double dt = sx_double("dt", 0, 80), r = sx_double("r", 1e-6, 1e-3); o.Table(r, 1.2 * r);
  o.w.temperature_air = sx_choose("cold", 2) ? -45 : 20;
  SteadyCableCurrentSolver s; Put(&s, o); double t = o.w.temperature_air + dt; s.set_temperature_cable(t);
  double i = s.Current(), loss = -(o.s.HeatConvection(t) + o.s.HeatRadiation(t) + o.s.HeatSolar());
  double rt = o.k.Resistance(t);
  if (i >= 0) sx_close(i * i * rt, loss, 1e-6, 1e-9, "the current makes heat gain equal heat loss");
  else sx_close(-(i * i * rt), loss, 1e-6, 1e-9, "a negative current is the heat that can not be dissipated");
  sx_reach("end");
}
HARNESS h_steady_state() {
  World o; o.Init(sx_choose("metric", 2)); o.w.radiation_solar = sx_double("q", 0, 1500);
  double dt = sx_double("dt", 0, 80); SteadyCableCurrentSolver s; Put(&s, o); double t = o.w.temperature_air + dt; s.set_temperature_cable(t);
  CableHeatTransferState h = s.StateHeatTransfer();
  sx_close(h.heat_convection + h.heat_radiation + h.heat_solar + h.heat_resistance, 0, 1e-9, 1e-9, "the heats of the state add up to zero");
  sx_close(h.heat_convection, o.s.HeatConvection(t), 1e-9, 1e-9, "convection of the state"); sx_close(h.heat_radiation, o.s.HeatRadiation(t), 1e-9, 1e-9, "radiation of the state");
  sx_close(h.heat_solar, o.s.HeatSolar(), 1e-9, 1e-9, "solar heat of the state"); sx_assert(h.heat_storage == 0, "nothing is stored in a steady state");
  sx_close(o.s.HeatResistance(t, s.Current()), h.heat_resistance > 0 ? h.heat_resistance : -h.heat_resistance, 1e-6, 1e-9, "resistive heat of the state is that of the current");
  sx_reach("end");
}
HARNESS h_steady_rest() {   // without current and sun the conductor is exactly as warm as the air, in any weather
  World o; o.Init(sx_choose("metric", 2));
  if (sx_choose("still", 2)) o.w.speed_wind = 0;
  if (sx_choose("what", 2)) o.w.temperature_air = sx_double("ta", -60, 60);
  else { o.c.emissivity = sx_double("em", 0, 1); double r = sx_double("r", 1e-6, 1e-3); o.Table(r, 2 * r); }
  SteadyCableTemperatureSolver s; Put(&s, o); s.set_current(0);
  sx_assert(s.TemperatureCable() == o.w.temperature_air, "a conductor without current and sun is as warm as the air");
  sx_reach("end");
}
namespace {
void Some(World* o, double* i) {   // any loading of a conductor in any weather
  *i = sx_double("i", 0, 2000); o->w.radiation_solar = sx_double("q", 0, 100); o->w.temperature_air = sx_double("ta", -40, 45);
  o->w.speed_wind = sx_choose("still", 2) ? 0 : sx_double("v", 0.1, 15);
}
}
HARNESS h_steady_temperature() {   // the state reported is that of the temperature reported
  World o; o.Init(sx_choose("metric", 2)); double i; Some(&o, &i);
  SteadyCableTemperatureSolver s; Put(&s, o); s.set_current(i);
  double t = s.TemperatureCable(); CableHeatTransferState h = s.StateHeatTransfer();
  if (t == -999999) { sx_assert(!s.Validate(), "no temperature and yet valid"); sx_reach("none"); return; }
  SteadyCableCurrentSolver c; Put(&c, o); c.set_temperature_cable(t); CableHeatTransferState g = c.StateHeatTransfer();
  sx_same(h.heat_convection, g.heat_convection, "convection at the temperature"); sx_same(h.heat_radiation, g.heat_radiation, "radiation at the temperature");
  sx_same(h.heat_solar, g.heat_solar, "solar heat at the temperature"); sx_same(h.heat_resistance, g.heat_resistance, "resistive heat at the temperature"); sx_same(h.heat_storage, 0, "nothing is stored");
  sx_reach("end");
}
HARNESS h_steady_accuracy() {   // half a degree less gains heat, half a degree more loses heat
  World o; o.Init(sx_choose("metric", 2)); double i; Some(&o, &i);
  SteadyCableTemperatureSolver s; Put(&s, o); s.set_current(i);
  double t = s.TemperatureCable();
  sx_assert(t != -999999, "an ordinary loading has a steady temperature");
  sx_assert(o.Net(t - 0.5, i) >= 0, "half a degree less gains heat"); sx_assert(o.Net(t + 0.5, i) <= 0, "half a degree more loses heat");
  sx_reach("end");
}
