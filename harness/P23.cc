// P23: transient conductor temperature.
// @h h_transient_steps mode=fpu guided=1 unwind=110 wall=90 timeout=500
// @h h_transient_rest mode=real wall=90
// @h h_transient_close mode=fpu guided=1 unwind=110 wall=40 timeout=500
// @h h_transient_balance mode=fpu guided=1 unwind=110 wall=40 timeout=500
// @h h_transient_refuse mode=fpu unwind=12
// @h h_transient_unsolved mode=fpu guided=1 unwind=110 wall=60 timeout=500
#include <cmath>
#include <list>
#include "models/thermalrating/cable_heat_transfer_solver.h"
#include "models/thermalrating/steady_cable_temperature_solver.h"
#include "models/thermalrating/transient_cable_temperature_solver.h"
#include "sx.h"
namespace {
struct World {
  Cable c; ThermalRatingCable k; ThermalRatingWeather w; CableHeatTransferSolver s; units::UnitSystem u;
  void Init(int metric) {
    bool m = metric; c.diameter = m ? 0.028 : 0.092; c.absorptivity = 0.5; c.emissivity = 0.5; c.strength_rated = 10000; c.area_physical = 0.5; c.weight_unit = 1; c.temperature_properties_components = 20;
    c.component_core.capacity_heat = m ? 240 : 80; c.component_shell.capacity_heat = m ? 1000 : 300;
    Table(2e-5, 2.6e-5);
    w.angle_wind = 90; w.elevation = 0; w.radiation_solar = 0; w.speed_wind = 2; w.temperature_air = 20;
    k.set_cable_base(&c); u = m ? units::UnitSystem::kMetric : units::UnitSystem::kImperial;
    s.set_cable(&k); s.set_weather(&w); s.set_units(u);
  }
  void Table(double a, double b) { c.resistances_ac.clear(); Cable::ResistancePoint p; p.temperature = 25; p.resistance = a; c.resistances_ac.push_back(p); p.temperature = 75; p.resistance = b; c.resistances_ac.push_back(p); }
  double Net(double t, double i) const { return s.HeatStored(s.HeatResistance(t, i) + s.HeatSolar(), s.HeatConvection(t) + s.HeatRadiation(t)); }
};
template <class S> void Put(S* s, const World& o) { s->set_cable(&o.k); s->set_units(o.u); s->set_weather(&o.w); }
void Some(World* o) { o->w.radiation_solar = sx_double("q", 0, 100); o->w.temperature_air = sx_double("ta", -40, 45); o->w.speed_wind = sx_choose("still", 2) ? 0 : sx_double("v", 0.1, 15); }
double Steady(const World& o, double i) { SteadyCableTemperatureSolver s; Put(&s, o); s.set_current(i); return s.TemperatureCable(); }
// checks every point against the heat balance at the point before it
void Check(const World& o, const std::list<TemperaturePoint>* p, double t0, double step, int duration, double tol) {
  sx_assert(p != nullptr, "ordinary inputs give points"); if (!p) return;
  sx_assert((int)p->size() == duration + 1, "one point per second from zero to the duration");
  double cap = *o.k.component_core()->capacity_heat() + *o.k.component_shell()->capacity_heat();
  int n = 0; double before = t0;
  for (const TemperaturePoint& q : *p) {
    sx_assert(q.time == n, "times are the seconds in order");
    if (n == 0) sx_same(q.temperature, t0, "starts at the steady temperature of the current before the step");
    else { double rise = o.Net(before, step) / cap; sx_close(q.temperature, before + rise, tol, tol, "each second adds the stored heat over the heat capacity"); }
    before = q.temperature; n++;
  }
}
}
HARNESS h_transient_steps() {
  World o; o.Init(sx_choose("metric", 2)); Some(&o); double i = sx_double("i", 0, 2000), j = sx_double("j", 0, 2000); int d = sx_choose("d", 4);
  TransientCableTemperatureSolver s; Put(&s, o); s.set_current_steady(i); s.set_current_step(j); s.set_duration(d);
  Check(o, s.PointsTemperature(), Steady(o, i), j, d, 1e-9);
  sx_reach("end");
}
HARNESS h_transient_rest() {   // a conductor at rest, then loaded: every current, resistance and heat capacity
  World o; o.Init(sx_choose("metric", 2)); o.w.speed_wind = 0;
  double j = sx_double("j", 0, 3000); int d = 1 + sx_choose("d", 2); o.c.component_core.capacity_heat = sx_double("hc", 1, 1e4); o.c.component_shell.capacity_heat = sx_double("hs", 1, 1e4);
  TransientCableTemperatureSolver s; Put(&s, o); s.set_current_steady(0); s.set_current_step(j); s.set_duration(d);
  const std::list<TemperaturePoint>* p = s.PointsTemperature();
  sx_assert(p != nullptr, "a conductor at rest can be loaded"); if (!p) return;
  sx_assert((int)p->size() == d + 1, "one point per second");
  auto it = p->begin(); sx_assert(it->temperature == 20 && it->time == 0, "starts at ambient"); double cap = o.c.component_core.capacity_heat + o.c.component_shell.capacity_heat, before = 20;
  ++it; double after = before + j * j * o.k.Resistance(20) / cap;
  sx_assert(it->time == 1, "the second point is one second later");
  sx_close(it->temperature, after, 1e-9, 1e-9, "the first second stores all the resistive heat");
  sx_reach("end");
}
HARNESS h_transient_close() {   // the temperature never jumps and moves towards the new steady temperature
  World o; o.Init(sx_choose("metric", 2)); Some(&o); double i = sx_double("i", 0, 1500), j = sx_double("j", 0, 1500);
  TransientCableTemperatureSolver s; Put(&s, o); s.set_current_steady(i); s.set_current_step(j); s.set_duration(2);
  const std::list<TemperaturePoint>* p = s.PointsTemperature(); sx_assert(p != nullptr && p->size() == 3, "ordinary inputs give points"); if (!p || p->size() != 3) return;
  sx_assert(s.PointsTemperature() == p && p->size() == 3, "asking again gives the same points");
  double a = p->front().temperature, b = p->back().temperature, end = Steady(o, j);
  bool toward = i < j ? (b >= a - 0.5) & (b <= end + 0.5) : (b <= a + 0.5) & (b >= end - 0.5);
  sx_assert(toward, "the temperature moves towards the new steady temperature");
  sx_reach("end");
}
HARNESS h_transient_balance() {   // no step, no change
  World o; o.Init(sx_choose("metric", 2)); Some(&o); double i = sx_double("i", 0, 2000);
  TransientCableTemperatureSolver s; Put(&s, o); s.set_current_steady(i); s.set_current_step(i); s.set_duration(3);
  const std::list<TemperaturePoint>* p = s.PointsTemperature(); sx_assert(p != nullptr, "ordinary inputs give points"); if (!p) return;
  for (const TemperaturePoint& q : *p) sx_assert(std::abs(q.temperature - p->front().temperature) < 0.5, "without a step the temperature stays");
  sx_reach("end");
}
HARNESS h_transient_refuse() {   // missing parts and impossible values are refused
  World o; o.Init(1); o.w.radiation_solar = 10; TransientCableTemperatureSolver s; Put(&s, o); s.set_current_steady(100); s.set_current_step(200); s.set_duration(1);
  int what = sx_choose("what", 7); double bad = sx_double("bad", -1e6, -1e-6); int bad_i = sx_int("badi", -100, -1);
  if (what == 0) s.set_current_steady(bad); else if (what == 1) s.set_current_step(bad); else if (what == 2) s.set_duration(bad_i);
  else if (what == 3) s.set_cable(nullptr); else if (what == 4) s.set_weather(nullptr); else if (what == 5) s.set_units(units::UnitSystem::kNull); else o.w.speed_wind = bad;
  if (what >= 3) sx_assert(s.PointsTemperature() == nullptr, "no points without the parts");
  if (what >= 2) { std::list<ErrorMessage> m; sx_assert(!s.Validate(true, &m), "refused"); sx_assert(!m.empty(), "with a message"); }
  if (what == 2) { auto p = s.PointsTemperature(); sx_assert(!p || p->empty(), "no time, no points"); }
  sx_reach("end");
}
HARNESS h_transient_unsolved() {   // no steady temperature, no points
  World o; o.Init(1); o.Table(2e-5, 1e-5); double i = sx_double("i", 0, 1e5);
  TransientCableTemperatureSolver s; Put(&s, o); s.set_current_steady(i); s.set_current_step(i); s.set_duration(1);
  double t = Steady(o, i); auto p = s.PointsTemperature();
  if (t == -999999) { sx_assert(p == nullptr, "no points without a steady temperature"); sx_assert(!s.Validate(), "and not valid"); sx_reach("none"); }
  else { sx_assert(p != nullptr, "points"); if (p) sx_same(p->front().temperature, t, "start"); sx_reach("some"); }
}
