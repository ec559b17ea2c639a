// P21: heat transfer of a conductor.
// @h h_heat_terms mode=real
// @h h_heat_signs mode=real
// @h h_heat_radiation mode=real
// @h h_heat_ambient mode=real
// @h h_heat_convection mode=real wall=100
// @h h_heat_still mode=real wall=100
// @h h_heat_direction mode=real wall=100
// @h h_heat_mirror mode=real wall=100
// @h h_heat_units_convection mode=real wall=120
// @h h_heat_units_still mode=real wall=120
// @h h_heat_units_other mode=real
// @h h_heat_current mode=fpu
#include <cmath>
#include "models/thermalrating/cable_heat_transfer_solver.h"
#include "sx.h"
namespace {
double Rad(double a) { return a * 3.14159265358979 / 180; }
struct World {
  Cable c; ThermalRatingCable k; ThermalRatingWeather w; CableHeatTransferSolver s; bool metric; double d;
  void Init(bool m, double dia) {
    metric = m; d = dia; c.diameter = d; c.absorptivity = 0.5; c.emissivity = 0.5;
    c.component_core.capacity_heat = 1; c.component_shell.capacity_heat = 1;
    Table(2e-5, 2e-5);
    w.angle_wind = 90; w.elevation = 0; w.radiation_solar = 0; w.speed_wind = 0; w.temperature_air = 20;
    k.set_cable_base(&c); s.set_cable(&k); s.set_weather(&w); s.set_units(m ? units::UnitSystem::kMetric : units::UnitSystem::kImperial);
  }
  void Table(double a, double b) { c.resistances_ac.clear(); Cable::ResistancePoint p; p.temperature = 25; p.resistance = a; c.resistances_ac.push_back(p); p.temperature = 75; p.resistance = b; c.resistances_ac.push_back(p); }
};
// the physics as documented (IEEE 738): properties of air at the film temperature and three convection rates
struct Air { double conductivity, density, viscosity; };
Air At(bool metric, double film, double h) {
  Air a;
  a.conductivity = metric ? 2.424e-2 + 7.477e-5 * film - 4.407e-9 * film * film : 7.388e-3 + 2.279e-5 * film - 1.343e-9 * film * film;
  a.density = (metric ? 1.293 - 1.525e-4 * h + 6.379e-9 * h * h : 0.080695 - 2.901e-6 * h + 3.7e-11 * h * h) / (1 + 0.00367 * film);
  a.viscosity = (metric ? 1.458e-6 : 0.00353) * std::pow(film + 273, 1.5) / (film + 383.4) / (metric ? 1 : 3600);
  return a;
}
}
HARNESS h_heat_terms() {
  World o; o.Init(sx_choose("metric", 2), sx_double("d", 0.005, 0.3));
  double t = sx_double("t", -100, 500), i = sx_double("i", 0, 5000);
  o.c.absorptivity = sx_double("ab", 0, 1); o.w.radiation_solar = sx_double("q", 0, 1500);
  double r0 = sx_double("r0", 1e-6, 1e-2), r1 = sx_double("r1", 1e-6, 1e-2); o.Table(r0, r1);
  sx_close(o.s.HeatResistance(t, i), i * i * (r0 + (r1 - r0) * (t - 25) / 50), 1e-9, 1e-9, "resistive heat is current squared times the resistance");
  sx_close(o.s.HeatSolar(), o.c.absorptivity * o.w.radiation_solar * o.d, 1e-9, 1e-9, "solar heat is the absorbed part of the radiation on the projected area");
  double in = sx_double("in", 0, 1e4), out = sx_double("out", -1e4, 0);
  sx_close(o.s.HeatStored(in, out), in + out, 1e-12, 1e-12, "stored heat is what is gained less what is lost");
  sx_reach("end");
}
HARNESS h_heat_signs() {   // heat flows out of a conductor warmer than the air and into a colder one
  World o; o.Init(sx_choose("metric", 2), sx_double("d", 0.005, 0.3));
  int sign = sx_choose("sign", 2) ? 1 : -1; double dt = sx_double("dt", 0.01, sign > 0 ? 180 : 60);
  o.w.temperature_air = -40 + 30 * sx_choose("ta", 4); double t = o.w.temperature_air + sign * dt;
  sx_assume(t >= -100);
  o.w.speed_wind = sx_choose("wind", 2) ? sx_double("v", 0.01, 30) : 0;
  int where = sx_choose("where", 3);
  if (where == 1) o.w.elevation = sx_double("h", 0, 15000);
  if (where == 2) o.w.angle_wind = 30;
  o.c.emissivity = sx_double("em", 0.01, 1);
  sx_assert(sign * o.s.HeatConvection(t) < 0, "convection cools a warm conductor and warms a cold one");
  sx_assert(sign * o.s.HeatRadiation(t) < 0, "radiation cools a warm conductor and warms a cold one");
  sx_assert(o.s.HeatSolar() >= 0, "the sun only warms"); sx_assert(o.s.HeatResistance(t, sx_double("i", 0, 5000)) >= 0, "current only warms");
  sx_reach("end");
}
HARNESS h_heat_radiation() {
  World o; bool metric = sx_choose("metric", 2); o.Init(metric, sx_double("d", 0.005, 0.3));
  double ka = sx_double("ka", 173, 373), kc = sx_double("kc", 173, 773); o.w.temperature_air = ka - 273; o.c.emissivity = sx_double("em", 0, 1);
  double x = kc / 100, y = ka / 100;
  sx_close(o.s.HeatRadiation(kc - 273), -(metric ? 17.8 : 1.656) * o.d * o.c.emissivity * (x * x * x * x - y * y * y * y), 1e-9, 1e-9, "radiation follows the fourth power of the absolute temperatures");
  sx_reach("end");
}
HARNESS h_heat_ambient() {   // no convection and no radiation without a temperature difference
  World o; o.Init(sx_choose("metric", 2), sx_double("d", 0.005, 0.3));
  o.w.temperature_air = sx_double("ta", -100, 100); o.c.emissivity = sx_double("em", 0, 1);
  o.w.angle_wind = sx_double("angle", 0, 90); o.w.elevation = sx_double("h", 0, 5000); o.w.speed_wind = sx_double("v", 0, 30);
  sx_assert(o.s.HeatRadiation(o.w.temperature_air) == 0, "no radiation at ambient temperature");
  sx_assert(o.s.HeatConvection(o.w.temperature_air) == 0, "no convection at ambient temperature");
  sx_reach("end");
}
namespace {
struct Rates { double f1, f2, n; };
Rates Rate(const World& o, double film, double dt, double k) {   // for a conductor warmer by dt > 0 than the air
  Air a = At(o.metric, film, o.w.elevation); double re = o.d * a.density * o.w.speed_wind / a.viscosity;
  Rates r;
  r.f1 = k * (1.01 + 1.35 * std::pow(re, 0.52)) * a.conductivity * dt;
  r.f2 = k * 0.754 * std::pow(re, 0.6) * a.conductivity * dt;
  r.n = (o.metric ? 3.645 : 1.825) * std::pow(a.density, 0.5) * std::pow(o.d, 0.75) * std::pow(dt, 1.25);
  return r;
}
void Check(const World& o, double film, double dt, double k) {
  Rates r = Rate(o, film, dt, k); double want = r.f1;
  if (want < r.f2) want = r.f2;
  if (want < r.n) want = r.n;
  sx_close(-o.s.HeatConvection(film + dt / 2), want, 1e-9, 1e-9, "convection is the greatest of the three documented rates");
}
}
HARNESS h_heat_convection() {   // wind across the conductor
  World o; o.Init(sx_choose("metric", 2), sx_double("d", 0.005, 0.3));
  double film = sx_double("film", -60, 200), dt = sx_double("dt", 0.01, 80);
  o.w.temperature_air = film - dt / 2; o.w.elevation = 1000 * sx_choose("km", 3); o.w.speed_wind = sx_double("v", 0.01, 30);
  Check(o, film, dt, 1); sx_reach("end");
}
HARNESS h_heat_still() {   // no wind
  World o; o.Init(sx_choose("metric", 2), sx_double("d", 0.005, 0.3));
  double film = sx_double("film", -60, 200), dt = sx_double("dt", 0.01, 80);
  o.w.temperature_air = film - dt / 2; o.w.elevation = sx_double("h", 0, 15000); o.w.speed_wind = 0;
  Check(o, film, dt, 1); sx_reach("end");
}
HARNESS h_heat_direction() {   // every wind direction, at one film temperature
  World o; o.Init(sx_choose("metric", 2), sx_double("d", 0.005, 0.3));
  double film = 20 * sx_choose("film", 4), dt = sx_double("dt", 0.01, 80), a = sx_double("angle", 0, 90);
  o.w.temperature_air = film - dt / 2; o.w.speed_wind = sx_double("v", 0.01, 30); o.w.angle_wind = a;
  double c = std::cos(Rad(a)), s = std::sin(Rad(a)), k = 1.194 - c + 0.194 * (c * c - s * s) + 0.368 * 2 * s * c;
  Check(o, film, dt, k); sx_reach("end");
}
HARNESS h_heat_mirror() {   // a conductor as much colder as it was warmer, at the same film temperature, takes in the same heat
  World o, m; bool metric = sx_choose("metric", 2); o.Init(metric, sx_double("d", 0.005, 0.3)); m.Init(metric, o.d);
  double film = sx_double("film", -60, 60), dt = sx_double("dt", 0.01, 80);
  o.w.temperature_air = film - dt / 2; m.w.temperature_air = film + dt / 2; o.w.speed_wind = m.w.speed_wind = sx_choose("wind", 2) ? sx_double("v", 0.01, 30) : 0;
  sx_close(m.s.HeatConvection(film - dt / 2), -o.s.HeatConvection(film + dt / 2), 1e-9, 1e-9, "a cold conductor takes in what a warm one gives off");
  sx_reach("end");
}
namespace { // the same conductor and weather in both unit systems; W/ft against W/m
void Both(World* a, World* b) {
  a->Init(true, sx_double("d", 0.005, 0.1)); b->Init(false, a->d / 0.3048);
  a->w.elevation = 1000 * sx_choose("km", 3); b->w.elevation = a->w.elevation / 0.3048;
}
}
HARNESS h_heat_units_convection() {
  World a, b; Both(&a, &b); double film = 20 * sx_choose("film", 4), dt = sx_double("dt", 1, 80);
  a.w.temperature_air = b.w.temperature_air = film - dt / 2; a.w.speed_wind = sx_double("v", 0.05, 30); b.w.speed_wind = a.w.speed_wind / 0.3048;
  double qa = a.s.HeatConvection(film + dt / 2), qb = b.s.HeatConvection(film + dt / 2) / 0.3048;
  sx_close(qa, qb, 1e-2, 0, "the same convection in metric and imperial units"); sx_reach("end");
}
HARNESS h_heat_units_still() {
  World a, b; Both(&a, &b); double film = 20 * sx_choose("film", 4), dt = sx_double("dt", 1, 80);
  a.w.temperature_air = b.w.temperature_air = film - dt / 2;
  double qa = a.s.HeatConvection(film + dt / 2), qb = b.s.HeatConvection(film + dt / 2) / 0.3048;
  sx_close(qa, qb, 1e-2, 0, "the same still-air convection in metric and imperial units"); sx_reach("end");
}
HARNESS h_heat_units_other() {
  World a, b; Both(&a, &b); double ka = sx_double("ka", 173, 373), dt = sx_double("dt", 0.01, 300);
  a.w.temperature_air = b.w.temperature_air = ka - 273; a.c.emissivity = b.c.emissivity = sx_double("em", 0.01, 1);
  sx_close(a.s.HeatRadiation(ka - 273 + dt), b.s.HeatRadiation(ka - 273 + dt) / 0.3048, 1e-2, 0, "the same radiation in metric and imperial units");
  double q = sx_double("q", 1, 1500); a.w.radiation_solar = q; b.w.radiation_solar = q * 0.3048 * 0.3048;
  sx_close(a.s.HeatSolar(), b.s.HeatSolar() / 0.3048, 1e-9, 0, "the same solar heat in metric and imperial units");
  double i = sx_double("i", 1, 5000), r = sx_double("r", 1e-6, 1e-3); a.Table(r, 2 * r); b.Table(r * 0.3048, 2 * r * 0.3048);
  sx_close(a.s.HeatResistance(60, i), b.s.HeatResistance(60, i) / 0.3048, 1e-9, 0, "the same resistive heat in metric and imperial units");
  sx_reach("end");
}
HARNESS h_heat_current() {   // the solver keeps no results: it always answers for the current cable, units and weather
  World o, p; o.Init(sx_choose("metric", 2), sx_double("d", 0.005, 0.3)); p.Init(sx_choose("metric2", 2), sx_double("d2", 0.005, 0.3));
  p.w.temperature_air = 30; p.w.speed_wind = 2; p.w.radiation_solar = 100; p.c.emissivity = 0.7; p.c.absorptivity = 0.9; p.Table(1e-5, 3e-5);
  double t = sx_double("t", 40, 200);
  o.s.HeatConvection(t); o.s.HeatRadiation(t); o.s.HeatSolar(); o.s.HeatResistance(t, 100); o.s.Validate();
  int how = sx_choose("how", 2);
  if (how == 0) { o.s.set_cable(&p.k); o.s.set_units(p.s.units()); o.s.set_weather(&p.w); }
  else o.s = p.s;
  sx_assert(o.s.cable() == &p.k && o.s.weather() == &p.w && o.s.units() == p.s.units(), "inputs read back");
  sx_same(o.s.HeatConvection(t), p.s.HeatConvection(t), "convection of the current inputs"); sx_same(o.s.HeatRadiation(t), p.s.HeatRadiation(t), "radiation of the current inputs");
  sx_same(o.s.HeatSolar(), p.s.HeatSolar(), "solar heat of the current inputs"); sx_same(o.s.HeatResistance(t, 500), p.s.HeatResistance(t, 500), "resistive heat of the current inputs");
  sx_reach("end");
}
