// P20: conductor resistance interpolates its table; the rating cable shows the base cable.
// @h h_res_inside mode=real
// @h h_res_points mode=real
// @h h_res_line mode=real
// @h h_res_missing mode=fpu
// @h h_res_follow mode=fpu
#include <cmath>
#include "models/thermalrating/thermal_rating_cable.h"
#include "sx.h"
namespace {
const char* kT[] = {"t0", "t1", "t2", "t3", "t4", "t5"}; const char* kR[] = {"r0", "r1", "r2", "r3", "r4", "r5"};
struct Table { int n; double t[6], r[6]; };
Table Sym(int n) {   // an ascending table, the steps between temperatures are symbolic
  Table b; b.n = n;
  for (int i = 0; i < n; i++) { double s = i ? sx_double(kT[i], 0.5, 100) : sx_double(kT[0], -50, 50); b.t[i] = i ? b.t[i - 1] + s : s; b.r[i] = sx_double(kR[i], 1e-6, 1); }
  return b;
}
void Put(Cable* c, const Table& b) {
  c->resistances_ac.clear();
  for (int i = 0; i < b.n; i++) { Cable::ResistancePoint p; p.temperature = b.t[i]; p.resistance = b.r[i]; c->resistances_ac.push_back(p); }
}
}
HARNESS h_res_inside() {   // between two table points: the weighted mean, in proportion to the distances
  Table b = Sym(2 + sx_choose("n", 4)); Cable c; Put(&c, b); ThermalRatingCable k; k.set_cable_base(&c);
  int i = sx_choose("i", b.n - 1); double f = sx_double("f", 0, 1), s = b.t[i + 1] - b.t[i];
  sx_close(k.Resistance(b.t[i] + f * s), b.r[i] + f * (b.r[i + 1] - b.r[i]), 1e-9, 1e-12, "interpolation between two table points");
  sx_reach("end");
}
HARNESS h_res_points() {   // at a table point, from either side
  Table b = Sym(2 + sx_choose("n", 5)); Cable c; Put(&c, b); ThermalRatingCable k; k.set_cable_base(&c);
  int i = sx_choose("i", b.n);
  sx_close(k.Resistance(b.t[i]), b.r[i], 1e-9, 1e-12, "value of the table at a table point");
  sx_reach("end");
}
HARNESS h_res_line() {   // beyond the table: the nearest segment goes on
  Table b = Sym(2 + sx_choose("n", 4)); Cable c; Put(&c, b); ThermalRatingCable k; k.set_cable_base(&c);
  double d = sx_double("d", 1e-3, 500); bool low = sx_choose("low", 2);
  int i = low ? 0 : b.n - 2;
  double t = low ? b.t[0] - d : b.t[b.n - 1] + d, slope = (b.r[i + 1] - b.r[i]) / (b.t[i + 1] - b.t[i]);
  double want = low ? b.r[0] - slope * d : b.r[b.n - 1] + slope * d;
  sx_close(k.Resistance(t), want, 1e-9, 1e-9, "extension of the nearest segment");
  sx_reach("end");
}
HARNESS h_res_missing() {
  Table b = Sym(sx_choose("n", 2)); Cable c; Put(&c, b); ThermalRatingCable k; k.set_cable_base(&c);
  sx_assert(k.Resistance(sx_double("t", -100, 500)) == -999999, "fewer than two points: the null value");
  sx_assert(!k.Validate(), "fewer than two points are refused");
  sx_reach("end");
}
HARNESS h_res_follow() {   // the rating cable has no copy of anything: it always shows the current base cable
  Cable c, d; ThermalRatingCable k; k.set_cable_base(&c);
  Table b = Sym(2), e = b; e.r[0] = sx_double("s0", 1e-6, 1); e.r[1] = sx_double("s1", 1e-6, 1);
  double t = sx_double("t", -100, 300);
  Put(&c, b); Put(&d, e);
  c.diameter = sx_double("dia", 0.001, 1); d.diameter = sx_double("dia2", 0.001, 1);
  c.absorptivity = sx_double("ab", 0, 1); c.emissivity = sx_double("em", 0, 1); d.absorptivity = sx_double("ab2", 0, 1); d.emissivity = sx_double("em2", 0, 1);
  c.component_core.capacity_heat = sx_double("hc", 0, 1e4); c.component_shell.capacity_heat = sx_double("hs", 0, 1e4);
  d.component_core.capacity_heat = sx_double("hc2", 0, 1e4); d.component_shell.capacity_heat = sx_double("hs2", 0, 1e4);
  double r0 = k.Resistance(t);
  int how = sx_choose("how", 3);
  const Cable* now = &d;
  ThermalRatingCable f; f.set_cable_base(&d); double want = f.Resistance(t);
  if (how == 0) k.set_cable_base(&d);
  else if (how == 1) { Put(&c, e); c.diameter = d.diameter; c.absorptivity = d.absorptivity; c.emissivity = d.emissivity; c.component_core.capacity_heat = d.component_core.capacity_heat; c.component_shell.capacity_heat = d.component_shell.capacity_heat; now = &c; }
  else { ThermalRatingCable m = k; k = f; sx_same(m.Resistance(t), r0, "a copy keeps the cable it had"); }
  sx_same(k.Resistance(t), want, "resistance of the current table");
  sx_assert(k.cable_base() == now, "base cable"); sx_assert(k.resistances_ac() == &now->resistances_ac, "table of the base cable");
  sx_same(*k.diameter(), d.diameter, "diameter"); sx_same(*k.absorptivity(), d.absorptivity, "absorptivity"); sx_same(*k.emissivity(), d.emissivity, "emissivity");
  sx_assert(k.component_core()->component_base() == &now->component_core, "core component");
  sx_assert(k.component_shell()->component_base() == &now->component_shell, "shell component");
  sx_same(*k.component_core()->capacity_heat(), d.component_core.capacity_heat, "heat capacity of the core");
  sx_same(*k.component_shell()->capacity_heat(), d.component_shell.capacity_heat, "heat capacity of the shell");
  sx_reach("end");
}
