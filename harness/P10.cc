// P10: solving a catenary for a target.
// @h h_solve_constant mode=real
// @h h_solve_refuse mode=fpu unwind=3
// @h h_solve_refuse_real mode=real unwind=1
// @h h_solve_first mode=real unwind=3 timeout=8000
// @h h_solve_history0 mode=fpu unwind=2 t_unwind=3 wall=100 t_wall=400
// @h h_solve_history1 mode=fpu unwind=2 t_unwind=3 wall=100 t_wall=400
// @h h_solve_history2 mode=fpu unwind=2 t_unwind=3 wall=100 t_wall=400
// @h h_solve_history3 mode=fpu unwind=2 t_unwind=3 wall=100 t_wall=400
// @h h_solve_history4 mode=fpu unwind=2 t_unwind=3 wall=100 t_wall=400
// @h h_solve_constant0 mode=fpu wall=100
// @h h_solve_constant1 mode=fpu wall=100
// @h h_solve_constant2 mode=fpu wall=100
// @h h_solve_constant3 mode=fpu wall=100
// @h h_solve_constant4 mode=fpu wall=100
// @h h_solve_constant5 mode=fpu wall=100
// @h h_solve_constant6 mode=fpu wall=100
// @h h_solve_again0 mode=fpu guided=1 unwind=100 wall=90 t_wall=400 timeout=500
// @h h_solve_again1 mode=fpu guided=1 unwind=100 wall=90 t_wall=400 timeout=500
// @h h_solve_again2 mode=fpu guided=1 unwind=100 wall=90 t_wall=400 timeout=500
// @h h_solve_again3 mode=fpu guided=1 unwind=100 wall=90 t_wall=400 timeout=500
// @h h_solve_again4 mode=fpu guided=1 unwind=100 wall=90 t_wall=400 timeout=500
// @h h_solve_again5 mode=fpu guided=1 unwind=100 wall=90 t_wall=400 timeout=500
// @h h_solve_invalid mode=fpu unwind=2
// @h h_solve_iterate mode=fpu guided=1 unwind=100 wall=60 timeout=500
#include <cmath>
#include "models/transmissionline/catenary_solver.h"
#include "sx.h"
namespace {
typedef CatenarySolver::TargetType T;
const T kType[] = {T::kConstant, T::kLength, T::kSag, T::kTension, T::kNull};
struct In { double w, wy, a, b; };
In Sym(bool incline) {
  In i = {sx_double("w", 0.02, 20), 0, sx_double("a", 20, 1500), 0};
  if (incline) { i.wy = sx_double("wy", 0, 20); i.b = sx_double("b", -700, 700); }
  return i;
}
void Set(CatenarySolver* s, const In& i) { s->set_weight_unit(Vector3d(0, i.wy, i.w)); s->set_spacing_endpoints(Vector3d(i.a, 0, i.b)); }
Catenary3d At(const In& i, double h) { Catenary3d c; c.set_weight_unit(Vector3d(0, i.wy, i.w)); c.set_spacing_endpoints(Vector3d(i.a, 0, i.b)); c.set_tension_horizontal(h); return c; }
double Least(const In& i) { return Catenary2d::ConstantMinimum(Vector3d(i.a, 0, i.b).Magnitude()) * Vector3d(0, i.wy, i.w).Magnitude(); }
double Quantity(const Catenary3d& c, int type, double pos) {
  if (type == 1) return c.Length();
  if (type == 2) return pos == -1 ? c.Sag() : c.Sag(pos);
  return pos == -1 ? c.TensionMax() : c.Tension(pos);
}
}
HARNESS h_solve_constant() {
  In i = Sym(false); CatenarySolver s; Set(&s, i);
  double k = sx_double("k", 10, 1e5); sx_assume(2 * k >= i.a);
  s.set_type_target(T::kConstant); s.set_value_target(k); s.set_position_target(-1);
  sx_close(s.TensionHorizontal(), k * i.w, 1e-9, 1e-6, "tension is the constant times the unit weight");
  Catenary3d c = s.Catenary();
  sx_close(c.Constant(), k, 1e-9, 1e-6, "solved catenary has the target constant");
  sx_close(c.tension_horizontal(), k * i.w, 1e-9, 1e-6, "solved catenary has the tension");
  sx_reach("end");
}
HARNESS h_solve_refuse() {   // targets that no acceptable catenary reaches are refused, again and again
  In i = Sym(true); CatenarySolver s; Set(&s, i);
  int type = 1 + sx_choose("type", 3); double pos = sx_choose("whole", 2) ? -1 : sx_double("pos", 0, 1);
  double v = sx_double("v", 1e-3, 1e6);
  s.set_type_target(kType[type]); s.set_position_target(pos); s.set_value_target(v);
  double y = Quantity(At(i, Least(i)), type, pos);
  if (type == 1) sx_assume(v <= Vector3d(i.a, 0, i.b).Magnitude() || y < v);
  else if (type == 2) sx_assume(y < v);
  else sx_assume(v < y);
  sx_same(s.TensionHorizontal(), -999999, "unreachable target gives no tension");
  sx_same(s.TensionHorizontal(), -999999, "unreachable target gives no tension when asked again");
  sx_assert(!s.Validate(), "unreachable target is not valid");
  sx_reach("end");
}
HARNESS h_solve_refuse_real() {   // a length of at most the straight distance
  In i = Sym(false); i.b = sx_double("b", -700, 700); CatenarySolver s; Set(&s, i);
  double d = sx_double("short", 0, 10); double v = std::sqrt(i.a * i.a + i.b * i.b) - d; sx_assume(v > 0.001);
  s.set_type_target(T::kLength); s.set_value_target(v);
  sx_same(s.TensionHorizontal(), -999999, "a length not above the straight distance gives no tension");
  sx_reach("end");
}
HARNESS h_solve_first() {   // a target reached at a starting point of the iteration is returned exactly
  In i = Sym(false); CatenarySolver s; Set(&s, i);
  int type = 1 + sx_choose("type", 3);
  double pos = sx_choose("whole", 2) ? -1 : sx_double("pos", 0, 1);
  double m = i.w * i.a / 2, h = m;
  if (type != 3 && sx_choose("second", 2)) h = 1.1 * m;
  double y = Quantity(At(i, h), type, pos);
  sx_assume(y > 1e-3);
  s.set_type_target(kType[type]); s.set_position_target(pos); s.set_value_target(y);
  double t = s.TensionHorizontal();
  sx_close(t, h, 1e-6, 0.011, "tension of the starting point that has the target value");
  sx_reach("end");
}
namespace { void History(int what) {   // the answer depends on the current inputs only
  In i = Sym(true), j = i; CatenarySolver s, f; Set(&s, i);
  int t0 = sx_choose("type0", 5), t1 = sx_choose("type1", 4); double v0 = sx_double("v0", 1e-3, 1e6), v1 = sx_double("v1", 1e-3, 1e6);
  s.set_type_target(kType[t0]); s.set_value_target(v0); s.set_position_target(-1);
  int use = sx_choose("use", 3); if (use == 1) s.TensionHorizontal(); else if (use == 2) s.Validate();
  double pos = -1;
  if (what == 0) j.w = sx_double("w2", 0.02, 20);
  if (what == 1) j.a = sx_double("a2", 20, 1500);
  if (what == 2) { pos = sx_double("pos", 0, 1); s.set_position_target(pos); }
  if (what == 3) { s.set_value_target(v1); v0 = v1; }
  if (what == 4) { s.set_type_target(kType[t1]); t0 = t1; }
  if (what == 0) s.set_weight_unit(Vector3d(0, j.wy, j.w));
  if (what == 1) s.set_spacing_endpoints(Vector3d(j.a, 0, j.b));
  Set(&f, j); f.set_type_target(kType[t0]); f.set_value_target(v0); f.set_position_target(pos);
  double x = f.TensionHorizontal(), y = s.TensionHorizontal();
  sx_same(y, x, "same tension as a new solver with the current inputs");
  sx_same(s.TensionHorizontal(), y, "same tension when asked again");
  sx_same(s.Catenary().tension_horizontal(), f.Catenary().tension_horizontal(), "same catenary as a new solver with the current inputs");
  sx_assert(s.type_target() == kType[t0] && s.value_target() == v0 && s.position_target() == pos, "targets");
  sx_same(s.spacing_endpoints().x(), j.a, "spacing"); sx_same(s.weight_unit().z(), j.w, "unit weight");
  sx_reach("end");
}
}
HARNESS h_solve_history0() { History(0); }
HARNESS h_solve_history1() { History(1); }
HARNESS h_solve_history2() { History(2); }
HARNESS h_solve_history3() { History(3); }
HARNESS h_solve_history4() { History(4); }
namespace { void Constant(int what) {
  In i = Sym(true), j = i; CatenarySolver s, f; Set(&s, i);
  double v0 = sx_double("v0", 1, 1e6), v1 = v0, pos = -1;
  s.set_type_target(T::kConstant); s.set_value_target(v0); s.set_position_target(-1);
  if (sx_choose("use", 2)) s.Validate(); else s.TensionHorizontal();
    if (what == 0) { j.w = sx_double("w2", 0.02, 20); s.set_weight_unit(Vector3d(0, j.wy, j.w)); }
  if (what == 1) { j.wy = sx_double("wy2", 0, 20); s.set_weight_unit(Vector3d(0, j.wy, j.w)); }
  if (what == 2) { j.a = sx_double("a2", 20, 1500); s.set_spacing_endpoints(Vector3d(j.a, 0, j.b)); }
  if (what == 3) { j.b = sx_double("b2", -700, 700); s.set_spacing_endpoints(Vector3d(j.a, 0, j.b)); }
  if (what == 4) { v1 = sx_double("v1", 1, 1e6); s.set_value_target(v1); }
  if (what == 5) { v1 = v0 + sx_double("dv", -1e-3, 1e-3); s.set_value_target(v1); }
  if (what == 6) { pos = sx_double("pos", 0, 1); s.set_position_target(pos); }
  Set(&f, j); f.set_type_target(T::kConstant); f.set_value_target(v1); f.set_position_target(pos);
  sx_same(s.TensionHorizontal(), f.TensionHorizontal(), "same tension as a new solver with the current inputs");
  sx_same(s.Catenary().tension_horizontal(), f.Catenary().tension_horizontal(), "same catenary as a new solver with the current inputs");
  sx_same(s.Catenary().spacing_endpoints().x(), f.Catenary().spacing_endpoints().x(), "same span as a new solver with the current inputs");
  sx_same(s.Catenary().spacing_endpoints().z(), f.Catenary().spacing_endpoints().z(), "same rise as a new solver with the current inputs");
  sx_same(s.Catenary().weight_unit().z(), f.Catenary().weight_unit().z(), "same weight as a new solver with the current inputs");
  sx_reach("end");
}
}
HARNESS h_solve_constant0() { Constant(0); }
HARNESS h_solve_constant1() { Constant(1); }
HARNESS h_solve_constant2() { Constant(2); }
HARNESS h_solve_constant3() { Constant(3); }
HARNESS h_solve_constant4() { Constant(4); }
HARNESS h_solve_constant5() { Constant(5); }
HARNESS h_solve_constant6() { Constant(6); }
HARNESS h_solve_invalid() {   // a constant below the least acceptable one is refused every time
  In i = Sym(true); CatenarySolver s; Set(&s, i);
  double k = sx_double("k", 1, 1e5);
  s.set_type_target(T::kConstant); s.set_value_target(k);
  sx_assume(!At(i, k * Vector3d(0, i.wy, i.w).Magnitude()).Validate(false));
  sx_same(s.TensionHorizontal(), -999999, "invalid catenary is not returned");
  sx_same(s.TensionHorizontal(), -999999, "invalid catenary is not returned when asked again");
  sx_same(s.Catenary().weight_unit().z(), Catenary3d().weight_unit().z(), "invalid catenary is replaced by a new one");
  sx_assert(!s.Validate(), "invalid catenary is reported");
  sx_reach("end");
}
namespace {
// the documented iteration: secant steps from the least tension until two estimates are within 0.01
double Reference(const In& i, int type, double pos, double v) {
  double lx = Least(i), ly = Quantity(At(i, lx), type, pos);
  if (type == 1 && v <= Vector3d(i.a, 0, i.b).Magnitude()) return -999999;
  if (type == 3 ? v < ly : ly < v) return -999999;
  double rx = type == 3 ? v : lx * 1.10, ry = Quantity(At(i, rx), type, pos), x = lx;
  for (int n = 0; n < 100; n++) {
    if (!(0.01 < std::abs(lx - rx))) return x;
    double slope = (ry - ly) / (rx - lx);
    x = lx + ((v - ly) / slope);
    double y = Quantity(At(i, x), type, pos);
    if (y == v || x == lx || x == rx) return x;
    if (x < lx) { rx = lx; ry = ly; lx = x; ly = y; }
    else if (lx < x && x < rx) { if (y < v) { rx = x; ry = y; } else { lx = x; ly = y; } }
    else { lx = rx; ly = ry; rx = x; ry = y; }
  }
  return -999999;
}
}
HARNESS h_solve_iterate() {   // every path that a concrete input takes, through the whole iteration
  In i = Sym(sx_choose("inclined", 2) == 1); CatenarySolver s; Set(&s, i);
  int type = 1 + sx_choose("type", 3), at = sx_choose("at", 4); double pos = -1;
  if (at == 1) pos = sx_double("pos", 0.1, 0.9);
  if (at >= 2) { sx_assume(type == 3); pos = at - 2; }   // an end point has tension but no sag
  double k = sx_double("k", 1.2, 12), h = k * Least(i), v = Quantity(At(i, h), type, pos);
  s.set_type_target(kType[type]); s.set_position_target(pos); s.set_value_target(v);
  double r = Reference(i, type, pos, v); sx_assume(r > 0);
  double t = s.TensionHorizontal();
  sx_assert(t - r <= 0.02 && r - t <= 0.02, "tension found by the iteration");
  sx_reach("end");
}
namespace { void Again(int what) {   // as h_solve_iterate, for a solver that has solved another target before
  In i = Sym(sx_choose("inclined", 2) == 1), j = i; CatenarySolver s; Set(&s, i);
  int t0 = 1 + sx_choose("type0", 3), t1 = t0; double p0 = sx_choose("at", 2) ? sx_double("pos", 0.1, 0.9) : -1, p1 = p0;
  double k = sx_double("k", 1.5, 10), v0 = Quantity(At(i, k * Least(i)), t0, p0), v1 = v0;
  s.set_type_target(kType[t0]); s.set_position_target(p0); s.set_value_target(v0);
  if (sx_choose("use", 2)) s.Validate(); else s.TensionHorizontal();
    if (what == 0) { v1 = Quantity(At(i, sx_double("k2", 1.5, 10) * Least(i)), t0, p0); s.set_value_target(v1); }
  if (what == 1) { v1 = v0 * (1 - 1e-7 * sx_double("near", 1, 100)); s.set_value_target(v1); }
  if (what == 2) { j.w = i.w * sx_double("w2", 0.8, 1.2); s.set_weight_unit(Vector3d(0, j.wy, j.w)); }
  if (what == 3) { j.a = i.a * sx_double("a2", 0.98, 1.02); s.set_spacing_endpoints(Vector3d(j.a, 0, j.b)); }
  if (what == 4) { p1 = sx_double("pos2", 0.2, 0.8); s.set_position_target(p1); }
  if (what == 5) { t1 = 1 + sx_choose("type1", 3); v1 = Quantity(At(i, k * Least(i)), t1, p0); s.set_value_target(v1); s.set_type_target(kType[t1]); }
  double r = Reference(j, t1, p1, v1); sx_assume(r > 0);
  double t = s.TensionHorizontal();
  sx_assert(t - r <= 0.02 && r - t <= 0.02, "tension found by the iteration after another");
  sx_reach("end");
}
}
HARNESS h_solve_again0() { Again(0); }
HARNESS h_solve_again1() { Again(1); }
HARNESS h_solve_again2() { Again(2); }
HARNESS h_solve_again3() { Again(3); }
HARNESS h_solve_again4() { Again(4); }
HARNESS h_solve_again5() { Again(5); }
