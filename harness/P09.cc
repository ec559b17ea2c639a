// P09: the catenary in space against the planar catenary and statics.
// @h h_c3_planar mode=fpu
// @h h_c3_flat mode=real
// @h h_c3_flat_tension mode=real
// @h h_c3_level mode=real
// @h h_c3_level_tension mode=real
// @h h_c3_level_angles mode=real
// @h h_c3_ends mode=real
// @h h_c3_mirror_tension mode=real guided=1 timeout=4000
// @h h_c3_mirror mode=real guided=1 timeout=4000
// @h h_c3_reset mode=fpu t_wall=400
#include <cmath>
#include "models/transmissionline/catenary.h"
#include "sx.h"
namespace {
const double kRad = 3.141592653589793 / 180;
const AxisDirectionType kPos = AxisDirectionType::kPositive, kNeg = AxisDirectionType::kNegative;
struct In { double h, wy, wz, a, b; };
In Sym(bool wind, bool incline) {
  In i = {sx_double("h", 500, 50000), 0, sx_double("wz", 0.02, 20), sx_double("a", 20, 1500), 0};
  if (wind) i.wy = sx_double("wy", 0.01, 20);
  if (incline) { int s = sx_choose("sign_b", 3) - 1; i.b = s * sx_double("abs_b", 1e-2, 700); }
  sx_assume(4 * i.h * i.h >= (i.wy * i.wy + i.wz * i.wz) * (i.a * i.a + i.b * i.b));
  return i;
}
void Set(Catenary3d* c, const In& i) { c->set_tension_horizontal(i.h); c->set_weight_unit(Vector3d(0, i.wy, i.wz)); c->set_spacing_endpoints(Vector3d(i.a, 0, i.b)); }
void Set(Catenary2d* c, const In& i) { c->set_tension_horizontal(i.h); c->set_weight_unit(std::sqrt(i.wy * i.wy + i.wz * i.wz)); c->set_spacing_endpoints(Vector2d(i.a, i.b)); }
}
HARNESS h_c3_planar() {   // scalar answers are those of the planar catenary in the plane of the load
  In i = Sym(true, true); double f = sx_double("f", 0, 1);
  Catenary3d c; Set(&c, i);
  Vector3d w(0, i.wy, i.wz), s(i.a, 0, i.b);
  double y = i.b * (std::abs(i.wz) / w.Magnitude());
  Catenary2d d; d.set_tension_horizontal(i.h); d.set_weight_unit(w.Magnitude());
  double m = s.Magnitude();
  d.set_spacing_endpoints(Vector2d(std::sqrt(std::pow(m, 2) - std::pow(y, 2)), y));
  int k = sx_choose("what", 9);
  switch (k) {
    case 0: sx_same(c.Length(), d.Length(), "length"); break;
    case 1: sx_same(c.LengthSlack(), d.LengthSlack(), "slack"); break;
    case 2: sx_same(c.Sag(), d.Sag(), "sag"); break;
    case 3: sx_same(c.Sag(f), d.Sag(f), "sag at a position"); break;
    case 4: sx_same(c.Tension(f), d.Tension(f), "tension"); break;
    case 5: sx_same(c.TensionMax(), d.TensionMax(), "greatest tension"); break;
    case 6: sx_same(c.TensionAverage(2), d.TensionAverage(2), "average tension"); sx_same(c.TensionAverage(0), d.TensionAverage(0), "average tension"); break;
    case 7: sx_same(c.PositionFractionOrigin(), d.PositionFractionOrigin(), "low point"); sx_same(c.PositionFractionSagPoint(), d.PositionFractionSagPoint(), "sag point"); break;
    case 8: sx_same(c.Constant(), d.Constant(), "constant"); sx_same(c.tension_horizontal(), i.h, "horizontal tension"); break;
  }
  sx_reach("end");
}
HARNESS h_c3_flat() {   // without transverse load the curve is the planar catenary in the vertical plane
  In i = Sym(false, true); double f = sx_double("f", 0, 1);
  Catenary3d c; Set(&c, i); Catenary2d d; Set(&d, i);
  Point3d<double> p = c.Coordinate(f), h = c.CoordinateChord(f); Point2d<double> q = d.Coordinate(f, true), g = d.CoordinateChord(f, true);
  sx_close(p.x, q.x, 1e-6, 1e-2, "curve x"); sx_close(p.y, 0, 0, 1e-3, "curve stays in its vertical plane"); sx_close(p.z, q.y, 1e-6, 1e-2, "curve height");
  sx_close(h.x, g.x, 1e-6, 1e-2, "chord x"); sx_close(h.y, 0, 0, 1e-3, "chord y"); sx_close(h.z, g.y, 1e-6, 1e-2, "chord height");
  sx_close(c.SwingAngle(), 0, 0, 1e-6, "no swing without transverse load");
  sx_reach("end");
}
HARNESS h_c3_flat_tension() {
  In i = Sym(false, true); double f = sx_double("f", 0, 1);
  Catenary3d c; Set(&c, i); Catenary2d d; Set(&d, i);
  bool neg = sx_choose("neg", 2) == 1;
  Vector3d t = c.Tension(f, neg ? kNeg : kPos); Vector2d u = d.Tension(f, neg ? kNeg : kPos);
  sx_close(t.x(), u.x(), 1e-6, 1e-2, "longitudinal tension"); sx_close(t.y(), 0, 0, 1e-3, "no transverse tension"); sx_close(t.z(), u.y(), 1e-6, 1e-2, "vertical tension");
  sx_reach("end");
}
HARNESS h_c3_level() {   // level span under transverse load: the planar curve swung by the load angle
  In i = Sym(true, false); double f = sx_double("f", 0, 1);
  Catenary3d c; Set(&c, i); bool neg = sx_choose("transverse_negative", 2) == 1;
  if (neg) c.set_direction_transverse(kNeg);
  Catenary2d d; Set(&d, i);
  Point3d<double> p = c.Coordinate(f), h = c.CoordinateChord(f); Point2d<double> q = d.Coordinate(f, true);
  double w = std::sqrt(i.wy * i.wy + i.wz * i.wz), s = -q.y;
  sx_close(p.x, q.x, 1e-6, 1e-2, "curve x");
  sx_close(p.z, -s * i.wz / w, 1e-5, 1e-2, "curve hangs below the chord by the vertical share of the sag");
  sx_close(p.y, (neg ? -1 : 1) * s * i.wy / w, 1e-5, 1e-2, "curve moves sideways by the transverse share of the sag");
  sx_close(h.y, 0, 0, 1e-3, "chord stays in the vertical plane"); sx_close(h.z, 0, 0, 1e-2, "chord is level"); sx_close(h.x, q.x, 1e-6, 1e-2, "chord x");
  sx_close(std::tan(kRad * c.SwingAngle()), i.wy / i.wz, 1e-6, 1e-9, "swing angle is that of the load");
  sx_reach("end");
}
HARNESS h_c3_level_tension() {
  In i = Sym(true, false); double f = sx_double("f", 0, 1), g = sx_double("g", 0, 1);
  Catenary3d c; Set(&c, i); bool neg = sx_choose("transverse_negative", 2) == 1;
  if (neg) c.set_direction_transverse(kNeg);
  Vector3d t = c.Tension(f, kPos), u = c.Tension(g, kPos), r = c.Tension(f, kNeg);
  double L = c.Length();
  sx_close(t.x(), i.h, 1e-5, 1e-2, "longitudinal component is the horizontal tension");
  sx_close(t.z() - u.z(), i.wz * L * (f - g), 1e-4, 0.1, "vertical components differ by the vertical load between them");
  sx_close(t.y() - u.y(), (neg ? 1 : -1) * i.wy * L * (f - g), 1e-4, 0.1, "transverse components differ by the transverse load between them");
  sx_close(r.x(), -t.x(), 1e-6, 1e-2, "balanced cut"); sx_close(r.y(), -t.y(), 1e-6, 1e-2, "balanced cut"); sx_close(r.z(), -t.z(), 1e-6, 1e-2, "balanced cut");
  sx_reach("end");
}
HARNESS h_c3_level_angles() {
  In i = Sym(false, true); double f = sx_double("f", 0, 1);
  Catenary3d c; Set(&c, i); Catenary2d d; Set(&d, i);
  bool neg = sx_choose("neg", 2) == 1;
  sx_close(c.TangentAngleVertical(f, neg ? kNeg : kPos), d.TangentAngle(f, neg ? kNeg : kPos), 1e-5, 1e-2, "vertical tangent angle without transverse load");
  sx_reach("end");
}
HARNESS h_c3_ends() {   // any load: the curve joins the end points and has the planar curve's slack
  In i = Sym(true, true);
  Catenary3d c; Set(&c, i);
  Point3d<double> p = c.Coordinate(0), q = c.CoordinateChord(0);
  sx_close(p.x, 0, 0, 1e-2, "curve starts at the left end point"); sx_close(p.y, 0, 0, 1e-2, "curve starts at the left end point"); sx_close(p.z, 0, 0, 1e-2, "curve starts at the left end point");
  sx_close(q.x, 0, 0, 1e-2, "chord starts at the left end point"); sx_close(q.y, 0, 0, 1e-2, "chord starts at the left end point"); sx_close(q.z, 0, 0, 1e-2, "chord starts at the left end point");
  p = c.Coordinate(1); q = c.CoordinateChord(1);
  sx_close(q.x, i.a, 1e-5, 1e-2, "chord ends at the right end point"); sx_close(q.y, 0, 0, 1e-2, "chord ends at the right end point"); sx_close(q.z, i.b, 1e-5, 1e-2, "chord ends at the right end point");
  sx_close(p.x, i.a, 1e-5, 1e-2, "curve ends at the right end point"); sx_close(p.y, 0, 0, 1e-2, "curve ends at the right end point"); sx_close(p.z, i.b, 1e-5, 1e-2, "curve ends at the right end point");
  double m = c.Length() - c.LengthSlack();
  sx_close(m * m, i.a * i.a + i.b * i.b, 1e-5, 1, "slack is the length beyond the straight distance");
  sx_reach("end");
}
HARNESS h_c3_reset() {
  In i = Sym(true, true), j = Sym(true, true); double f = sx_double("f", 0, 1);
  Catenary3d c, d; Set(&c, i);
  int use = sx_choose("use", 2); if (use) { c.Length(); c.Tension(f); }
  int part = sx_choose("part", 4); bool neg = false;
  if (part == 0) { c.set_tension_horizontal(j.h); i.h = j.h; }
  else if (part == 1) { c.set_weight_unit(Vector3d(0, j.wy, j.wz)); i.wy = j.wy; i.wz = j.wz; }
  else if (part == 2) { c.set_spacing_endpoints(Vector3d(j.a, 0, j.b)); i.a = j.a; i.b = j.b; }
  else { c.set_direction_transverse(kNeg); neg = true; }
  if (sx_choose("copy", 2)) { Catenary3d k(c); c = k; }
  Set(&d, i); if (neg) d.set_direction_transverse(kNeg);
  sx_assert(c.direction_transverse() == (neg ? kNeg : kPos), "transverse direction");
  sx_same(c.Length(), d.Length(), "length with the current inputs");
  sx_same(c.TensionMax(), d.TensionMax(), "tension with the current inputs");
  sx_same(c.SwingAngle(), d.SwingAngle(), "swing with the current inputs");
  sx_same(c.spacing_endpoints().z(), i.b, "spacing"); sx_same(c.weight_unit().y(), i.wy, "weight");
  sx_reach("end");
}
HARNESS h_c3_mirror_tension() {   // any load: reversing the transverse direction mirrors, reversing the cut negates, components have the magnitude
  In i = Sym(true, true); double f = sx_double("f", 0, 1);
  Catenary3d c, d; Set(&c, i); Set(&d, i); d.set_direction_transverse(kNeg);
  Vector3d t = c.Tension(f, kPos), u = d.Tension(f, kPos), v = c.Tension(f, kNeg);
  sx_close(u.x(), t.x(), 1e-5, 1e-2, "mirrored longitudinal tension"); sx_close(u.y(), -t.y(), 1e-5, 1e-2, "mirrored transverse tension"); sx_close(u.z(), t.z(), 1e-5, 1e-2, "mirrored vertical tension");
  double m = c.Tension(f);
  sx_close(t.x() * t.x() + t.y() * t.y() + t.z() * t.z(), m * m, 1e-6, 1e-2, "tension is the magnitude of its components");
  sx_close(t.y() * i.wz, -t.z() * i.wy, 1e-5, 1e-1, "tension swings with the load");
  sx_close(v.x() * v.x() + v.y() * v.y() + v.z() * v.z(), m * m, 1e-6, 1e-2, "tension is the magnitude of its components on the other side of the cut");
  sx_reach("end");
}
HARNESS h_c3_mirror() {
  In i = Sym(true, true); sx_assume(i.wy > 0.2 * i.wz && (i.b > 5 || i.b < -5)); double f = sx_double("f", 0, 1);
  Catenary3d c, d; Set(&c, i); Set(&d, i); d.set_direction_transverse(kNeg);
  Point3d<double> p = c.Coordinate(f), q = d.Coordinate(f), g = c.CoordinateChord(f), h = d.CoordinateChord(f);
  sx_close(q.x, p.x, 1e-5, 1e-2, "mirrored curve"); sx_close(q.y, -p.y, 1e-5, 1e-2, "mirrored curve"); sx_close(q.z, p.z, 1e-5, 1e-2, "mirrored curve");
  sx_close(h.x, g.x, 1e-5, 1e-2, "same chord"); sx_close(h.y, 0, 0, 1e-2, "same chord"); sx_close(h.z, g.z, 1e-5, 1e-2, "same chord");
  double s = c.Sag(f), ex = p.x - g.x, ey = p.y - g.y, ez = p.z - g.z;
  sx_close(ex * ex + ey * ey + ez * ez, s * s, 1e-5, 1e-2, "curve hangs from the chord by the sag");
  sx_close(g.z * i.a, g.x * i.b, 1e-5, 5, "chord is straight");
  sx_reach("end");
}
