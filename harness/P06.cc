// P06: shape of the planar catenary.
// @h h_cat_ends mode=real
// @h h_cat_equation mode=real
// @h h_cat_length mode=real
// @h h_cat_fraction mode=real
// @h h_cat_chord mode=real
// @h h_cat_slack mode=real
// @h h_cat_reset mode=fpu
// @h h_cat_fresh mode=fpu
#include <cmath>
#include "models/transmissionline/catenary.h"
#include "sx.h"
namespace {
const double kRad = 3.141592653589793 / 180;
struct In { double h, w, a, b; };
In Sym() {   // the ranges and the least catenary constant that Validate accepts
  In i = {sx_double("h", 500, 50000), sx_double("w", 0.02, 20), sx_double("a", 20, 1500), sx_double("b", -700, 700)};
  sx_assume(4 * i.h * i.h >= i.w * i.w * (i.a * i.a + i.b * i.b));
  return i;
}
void Set(Catenary2d* c, const In& i) {
  c->set_tension_horizontal(i.h); c->set_weight_unit(i.w); c->set_spacing_endpoints(Vector2d(i.a, i.b));
}
}
HARNESS h_cat_ends() {
  In i = Sym(); Catenary2d c; Set(&c, i);
  Point2d<double> p0 = c.Coordinate(0, true), p1 = c.Coordinate(1, true), q0 = c.Coordinate(0), q1 = c.Coordinate(1);
  sx_close(p0.x, 0, 0, 1e-3, "starts at the left end point"); sx_close(p0.y, 0, 0, 1e-3, "starts at the left end point height");
  sx_close(p1.x, i.a, 0, 1e-3, "ends at the right end point"); sx_close(p1.y, i.b, 0, 1e-3, "ends at the right end point height");
  sx_close(q1.x - q0.x, i.a, 0, 1e-3, "horizontal spacing without shifting the origin"); sx_close(q1.y - q0.y, i.b, 0, 1e-3, "vertical spacing without shifting the origin");
  sx_close(c.Constant(), i.h / i.w, 1e-9, 0, "catenary constant");
  sx_reach("end");
}
HARNESS h_cat_equation() {
  In i = Sym(); double f = sx_double("f", 0, 1); Catenary2d c; Set(&c, i);
  double k = i.h / i.w;
  Point2d<double> q = c.Coordinate(f);
  sx_close(q.y, k * (std::cosh(q.x / k) - 1), 1e-6, 1e-3, "height is that of the catenary curve");
  Point2d<double> p = c.Coordinate(f, true), q0 = c.Coordinate(0);
  sx_close(p.x, q.x - q0.x, 1e-6, 1e-3, "shifted origin x"); sx_close(p.y, q.y - q0.y, 1e-6, 1e-3, "shifted origin y");
  sx_assert(q.y >= 0, "low point is the lowest");
  sx_reach("end");
}
HARNESS h_cat_length() {
  In i = Sym(); double f = sx_double("f", 0, 1); Catenary2d c; Set(&c, i);
  double k = i.h / i.w, L = c.Length(), s = std::sinh(i.a / (2 * k));
  sx_close(L * L, i.b * i.b + 4 * k * k * s * s, 1e-6, 1e-3, "length between the end points");
  double x = c.Coordinate(f).x, x0 = c.Coordinate(0).x;
  sx_close(k * std::sinh(x / k) - k * std::sinh(x0 / k), f * L, 1e-6, 1e-3, "position fraction is the fraction of the curve length");
  sx_reach("end");
}
HARNESS h_cat_fraction() {
  In i = {sx_double("h", 500, 50000), sx_double("w", 0.02, 20), sx_double("a", 20, 1500), 0}; int sb = sx_choose("sign_b", 3) - 1; i.b = sb * sx_double("abs_b", 1e-3, 700);
  sx_assume(4 * i.h * i.h >= i.w * i.w * (i.a * i.a + i.b * i.b));
  Catenary2d c; Set(&c, i);
  double f = sx_double("f", 0, 1);
  double t = c.TangentAngle(f, AxisDirectionType::kPositive);
  sx_close(c.PositionFraction(t), f, 1e-6, 1e-3, "position of a tangent angle inverts the tangent angle");
  sx_close(c.TangentAngle(c.PositionFractionOrigin(), AxisDirectionType::kPositive), 0, 0, 1e-3, "curve is level at the low point");
  sx_close(c.Coordinate(c.PositionFractionOrigin()).y, 0, 0, 1e-3, "low point is at height zero");
  sx_close(std::tan(kRad * c.TangentAngle(c.PositionFractionSagPoint(), AxisDirectionType::kPositive)), i.b / i.a, 1e-6, 1e-3, "curve is parallel to the chord at the sag point");
  sx_close(c.TangentAngle(f, AxisDirectionType::kNegative), -t, 1e-9, 1e-3, "tangent angle reverses with the direction");
  sx_reach("end");
}
HARNESS h_cat_chord() {
  In i = Sym(); double f = sx_double("f", 0, 1); Catenary2d c; Set(&c, i);
  Point2d<double> p = c.Coordinate(f, true), h = c.CoordinateChord(f, true), hn = c.CoordinateChord(f), pn = c.Coordinate(f);
  sx_close(h.x, p.x, 1e-6, 1e-3, "chord point below or above the curve point");
  sx_close(h.y * i.a, i.b * p.x, 1e-6, 1, "chord is the straight line between the end points");
  sx_close(c.Sag(f), h.y - p.y, 1e-6, 1e-3, "sag is the height of the chord above the curve");
  sx_close(hn.y - pn.y, h.y - p.y, 1e-6, 1e-3, "chord and curve shift together");
  sx_close(c.Sag(), c.Sag(c.PositionFractionSagPoint()), 1e-9, 1e-3, "greatest sag is at the sag point");
  sx_reach("end");
}
HARNESS h_cat_slack() {
  In i = Sym(); Catenary2d c; Set(&c, i);
  double s = c.LengthSlack(), m = c.Length() - s;
  sx_close(m * m, i.a * i.a + i.b * i.b, 1e-6, 1e-2, "slack is the length beyond the straight distance");
  sx_assert(m > 0, "straight distance is positive");
  sx_reach("end");
}
namespace {
struct Out { double v[24]; int n; };
Out All(const Catenary2d& c, double f) {
  Out o; o.n = 0; auto put = [&](double x) { o.v[o.n++] = x; };
  put(c.Length()); put(c.LengthSlack()); put(c.Coordinate(f).x); put(c.Coordinate(f).y); put(c.CoordinateChord(f, true).x); put(c.CoordinateChord(f, true).y);
  put(c.PositionFractionOrigin()); put(c.PositionFractionSagPoint()); put(c.Sag()); put(c.Sag(f)); put(c.TangentAngle(f, AxisDirectionType::kPositive));
  put(c.Tension(f)); put(c.Tension(f, AxisDirectionType::kNegative).x()); put(c.Tension(f, AxisDirectionType::kNegative).y()); put(c.TensionAverage(0)); put(c.TensionAverage(3));
  put(c.TensionMax()); put(c.TangentVector(f, AxisDirectionType::kPositive).x()); put(c.Constant());
  return o;
}
}
HARNESS h_cat_reset() {   // answers depend on the current inputs only, whatever was asked or set before
  In i = Sym(), j = Sym(); double f = sx_double("f", 0, 1);
  Catenary2d c, d; Set(&c, i);
  int use = sx_choose("use", 3);
  if (use == 1) c.Length(); else if (use == 2) { c.Validate(); c.TensionMax(); c.Sag(); }
  int part = sx_choose("part", 4);
  if (part == 0) { c.set_tension_horizontal(j.h); i.h = j.h; }
  else if (part == 1) { c.set_weight_unit(j.w); i.w = j.w; }
  else if (part == 2) { c.set_spacing_endpoints(Vector2d(j.a, j.b)); i.a = j.a; i.b = j.b; }
  else { Set(&c, j); i = j; }
  int how = sx_choose("first", 2);
  if (how) { Catenary2d k(c); c = k; }
  Set(&d, i);
  Out x = All(c, f), y = All(d, f);
  for (int n = 0; n < x.n; n++) sx_same(x.v[n], y.v[n], "same answer as a new catenary with the current inputs");
  sx_assert(c.Validate() == d.Validate(), "same validity as a new catenary with the current inputs");
  sx_same(c.tension_horizontal(), i.h, "tension"); sx_same(c.weight_unit(), i.w, "unit weight"); sx_same(c.spacing_endpoints().x(), i.a, "spacing"); sx_same(c.spacing_endpoints().y(), i.b, "spacing");
  sx_reach("end");
}
HARNESS h_cat_fresh() {   // every accessor agrees with itself when it is the first one called
  In i = Sym(); double f = sx_double("f", 0, 1);
  Catenary2d d; Set(&d, i); d.Length(); Out y = All(d, f);
  Catenary2d c; Set(&c, i);
  int k = sx_choose("first", 8); double v = 0;
  switch (k) {
    case 0: v = c.LengthSlack(); sx_same(v, y.v[1], "slack asked first"); break;
    case 1: v = c.Coordinate(f).x; sx_same(v, y.v[2], "coordinate asked first"); break;
    case 2: v = c.CoordinateChord(f, true).y; sx_same(v, y.v[5], "chord asked first"); break;
    case 3: v = c.PositionFractionOrigin(); sx_same(v, y.v[6], "low point asked first"); break;
    case 4: v = c.Sag(); sx_same(v, y.v[8], "sag asked first"); break;
    case 5: v = c.TangentAngle(f, AxisDirectionType::kPositive); sx_same(v, y.v[10], "tangent asked first"); break;
    case 6: v = c.TensionAverage(0); sx_same(v, y.v[14], "average tension asked first"); break;
    case 7: v = c.TensionMax(); sx_same(v, y.v[16], "greatest tension asked first"); break;
  }
  sx_reach("end");
}
