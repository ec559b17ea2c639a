// P07: tension along the planar catenary.
// @h h_ten_equilibrium mode=real
// @h h_ten_ends mode=real
// @h h_ten_direction mode=real
// @h h_ten_max mode=real
// @h h_ten_average mode=real
// @h h_ten_points mode=fpu
#include <cmath>
#include "models/transmissionline/catenary.h"
#include "sx.h"
namespace {
struct In { double h, w, a, b; };
In Sym() {   // the ranges and the least catenary constant that Validate accepts
  In i = {sx_double("h", 500, 50000), sx_double("w", 0.02, 20), sx_double("a", 20, 1500), sx_double("b", -700, 700)};
  sx_assume(4 * i.h * i.h >= i.w * i.w * (i.a * i.a + i.b * i.b));
  return i;
}
void Set(Catenary2d* c, const In& i) { c->set_tension_horizontal(i.h); c->set_weight_unit(i.w); c->set_spacing_endpoints(Vector2d(i.a, i.b)); }
const AxisDirectionType kPos = AxisDirectionType::kPositive, kNeg = AxisDirectionType::kNegative;
}
HARNESS h_ten_equilibrium() {   // a piece of cable between two positions carries exactly its own weight
  In i = Sym(); double f = sx_double("f", 0, 1), g = sx_double("g", 0, 1); Catenary2d c; Set(&c, i);
  Vector2d t = c.Tension(f, kPos), u = c.Tension(g, kPos);
  sx_close(t.x(), i.h, 1e-6, 1e-3, "horizontal component is the horizontal tension");
  sx_close(t.y() - u.y(), i.w * c.Length() * (f - g), 1e-6, 1e-2, "vertical components differ by the weight between them");
  sx_close(c.Tension(f) * c.Tension(f), t.x() * t.x() + t.y() * t.y(), 1e-6, 1e-2, "tension is the magnitude of its components");
  sx_reach("end");
}
HARNESS h_ten_ends() {
  In i = Sym(); Catenary2d c; Set(&c, i); double f = sx_double("f", 0, 1);
  Vector2d l = c.Tension(f, kNeg), r = c.Tension(f, kPos), v = c.TangentVector(f, kPos);
  sx_close(v.x() * v.x() + v.y() * v.y(), 1, 1e-6, 1e-6, "tangent vector has unit length");
  sx_close(v.x() * r.y(), v.y() * r.x(), 1e-6, 1e-3, "tension acts along the tangent");
  sx_close(l.x() + r.x(), 0, 1e-9, 1e-3, "the two sides of a cut balance"); sx_close(l.y() + r.y(), 0, 1e-9, 1e-3, "the two sides of a cut balance vertically");
  sx_reach("end");
}
HARNESS h_ten_direction() {   // seen from the other end the curve is its mirror image
  In i = Sym(); double f = sx_double("f", 0, 1); Catenary2d c, m; Set(&c, i);
  In j = i; j.b = -i.b; Set(&m, j);
  sx_close(m.Length(), c.Length(), 1e-6, 1e-3, "length of the mirror image");
  Vector2d t = c.Tension(f, kPos), u = m.Tension(1 - f, kNeg);
  sx_close(u.x(), -t.x(), 1e-6, 1e-3, "horizontal component of the mirror image");
  sx_close(u.y(), t.y(), 1e-6, 1e-2, "vertical component of the mirror image");
  sx_reach("end");
}
HARNESS h_ten_max() {
  In i = Sym(); Catenary2d c; Set(&c, i);
  double m = c.TensionMax();
  Vector2d l = c.Tension(0, kPos), r = c.Tension(1, kPos);
  if (i.b > 0) sx_close(m * m, i.h * i.h + r.y() * r.y(), 1e-6, 1, "greatest tension is at the higher right end");
  else sx_close(m * m, i.h * i.h + l.y() * l.y(), 1e-6, 1, "greatest tension is at the higher left end");
  sx_reach("end");
}
HARNESS h_ten_average() {
  In i = Sym(); Catenary2d c; Set(&c, i);
  double k = i.h / i.w, x0 = c.Coordinate(0).x, x1 = c.Coordinate(1).x;
  // mean of the tension over the curve length: (1/L) * integral of h cosh(x/k) ds, ds = cosh(x/k) dx
  double integral = i.h * ((x1 - x0) / 2 + k * (std::sinh(2 * x1 / k) - std::sinh(2 * x0 / k)) / 4);
  sx_close(c.TensionAverage(0) * c.Length(), integral, 1e-6, 1, "average tension over the curve length");
  sx_reach("end");
}
HARNESS h_ten_points() {
  In i = Sym(); Catenary2d c; Set(&c, i);
  int n = 1 + sx_choose("n", 4);
  double sum = 0; const double dn = n;
  for (int k = 0; k <= n; k++) sum = sum + c.Tension(k / dn);
  sx_same(c.TensionAverage(n), sum / (dn + 1), "average over evenly spaced points");
  sx_same(c.TensionAverage(-1), -999999, "no average for a negative number of points");
  double m = c.TensionMax();
  sx_same(m, i.b <= 0 ? c.Tension(0) : c.Tension(1), "greatest tension is that at the higher end");
  sx_reach("end");
}
