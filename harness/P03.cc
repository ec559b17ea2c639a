// P03: polynomials and linear interpolation.
// @h h_poly_value mode=real
// @h h_poly_edit mode=fpu
// @h h_poly_copy mode=fpu
// @h h_poly_solve mode=real unwind=12
// @h h_poly_root mode=fpu unwind=12
// @h h_linear mode=real
// @h h_round mode=real
#include <vector>
#include "models/base/helper.h"
#include "models/base/polynomial.h"
#include "sx.h"
namespace {
std::vector<double> Coeffs(const char* nm, int n) { std::vector<double> c; for (int i = 0; i < n; i++) c.push_back(sx_double(nm, -1e4, 1e4)); return c; }
double Value(const std::vector<double>& c, double x) { double y = 0; for (int i = (int)c.size() - 1; i >= 0; i--) y = y * x + c[i]; return y; }
double Deriv(const std::vector<double>& c, double x) { double y = 0; for (int i = (int)c.size() - 1; i >= 1; i--) y = y * x + i * c[i]; return y; }
}
HARNESS h_poly_value() {
  int n = 1 + sx_choose("order", 5);
  std::vector<double> c = Coeffs("c", n); double x = sx_double("x", -100, 100);
  Polynomial p(&c);
  sx_assert(p.OrderMax() == n - 1, "order is the number of coefficients less one");
  sx_close(p.Y(x), Value(c, x), 1e-9, 1e-3, "polynomial value");
  sx_close(p.Slope(x), Deriv(c, x), 1e-9, 1e-3, "slope is the derivative");
  Polynomial d = p.Derivative();
  sx_assert(d.OrderMax() == n - 2, "derivative order");
  sx_close(d.Y(x), Deriv(c, x), 1e-9, 1e-3, "derivative polynomial value");
  if (n > 2) {
    std::vector<double> c1; for (int i = 1; i < n; i++) c1.push_back(i * c[i]);
    sx_close(d.Slope(x), Deriv(c1, x), 1e-9, 1e-3, "second derivative");
  }
  sx_reach("end");
}
HARNESS h_poly_edit() {   // the same answers as a fresh object after any sequence of uses and replacements
  std::vector<double> a = Coeffs("a", 1 + sx_choose("order_a", 3)), b = Coeffs("b", 1 + sx_choose("order_b", 3)); double x = sx_double("x", -100, 100);
  Polynomial p(&a), q(&b);
  int use = sx_choose("use", 4);
  if (use == 1) p.Slope(x); else if (use == 2) p.Derivative(); else if (use == 3) p.Validate();
  p.set_coefficients(&b);
  sx_same(p.Y(x), q.Y(x), "value after replacing the coefficients");
  sx_same(p.Slope(x), q.Slope(x), "slope after replacing the coefficients");
  sx_assert(p.coefficients() == &b, "coefficients getter");
  sx_assert(p.Validate() == q.Validate(), "validation after replacing the coefficients");
  sx_reach("end");
}
HARNESS h_poly_copy() {   // copies are independent of the original
  std::vector<double> a = Coeffs("a", 3), b = Coeffs("b", 3); double x = sx_double("x", -100, 100);
  Polynomial ref(&a); double s = ref.Slope(x), y = ref.Y(x);
  Polynomial* p = new Polynomial(&a);
  int use = sx_choose("use", 2); if (use) p->Slope(x);
  int how = sx_choose("how", 2);
  Polynomial q;
  if (how == 0) { Polynomial r(*p); q = r; } else { q = *p; }
  if (sx_choose("then", 2)) p->set_coefficients(&b); else { p->Slope(x); delete p; p = nullptr; }
  sx_same(q.Slope(x), s, "copy keeps its slope");
  sx_same(q.Y(x), y, "copy keeps its value");
  if (p) { Polynomial rb(&b); sx_same(p->Slope(x), rb.Slope(x), "original after the copy"); }
  delete p;
  sx_reach("end");
}
HARNESS h_poly_solve() {   // a line is inverted exactly by one Newton step, from any guess
  std::vector<double> c = Coeffs("c", 2); double y = sx_double("y", -1e4, 1e4), g = sx_double("guess", -100, 100);
  c[1] = sx_choose("falling", 2) ? -sx_double("m", 1e-5, 1e3) : sx_double("m", 1e-5, 1e3);
  Polynomial p(&c);
  double x = p.X(y, 2, g);
  double r = p.Y(x) - y;
  sx_assert(-0.01 <= r && r <= 0.01, "line inverted within the requested precision");
  sx_reach("end");
}
HARNESS h_poly_root() {   // a guess that already solves the equation is returned
  std::vector<double> c = Coeffs("c", 1 + sx_choose("order", 4)); double y = sx_double("y", -1e4, 1e4), g = sx_double("guess", -100, 100);
  Polynomial p(&c);
  std::vector<double> s = c; s[0] = s[0] - y; Polynomial sp(&s);
  sx_assume(sp.Y(g) == 0);
  double d = p.Slope(g); sx_assume(d > 0 || d < 0);
  sx_assert(p.X(y, 3, g) == g, "an exact guess is returned unchanged");
  sx_reach("end");
}
HARNESS h_linear() {
  double x1 = sx_double("x1", -1e3, 1e3), y1 = sx_double("y1", -1e3, 1e3), x2 = sx_double("x2", -1e3, 1e3), y2 = sx_double("y2", -1e3, 1e3), t = sx_double("t", -3, 3);
  sx_assume(x2 - x1 > 1e-3 || x1 - x2 > 1e-3);
  sx_close(helper::LinearY(x1, y1, x2, y2, x1), y1, 1e-9, 1e-6, "first point");
  sx_close(helper::LinearY(x1, y1, x2, y2, x2), y2, 1e-9, 1e-6, "second point");
  sx_close(helper::LinearY(x1, y1, x2, y2, x1 + t * (x2 - x1)), y1 + t * (y2 - y1), 1e-9, 1e-5, "point in proportion");
  sx_close(helper::LinearY(x1, y1, x2, y2, x1 + t * (x2 - x1)), helper::LinearY(x2, y2, x1, y1, x1 + t * (x2 - x1)), 1e-6, 1e-4, "points may be given in either order");
  sx_reach("end");
}
HARNESS h_round() {
  int p = sx_choose("precision", 6); double x = sx_double("x", -1e6, 1e6);
  double s = 1; for (int i = 0; i < p; i++) s *= 10;
  double r = helper::Round(x, p);
  sx_assert((r - x) * s <= 0.5000001 && (x - r) * s <= 0.5000001, "rounded to within half a unit of the last place");
  sx_reach("end");
}
