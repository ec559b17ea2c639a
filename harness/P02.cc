// P02: vector algebra.
// @h h_vec_rotate mode=real timeout=8000
// @h h_vec_rotate3 mode=fpu
// @h h_vec_angle mode=real
// @h h_vec_angle_limit mode=fpu
// @h h_vec_scale mode=real
#include <cmath>
#include "models/base/vector.h"
#include "sx.h"
namespace {
const double kRad = 3.141592653589793 / 180;
const Plane2dType kPlane[] = {Plane2dType::kXy, Plane2dType::kXz, Plane2dType::kYx, Plane2dType::kYz, Plane2dType::kZx, Plane2dType::kZy, Plane2dType::kNull};
// every non-zero vector, as a sign pattern and positive magnitudes of the components
void Quadrant(double* x, double* y) {
  int sx = sx_choose("sign_x", 3) - 1, sy = sx_choose("sign_y", 3) - 1;
  double ax = sx_double("abs_x", 1e-6, 1e6), ay = sx_double("abs_y", 1e-6, 1e6);
  if (sx == 0 && sy == 0) sx_stop();
  *x = sx * ax; *y = sy * ay;
}
}
HARNESS h_vec_rotate() {
  double x, y, r = sx_double("r", -720, 720);
  Quadrant(&x, &y);
  sx_assume(r >= 0.00006 || r <= -0.00006);
  Vector2d v(x, y);
  v.Rotate(r);
  sx_close(v.x(), x * std::cos(r * kRad) - y * std::sin(r * kRad), 1e-9, 1e-6, "rotated x component");
  sx_close(v.y(), x * std::sin(r * kRad) + y * std::cos(r * kRad), 1e-9, 1e-6, "rotated y component");
  sx_close(v.x() * v.x() + v.y() * v.y(), x * x + y * y, 1e-9, 1e-6, "rotation keeps the magnitude");
  sx_reach("end");
}
HARNESS h_vec_rotate3() {
  double c[3] = {sx_double("x", -1e6, 1e6), sx_double("y", -1e6, 1e6), sx_double("z", -1e6, 1e6)}; double r = sx_double("r", -720, 720);
  static const int A[7] = {0, 0, 1, 1, 2, 2, -1}, B[7] = {1, 2, 0, 2, 0, 1, -1};
  int k = sx_choose("plane", 7);
  Vector3d v(c[0], c[1], c[2]);
  bool neg = sx_choose("neg", 2) == 1;
  double a = v.Angle(kPlane[k], neg);
  if (k == 6) {
    v.Rotate(kPlane[k], r);
    sx_same(v.x(), c[0], "null plane leaves x"); sx_same(v.y(), c[1], "null plane leaves y"); sx_same(v.z(), c[2], "null plane leaves z");
    return;
  }
  Vector2d p(c[A[k]], c[B[k]]);
  sx_same(a, p.Angle(neg), "planar angle is the angle of the two plane components");
  v.Rotate(kPlane[k], r); p.Rotate(r);
  double n[3] = {v.x(), v.y(), v.z()};
  sx_same(n[A[k]], p.x(), "plane horizontal component rotated");
  sx_same(n[B[k]], p.y(), "plane vertical component rotated");
  sx_same(n[3 - A[k] - B[k]], c[3 - A[k] - B[k]], "normal component kept");
  sx_reach("end");
}
HARNESS h_vec_angle() {
  double x, y; Quadrant(&x, &y);
  Vector2d v(x, y);
  double a = v.Angle();
  double n = v.Angle(true);
  double m = v.Magnitude();
  sx_assert(m > 0, "magnitude of a non-zero vector is positive");
  sx_close(m * m, x * x + y * y, 1e-9, 1e-9, "magnitude");
  sx_close(m * std::cos(a * kRad), x, 1e-6, 1e-6, "angle and magnitude give back x");
  sx_close(m * std::sin(a * kRad), y, 1e-6, 1e-6, "angle and magnitude give back y");
  sx_assert(0 <= a && a < 360, "angle not negative and less than 360");
  sx_assert(-180 < n && n <= 180, "signed angle within -180 and 180");
  if (a <= 180) sx_close(n, a, 1e-9, 1e-9, "signed angle up to 180"); else sx_close(n, a - 360, 1e-9, 1e-6, "signed angle above 180");
  sx_reach("end");
}
HARNESS h_vec_angle_limit() {
  // fourth quadrant with floating-point rounding; the other quadrants are bounded in exact arithmetic by h_vec_angle
  Vector2d v(sx_double("x", 1e-30, 1e6), -sx_double("neg_y", 1e-30, 1e6));
  sx_assert(v.Angle() < 360, "angle less than 360 degrees");
  sx_reach("end");
}
HARNESS h_vec_scale() {
  double x = sx_double("x", -1e6, 1e6), y = sx_double("y", -1e6, 1e6), z = sx_double("z", -1e6, 1e6), s = sx_double("s", -1e3, 1e3);
  Vector2d v(x, y); v.Scale(s);
  sx_close(v.x(), s * x, 1e-12, 0, "scaled x"); sx_close(v.y(), s * y, 1e-12, 0, "scaled y");
  Vector3d w(x, y, z); double m = w.Magnitude();
  sx_assert(m >= 0, "magnitude not negative");
  sx_close(m * m, x * x + y * y + z * z, 1e-9, 1e-9, "magnitude in space");
  w.Scale(s);
  sx_close(w.x(), s * x, 1e-12, 0, "scaled x in space"); sx_close(w.y(), s * y, 1e-12, 0, "scaled y in space"); sx_close(w.z(), s * z, 1e-12, 0, "scaled z in space");
  w.set_x(x); w.set_y(y); w.set_z(z); v.set_x(y); v.set_y(z);
  sx_same(w.x(), x, "x set"); sx_same(w.y(), y, "y set"); sx_same(w.z(), z, "z set"); sx_same(v.x(), y, "x set"); sx_same(v.y(), z, "y set");
  sx_reach("end");
}
