// P13: where a cable hangs and what it pulls with. The equilibrium of one attachment is decided over all tensions,
// weights and angles in real arithmetic; the locator, which iterates over a line, is followed from narrow ranges of
// tension over headings, turns, elevations and winds.
// @h h_locate mode=fpu guided=1 wall=240 timeout=100 dag=4000 search=20 samples=2 steps=100000000
// @h h_locate_wind mode=fpu guided=1 wall=240 timeout=100 dag=4000 search=20 samples=2 steps=100000000
// @h h_points mode=fpu guided=1 wall=300 timeout=100 dag=4000 search=20 samples=2 steps=100000000
// @h h_heading mode=fpu guided=1 wall=240 timeout=100 dag=4000 search=20 samples=2 steps=100000000
// @h h_mirror mode=fpu guided=1 wall=240 timeout=100 dag=4000 search=20 samples=2 steps=100000000
// @h h_two mode=fpu guided=1 wall=300 timeout=100 dag=4000 search=20 samples=2 steps=100000000
// @h h_index mode=fpu guided=1 wall=60
// @h h_pull mode=real wall=120
// @h h_sum mode=real wall=120
// @h h_balance mode=real wall=120
// @h h_sides mode=real wall=120
// @h h_swing mode=fpu guided=1 wall=60
// @h h_solver mode=fpu guided=1 wall=120 timeout=200 dag=6000 search=50
#include <cmath>
#include "fix.h"
#include "sx.h"
#include "models/transmissionline/cable_attachment_equilibrium_solver.h"
#include "models/transmissionline/cable_position_locator.h"
namespace {
typedef Point3d<double> P3;
using AD = AxisDirectionType;
double Near(const char* n, double v) { return sx_double(n, v, v + v * 1e-12); }
struct V { double x, y, z; };
V Sub(const P3& a, const P3& b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
double Flat(const V& v) { return std::sqrt(v.x * v.x + v.y * v.y); }
V Along(const P3& a, const P3& b) { V v = Sub(b, a); double l = Flat(v); return {v.x / l, v.y / l, 0}; }
Catenary3d Cat(double x, double z, double h, const Vector3d& w, AD d) { Catenary3d c; c.set_spacing_endpoints(Vector3d(x, 0, z)); c.set_tension_horizontal(h); c.set_weight_unit(w); c.set_direction_transverse(d); return c; }
struct Job : fix::Route {
  CablePositionLocator l; Vector3d w; double h; AD wind; int n;
  Job(double heading, const std::vector<double>& turns, const std::vector<double>& el, double tension, double blow, AD d = AD::kPositive)
      : fix::Route(heading, turns, el), w(0, blow, 1.1), h(tension), wind(d), n(el.size()) {
    l.set_direction_wind(d); l.set_index_line_cable(0); l.set_tension_horizontal(h); l.set_transmission_line(&line); l.set_weight_unit(&w);
  }
  P3 Structure(int i) const { return line.PointXyzLineStructureAttachment(i, 1); }
  Catenary3d Span(const P3& a, const P3& b) const { V v = Sub(b, a); return Cat(Flat(v), v.z, h, w, wind); }
  // tension of span a-b at its end (0) or (1), pulling on the attachment, in the coordinates of the line
  V Tension(const P3& a, const P3& b, double at) const {
    V u = Along(a, b); Vector3d t = Span(a, b).Tension(at, at == 0 ? AD::kPositive : AD::kNegative);
    return {u.x * t.x() - u.y * t.y(), u.y * t.x() + u.x * t.y(), t.z()};
  }
  // the attachments hang from the structures and are in balance
  // an attachment that is pulled up when it hangs and down when it stands may not be located
  void Check(bool sure = true) {
    const std::vector<P3>* p = l.PointsCableAttachment(); if (!p && !sure) { sx_stop(); return; } sx_assert(p != nullptr && int(p->size()) == n, "a point for every connection"); if (!p || int(p->size()) != n) return;
    for (int i : {0, n - 1}) { P3 s = Structure(i); sx_close(p->at(i).x, s.x, 0, 1e-9, "dead end x"); sx_close(p->at(i).y, s.y, 0, 1e-9, "dead end y"); sx_close(p->at(i).z, s.z, 0, 1e-9, "dead end z"); }
    for (int i = 1; i < n - 1; i++) {
      V r = Sub(p->at(i), Structure(i)); sx_close(std::sqrt(r.x * r.x + r.y * r.y + r.z * r.z), susp.length, 1e-9, 0, "hardware keeps its length");
      V a = Along(p->at(i), p->at(i + 1)), b = Along(p->at(i), p->at(i - 1)), x = {a.x - b.x, a.y - b.y, 0}; double m = Flat(x); V side = {-x.y / m, x.x / m, 0};
      // the hardware swings in the plane that halves the angle of the line
      V sa = Along(Structure(i), Structure(i + 1)), sb = Along(Structure(i), Structure(i - 1)); V sx = {sa.x - sb.x, sa.y - sb.y, 0}; sx_close(r.x * sx.x + r.y * sx.y, 0, 0, 1e-6, "hardware swings across the line");
      V t0 = Tension(p->at(i - 1), p->at(i), 1), t1 = Tension(p->at(i), p->at(i + 1), 0); V t = {t0.x + t1.x, t0.y + t1.y, t0.z + t1.z};
      double across = t.x * side.x + t.y * side.y, out = Flat(r); if (r.x * side.x + r.y * side.y < 0) out = -out; double len = susp.length;
      sx_close(across * r.z / len, t.z * out / len, 0, 12, "hardware hangs in the direction of the pull");
      sx_assert(across * out + t.z * r.z > 0, "hardware is in tension");
    }
  }
};
const double kHeading[6] = {0, 60, 135, 200, 270, 345}, kTurn[5] = {0, 30, -30, 75, -75};
std::vector<double> Hills(int i) { if (i == 0) return {100, 100, 100}; if (i == 1) return {100, 140, 80}; return {120, 40, 130}; }
}
HARNESS h_locate() {   // no wind
  int hill = sx_choose("hill", 2); Job k(kHeading[sx_choose("heading", 6)], {kTurn[sx_choose("turn", 5)]}, Hills(hill), hill ? Near("h hill", 6000) : Near("h", 4000), 0);
  sx_assert(k.l.Validate(false, nullptr), "valid"); k.Check();
  sx_reach("end");
}
HARNESS h_locate_wind() {
  int hill = sx_choose("hill", 2); Job k(kHeading[sx_choose("heading", 6)], {kTurn[sx_choose("turn", 5)]}, Hills(hill), Near("h", 5000), hill ? 0.4 : 1.5, sx_choose("wind", 2) ? AD::kPositive : AD::kNegative);
  k.Check();
  sx_reach("end");
}
HARNESS h_two() {   // two suspensions, one of them may be pulled up
  int uplift = sx_choose("uplift", 2);
  Job k(kHeading[1 + 3 * sx_choose("heading", 2)], {kTurn[sx_choose("turn", 5)], kTurn[sx_choose("turn 2", 3)]}, uplift ? std::vector<double>{100, 10, 100, 110} : std::vector<double>{100, 110, 85, 105}, Near("h", 5000), sx_choose("wind", 2) ? 0.7 : 0);
  k.Check(!uplift);
  sx_reach("end");
}
HARNESS h_points() {   // points of a span are on its catenary, between its attachments
  int turn = sx_choose("turn", 3), hill = sx_choose("hill", 3); Job k(kHeading[2 * sx_choose("heading", 3)], {kTurn[turn]}, Hills(hill), Near("h", 5000), sx_choose("wind", 2) ? 0.8 : 0, turn == 1 ? AD::kNegative : AD::kPositive);
  const std::vector<P3>* p = k.l.PointsCableAttachment(); if (!p) { sx_assert(hill == 2, "located"); return; }
  int i = sx_choose("span", 2), num = hill == 1 ? 2 : 5; std::list<P3> q = k.l.PointsCable(i, num); sx_assert(int(q.size()) == num, "as many points as were asked for"); if (int(q.size()) != num) return;
  P3 a = p->at(i), b = p->at(i + 1), f = q.front(), e = q.back();
  sx_close(f.x, a.x, 0, 1e-6, "starts at the attachment x"); sx_close(f.y, a.y, 0, 1e-6, "starts at the attachment y"); sx_close(f.z, a.z, 0, 1e-6, "starts at the attachment z");
  sx_close(e.x, b.x, 0, 1e-6, "ends at the attachment x"); sx_close(e.y, b.y, 0, 1e-6, "ends at the attachment y"); sx_close(e.z, b.z, 0, 1e-6, "ends at the attachment z");
  Catenary3d c = k.Span(a, b); V u = Along(a, b); int j = 0;
  for (const P3& x : q) { P3 s = c.Coordinate(j++ / double(num - 1)); sx_close(x.x, a.x + u.x * s.x - u.y * s.y, 0, 1e-6, "on the catenary x"); sx_close(x.y, a.y + u.y * s.x + u.x * s.y, 0, 1e-6, "on the catenary y"); sx_close(x.z, a.z + s.z, 0, 1e-6, "on the catenary z"); }
  sx_reach("end");
}
HARNESS h_heading() {   // turning the whole line turns the cable with it
  double h = Near("h", 5000), turn = kTurn[sx_choose("turn", 5)], by = 15 * (1 + 2 * sx_choose("by", 12)), blow = sx_choose("wind", 2) ? 0.8 : 0; Job a(0, {turn}, Hills(1), h, blow), b(by, {turn}, Hills(1), h, blow);
  const std::vector<P3>*p = a.l.PointsCableAttachment(), *q = b.l.PointsCableAttachment(); if (!p || !q) { sx_assert(false, "located"); return; }
  // the frame of each line from its first structures
  V u = Along(a.Structure(0), a.Structure(1)), v = Along(b.Structure(0), b.Structure(1)); P3 s = a.Structure(0), t = b.Structure(0);
  for (int i = 0; i < 3; i++) {
    V d = Sub(p->at(i), s), e = Sub(q->at(i), t);
    sx_close(d.x * u.x + d.y * u.y, e.x * v.x + e.y * v.y, 0, 0.01, "along the line"); sx_close(d.y * u.x - d.x * u.y, e.y * v.x - e.x * v.y, 0, 0.01, "across the line"); sx_close(d.z, e.z, 0, 0.01, "height");
  }
  sx_reach("end");
}
HARNESS h_mirror() {   // the opposite turn with the opposite wind is the mirror image
  int hill = sx_choose("hill", 3); double h = Near("h", 5000), turn = 15 * (1 + sx_choose("turn", 5)), by = kHeading[sx_choose("heading", 3)], blow = sx_choose("wind", 2) ? 0.8 : 0; Job a(by, {turn}, Hills(hill), h, blow), b(by, {-turn}, Hills(hill), h, blow, AD::kNegative);
  const std::vector<P3>*p = a.l.PointsCableAttachment(), *q = b.l.PointsCableAttachment(); if (!p || !q) { sx_assert(hill == 2 && !p == !q, "located"); return; }
  V u = Along(a.Structure(0), a.Structure(1)); P3 s = a.Structure(0);
  for (int i = 0; i < 3; i++) {
    V d = Sub(p->at(i), s), e = Sub(q->at(i), s);
    sx_close(d.x * u.x + d.y * u.y, e.x * u.x + e.y * u.y, 0, 0.05, "along the line"); sx_close(d.y * u.x - d.x * u.y, -(e.y * u.x - e.x * u.y), 0, 0.05, "across the line"); sx_close(d.z, e.z, 0, 0.05, "height");
  }
  sx_reach("end");
}
HARNESS h_swing() {   // towards the inside of the line, and with the wind
  double turn = kTurn[sx_choose("turn", 5)]; int wind = sx_choose("wind", 3); if (turn != 0) wind = 0; Job k(kHeading[sx_choose("heading", 6)], {turn}, Hills(0), Near("h", 5000), wind ? 1 : 0, wind == 2 ? AD::kNegative : AD::kPositive);
  const std::vector<P3>* p = k.l.PointsCableAttachment(); if (!p) { sx_assert(false, "located"); return; }
  V r = Sub(p->at(1), k.Structure(1)), u = Along(k.Structure(0), k.Structure(1)); double left = r.y * u.x - r.x * u.y, ahead = k.Structure(2).y * u.x - k.Structure(2).x * u.y - (k.Structure(1).y * u.x - k.Structure(1).x * u.y);
  if (turn != 0) sx_assert(ahead * left > 0, "hardware leans to the inside of the turn");
  else if (wind == 0) sx_close(left, 0, 0, 0.01, "hardware hangs straight");
  else sx_assert(wind == 1 ? left > 1 : left < -1, "hardware leans with the wind");
  sx_assert(r.z < 0 || turn != 0, "hardware hangs down");
  sx_reach("end");
}
HARNESS h_index() {   // a span or line cable that is not there has no points
  Job k(30, {20}, Hills(0), Near("h", 5000), 0); sx_assert(k.l.PointsCable(-1, 3).empty() && k.l.PointsCable(2, 3).empty() && k.l.PointsCable(3, 3).empty() && k.l.PointsCable(99, 3).empty(), "no points for a span that is not there");
  sx_assert(k.l.PointsCable(0, 3).size() == 3 && k.l.PointsCable(1, 3).size() == 3, "points for the spans that are");
  int i = sx_choose("index", 3); k.l.set_index_line_cable(i == 0 ? -1 : i == 1 ? 1 : 7); sx_assert(k.l.PointsCable(0, 3).empty() && k.l.PointsCableAttachment() == nullptr && !k.l.Validate(false, nullptr), "no points for a line cable that is not there");
  sx_reach("end");
}
// ---- one attachment
namespace {
struct Attach {
  Catenary3d back, ahead; CableAttachmentEquilibriumSolver s; double h; AD dir, wind;
  Attach(double tension, double blow, AD side, AD d) : h(tension), dir(side), wind(d) {
    Vector3d w(0, blow, 1.1); back = Cat(1000, 0, h, w, wind); ahead = Cat(700, 0, h, w, wind);
    s.set_catenary_back(&back); s.set_catenary_ahead(&ahead); s.set_direction_catenaries(side);
  }
  // sum of both tensions in the coordinates of the attachment: x along, y to the left
  V Sum(double angle) const {
    const double r = (180 - angle) / 2 * (3.141592653589793 / 180) * (dir == AD::kPositive ? 1 : -1), c = std::cos(r), q = std::sin(r); Vector3d b = back.Tension(1, AD::kNegative), a = ahead.Tension(0, AD::kPositive);
    return {b.x() * c + b.y() * q + a.x() * c - a.y() * q, -b.x() * q + b.y() * c + a.x() * q + a.y() * c, b.z() + a.z()};
  }
};
double Angle() { return 15 * (2 + sx_choose("angle", 11)); }
AD Side() { return sx_choose("side", 2) ? AD::kPositive : AD::kNegative; }
}
HARNESS h_pull() {   // without wind: symmetric tensions, turned to the side of the catenaries
  double h = sx_double("h", 1000, 9000), a = Angle(); AD side = Side(); Attach k(h, 0, side, AD::kPositive); k.s.set_angle_catenaries(a); k.s.set_angle_hardware(180);
  V t = k.Sum(a); double want = 2 * h * std::cos(a / 2 * (3.141592653589793 / 180));
  sx_close(t.x, 0, 0, 1e-4, "nothing pulls along the line"); sx_close(side == AD::kPositive ? t.y : -t.y, want, 1e-8, 1e-4, "pull of the line angle");
  // a vertical hardware string carries as much as the cable pulls, straight up
  double m = std::sqrt(t.y * t.y + t.z * t.z), e = std::sqrt(t.y * t.y + (t.z + m) * (t.z + m));
  sx_close(k.s.TensionImbalance(), e, 1e-6, 1e-3, "imbalance of the vertical hardware");
  sx_reach("end");
}
HARNESS h_sum() {   // imbalance of hardware at any angle, with wind
  double h = sx_double("h", 1000, 9000), a = Angle(), g = 15 * (6 + sx_choose("hardware", 9)); AD side = Side(); Attach k(h, sx_choose("wind", 2) ? 1.1 : 0, side, Side()); k.s.set_angle_catenaries(a); k.s.set_angle_hardware(g);
  V t = k.Sum(a); double m = std::sqrt(t.y * t.y + t.z * t.z), r = g * (3.141592653589793 / 180), y = t.y - m * std::sin(r) * (side == AD::kPositive ? 1 : -1), z = t.z - m * std::cos(r), i = k.s.TensionImbalance();
  sx_close(i * i, y * y + z * z, 1e-6, 1, "imbalance is the cable pull less the hardware");
  sx_reach("end");
}
HARNESS h_balance() {   // at the equilibrium angle nothing is left over, and the angle is that of the pull
  double h = sx_double("h", 1000, 9000), a = Angle(); AD side = Side(); Attach k(h, 0, side, AD::kPositive); k.s.set_angle_catenaries(a); k.s.set_angle_hardware(180); double e = k.s.AngleEquilibrium();
  V t = k.Sum(a); double out = side == AD::kPositive ? t.y : -t.y, r = e * (3.141592653589793 / 180);
  sx_close(std::sin(r) * -t.z, -std::cos(r) * out, 0, 1e-2, "equilibrium is in the direction of the pull"); sx_assert(e >= 0 && e <= 360, "angle in degrees");
  k.s.set_angle_hardware(e); sx_close(k.s.TensionImbalance(), 0, 0, 0.02, "no imbalance at the equilibrium"); sx_same(k.s.AngleEquilibrium(), e, "the equilibrium does not depend on the hardware");
  sx_reach("end");
}
HARNESS h_sides() {   // the other side with the other wind is the mirror image
  double h = sx_double("h", 1000, 9000), a = Angle(), blow = sx_choose("wind", 2) ? 1.1 : 0, g = 15 * (6 + sx_choose("hardware", 9)); Attach k(h, blow, AD::kPositive, AD::kPositive), q(h, blow, AD::kNegative, AD::kNegative);
  for (Attach* s : {&k, &q}) { s->s.set_angle_catenaries(a); s->s.set_angle_hardware(g); }
  sx_close(k.s.TensionImbalance(), q.s.TensionImbalance(), 1e-9, 1e-6, "imbalance"); sx_close(k.s.AngleEquilibrium(), q.s.AngleEquilibrium(), 1e-9, 1e-6, "equilibrium angle");
  sx_reach("end");
}
HARNESS h_solver() {   // inclined spans of any wind, followed from narrow ranges
  static const double kA[4] = {180, 150, 95, 187}; double a = kA[sx_choose("angle", 4)]; int rise = sx_choose("rise", 3); AD side = Side(); Vector3d w(0, sx_choose("wind", 3) * 0.7, 1.1); AD d = Side();
  Attach k(5000, 0, side, d); k.h = Near("h", 5000); k.back = Cat(900, rise == 0 ? 0 : rise == 1 ? 90 : -60, k.h, w, d); k.ahead = Cat(1200, rise == 2 ? 70 : rise == 1 ? -40 : 0, k.h, w, d); k.s.set_catenary_back(&k.back); k.s.set_catenary_ahead(&k.ahead); k.s.set_angle_catenaries(a); k.s.set_angle_hardware(175);
  double e = k.s.AngleEquilibrium(); V t = k.Sum(a); double out = side == AD::kPositive ? t.y : -t.y, r = e * (3.141592653589793 / 180), m = std::sqrt(out * out + t.z * t.z);
  sx_close(std::sin(r) * m, out, 0, 0.05, "equilibrium is in the direction of the pull"); sx_close(std::cos(r) * m, t.z, 0, 0.05, "and not against it");
  k.s.set_angle_hardware(e); sx_close(k.s.TensionImbalance(), 0, 0, 0.1, "nothing is left over at the equilibrium");
  sx_reach("end");
}
