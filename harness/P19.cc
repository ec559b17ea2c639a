// P19: sagging a line cable. The constraints range over limit types, load cases, conditions and limits around
// the point at which they govern; the solvers inside are followed from narrow ranges of the limits.
// @h h_one mode=fpu guided=1 wall=260 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_two mode=fpu guided=1 wall=300 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_two_conditions mode=fpu guided=1 wall=360 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_three mode=fpu guided=1 wall=360 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_order mode=fpu guided=1 wall=300 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_again mode=fpu guided=1 wall=200 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_ignores_limit mode=fpu guided=1 wall=200 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_slack_constraint mode=fpu guided=1 wall=260 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_capacity mode=fpu guided=1 wall=200 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_geometry mode=fpu guided=1 wall=200 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_not mode=fpu guided=1 wall=100 timeout=200 dag=6000 search=50 samples=3 steps=100000000
#include <cmath>
#include "fix.h"
#include "sx.h"
#include "models/sagtension/line_cable_reloader.h"
#include "models/sagtension/line_cable_sagger.h"
namespace {
using LT = CableConstraint::LimitType;
const CableConditionType kCond[3] = {CableConditionType::kInitial, CableConditionType::kCreep, CableConditionType::kLoad};
const LT kType[5] = {LT::kHorizontalTension, LT::kCatenaryConstant, LT::kSupportTension, LT::kSag, LT::kLength};
const double kTol = 0.003;
double Near(const char* n, double v) { return sx_double(n, v, v + v * 1e-13); }
struct Job : fix::Strung {
  WeatherLoadCase w[3] = {fix::Weather(0, 0.5 / 12, 57.3, 8), fix::Weather(0), fix::Weather(60)};
  std::vector<CableConstraint> d; LineCableSagger g; int spans;
  // `s`: level, long or steep ruling span
  explicit Job(int s, int type = 0, int cond = 0) {
    static const double kX[3] = {1000, 1500, 700}, kZ[3] = {0, 60, 150}; lc.set_spacing_attachments_ruling_span(Vector3d(kX[s], 0, kZ[s]));
    CableConstraint q = lc.constraint(); q.type_limit = kType[type]; q.condition = kCond[cond]; q.limit = Limit(type, s, 6000, 1.094); lc.set_constraint(q);
  }
  // a limit of the type which is about the horizontal tension h
  static double Limit(int type, int s, double h, double w) {
    static const double kX[3] = {1000, 1500, 700}, kZ[3] = {0, 60, 150};
    Catenary3d c; c.set_spacing_endpoints(Vector3d(kX[s], 0, kZ[s])); c.set_weight_unit(Vector3d(0, 0, w)); c.set_tension_horizontal(h);
    return type == 0 ? h : type == 1 ? h / w : type == 2 ? h * 1.02 : type == 3 ? c.Sag() : c.Length();
  }
  void Add(int i, int cond, int type, double limit) { CableConstraint q; q.case_weather = &w[i]; q.condition = kCond[cond]; q.type_limit = kType[type]; q.limit = limit; d.push_back(q); }
  bool Sag() { g.set_constraints_design(&d); g.set_line_cable(&lc); return g.Validate(false, nullptr); }
  double Actual(int i) { return d[i].type_limit == LT::kHorizontalTension ? g.TensionHorizontalActual(i) : d[i].type_limit == LT::kCatenaryConstant ? g.CatenaryConstantActual(i) : g.TensionSupportActual(i); }
  // no constraint is exceeded, the controlling one is met
  void Check(bool reload = false) {
    int n = d.size(), k = g.IndexConstraintControlling(); sx_assert(0 <= k && k < n, "one of the constraints controls"); if (k < 0 || k >= n) return;
    for (int i = 0; i < n; i++) sx_assert(Actual(i) < d[i].limit * (1 + kTol), "no constraint is exceeded");
    sx_close(Actual(k), d[k].limit, kTol, 0, "the controlling constraint is met");
    // and by a reload of the sagged line cable
    for (int i = 0; reload && i < n; i++) {
      LineCableReloader r; r.set_line_cable(&lc); r.set_weathercase_reloaded(d[i].case_weather); r.set_condition_reloaded(d[i].condition); Catenary3d c = r.CatenaryReloaded();
      sx_close(g.TensionHorizontalActual(i), c.tension_horizontal(), 1e-9, 0, "actual horizontal tension"); sx_close(g.CatenaryConstantActual(i), c.Constant(), 1e-9, 0, "actual catenary constant"); sx_close(g.TensionSupportActual(i), c.TensionMax(), 1e-9, 0, "actual support tension");
    }
  }
};
}
HARNESS h_one() {   // a single constraint is met, whatever the limit of the line cable is given as
  int type = sx_choose("type of the line cable", 3), t = sx_choose("type", 3), cond = sx_choose("condition", 3), c = (t + cond) % 3; Job k((type + t) % 3, type, cond);
  k.Add(c, (c + type) % 3, t, Near("limit", t == 1 ? 4500 : c == 0 ? 9000 : 5000));
  sx_assert(k.Sag(), "sagged"); k.Check(); sx_assert(k.g.IndexConstraintControlling() == 0, "the only constraint controls");
  sx_same(k.g.LimitConstraintSaggedLineCable(), k.lc.constraint().limit, "limit of the line cable");
  sx_reach("end");
}
HARNESS h_two() {   // around the limit at which the other constraint takes over
  int s = sx_choose("span", 3); Job k(s); static const double kA[4] = {6000, 8000, 10000, 12000}; int order = sx_choose("order", 2); double a = Near("a", kA[sx_choose("a", 4)]), b = Near("b", 4500); int t = s == 1 ? 2 : 0;
  for (int i : {0, 1}) if (i == order) k.Add(0, 0, t, a); else k.Add(2, 0, 0, b);
  sx_assert(k.Sag(), "sagged"); k.Check();
  sx_reach("end");
}
HARNESS h_two_conditions() {
  int c = sx_choose("first", 3), e = sx_choose("second", 3); Job k((c + e) % 3, 0, sx_choose("condition", 3)); static const double kB[3] = {3500, 4500, 5500};
  k.Add(1, c, 0, Near("a", 5000)); k.Add(2, e, 1, Near("b", kB[(c + 2 * e) % 3]));
  sx_assert(k.Sag(), "sagged"); k.Check();
  sx_reach("end");
}
HARNESS h_three() {
  Job k(sx_choose("span", 3), 1, 1); static const double kL[3][3] = {{9000, 5500, 4200}, {7500, 6500, 4500}, {12000, 4500, 5000}}; const double* l = kL[sx_choose("limits", 3)]; int first = sx_choose("first", 3);
  for (int i = 0; i < 3; i++) { int j = (i + first) % 3; k.Add(j, j == 2 ? 1 : 0, j == 2 ? 1 : j * 2, j == 0 ? Near("limit", l[0]) : l[j]); }
  sx_assert(k.Sag(), "sagged"); k.Check(true);
  sx_reach("end");
}
HARNESS h_order() {   // listing the constraints in another order gives the same line cable
  int s = sx_choose("span", 3), which = s; static const double kL[3][3] = {{9000, 5500, 4200}, {7500, 6500, 4500}, {12000, 4500, 5000}}; const double* l = kL[which]; static const int kP[5][3] = {{0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; const int* p = kP[sx_choose("order", 5)]; double first = Near("limit", l[0]);
  Job a(s, 2, 0), b(s, 2, 0); static const int kId[3] = {0, 1, 2};
  for (int j : kId) a.Add(j, j == 2 ? 1 : 0, j == 2 ? 1 : j * 2, j == 0 ? first : l[j]);
  for (int i = 0; i < 3; i++) { int j = p[i]; b.Add(j, j == 2 ? 1 : 0, j == 2 ? 1 : j * 2, j == 0 ? first : l[j]); }
  sx_assert(a.Sag() && b.Sag(), "sagged"); int ka = a.g.IndexConstraintControlling(), kb = b.g.IndexConstraintControlling();
  sx_assert(0 <= ka && ka < 3 && 0 <= kb && kb < 3 && p[kb] == ka, "the same constraint controls"); sx_close(a.lc.constraint().limit, b.lc.constraint().limit, 1e-4, 0, "the same limit");
  for (int i = 0; i < 3; i++) sx_close(b.g.CapacityAllowable(i), a.g.CapacityAllowable(p[i]), 1e-4, 0, "the same capacity");
  sx_reach("end");
}
HARNESS h_again() {   // sagging a sagged line cable changes nothing
  int type = sx_choose("type of the line cable", 3), e = sx_choose("second", 3); Job k(type, type, (type + e) % 3); k.Add(0, 0, 0, Near("a", 8500)); k.Add(2, e, 0, 4500);
  sx_assert(k.Sag(), "sagged"); double l = k.lc.constraint().limit; int c = k.g.IndexConstraintControlling();
  LineCableSagger g; g.set_constraints_design(&k.d); g.set_line_cable(&k.lc); sx_close(g.LimitConstraintSaggedLineCable(), l, 1e-4, 0, "the same limit"); sx_assert(g.IndexConstraintControlling() == c, "the same constraint controls");
  sx_reach("end");
}
HARNESS h_ignores_limit() {   // the limit the line cable had before does not matter
  int t = sx_choose("type of the line cable", 5), s = t % 3, cond = t % 2; Job a(s, t, cond), b(s, t, cond); CableConstraint q = b.lc.constraint(); q.limit = Job::Limit(t, s, sx_choose("tight", 2) ? 9000 : 3500, 1.094); b.lc.set_constraint(q); double l = Near("a", 8500);
  for (Job* k : {&a, &b}) { k->Add(0, 0, 0, l); k->Add(2, 1, 0, 4500); }
  sx_assert(a.Sag() && b.Sag(), "sagged"); sx_close(a.lc.constraint().limit, b.lc.constraint().limit, 1e-4, 0, "the same limit"); sx_assert(a.g.IndexConstraintControlling() == b.g.IndexConstraintControlling(), "the same constraint controls");
  a.Check();
  sx_reach("end");
}
HARNESS h_slack_constraint() {   // a constraint that does not control may be relaxed or dropped
  int s = sx_choose("span", 3), how = sx_choose("how", 3); double l = Near("a", 5000); Job a(s, 0, 1), b(s, 0, 1);
  for (Job* k : {&a, &b}) { k->Add(1, 0, 0, 11000); k->Add(2, 0, 2, l); }
  if (how == 0) b.d[0].limit = 20000; if (how == 1) b.d.erase(b.d.begin()); if (how == 2) b.Add(0, 2, 2, 25000);
  sx_assert(a.Sag() && b.Sag(), "sagged"); sx_assert(a.g.IndexConstraintControlling() == 1 && b.g.IndexConstraintControlling() == (how == 1 ? 0 : 1), "the other constraint controls"); sx_close(a.lc.constraint().limit, b.lc.constraint().limit, 1e-9, 0, "the same limit");
  // and tightening the one that controls lowers the line cable
  Job c(s, 0, 1); c.Add(1, 0, 0, 11000); c.Add(2, 0, 2, 4500); sx_assert(c.Sag(), "sagged"); sx_assert(c.lc.constraint().limit < a.lc.constraint().limit, "a tighter constraint is a slacker cable");
  sx_reach("end");
}
HARNESS h_capacity() {   // the part of the limit that is used
  Job k(sx_choose("span", 3), 0, sx_choose("condition", 3)); for (int i = 0; i < 3; i++) k.Add((i + 2) % 3, i, i, i == 1 ? 5500 : i == 0 ? Near("limit", 5200) : 7000);
  sx_assert(k.Sag(), "sagged"); for (int i = 0; i < 3; i++) { sx_close(k.g.CapacityAllowable(i), k.Actual(i) / k.d[i].limit, 1e-12, 0, "capacity is the actual value over the limit"); sx_assert(k.g.CapacityAllowable(i) < 1 + kTol, "within its capacity"); }
  sx_close(k.g.CapacityAllowable(k.g.IndexConstraintControlling()), 1, kTol, 0, "the controlling constraint is used to the full");
  sx_reach("end");
}
HARNESS h_geometry() {   // only the limit of the line cable is changed, and it describes the sagged catenary
  int t = sx_choose("type of the line cable", 5), c3 = sx_choose("condition", 3), s = (t + c3) % 3; Job k(s, t, c3); LineCable was = k.lc; k.Add(0, 0, 0, Near("a", 8500)); k.Add(1, 1, 0, 6000);
  sx_assert(k.Sag(), "sagged"); CableConstraint q = k.lc.constraint(), o = was.constraint();
  sx_assert(q.case_weather == o.case_weather && q.condition == o.condition && q.type_limit == o.type_limit && k.lc.cable() == was.cable() && k.lc.connections()->size() == was.connections()->size() && k.lc.weathercase_stretch_creep() == was.weathercase_stretch_creep() && k.lc.weathercase_stretch_load() == was.weathercase_stretch_load(), "the rest of the line cable is kept");
  sx_same(k.lc.spacing_attachments_ruling_span().x(), was.spacing_attachments_ruling_span().x(), "ruling span"); sx_same(k.lc.spacing_attachments_ruling_span().z(), was.spacing_attachments_ruling_span().z(), "rise of the ruling span");
  // the governing constraint reloaded to the case of the line cable
  int c = k.g.IndexConstraintControlling(); LineCable design = was; design.set_constraint(k.d[c]); LineCableReloader r; r.set_line_cable(&design); r.set_weathercase_reloaded(o.case_weather); r.set_condition_reloaded(o.condition);
  sx_close(k.lc.CatenaryRulingSpan().tension_horizontal(), r.TensionHorizontal(), 1e-3, 0, "the line cable hangs as the governing constraint says");
  sx_reach("end");
}
HARNESS h_not() {   // a constraint that cannot be met leaves the line cable as it was
  Job k(sx_choose("span", 3)); int n = sx_choose("constraints", 2), at = sx_choose("at", n + 1); double l = k.lc.constraint().limit, low = Near("low", 10); for (int i = 0; i <= n; i++) if (i == at) k.Add(2, 0, sx_choose("type", 2) * 2, low); else k.Add(1, 0, 0, 5000);
  sx_assert(!k.Sag(), "cannot be sagged"); sx_same(k.lc.constraint().limit, l, "limit of the line cable"); sx_assert(k.g.IndexConstraintControlling() == -9999, "no controlling constraint"); sx_same(k.g.CapacityAllowable(0), -999999, "no capacity");
  sx_reach("end");
}
