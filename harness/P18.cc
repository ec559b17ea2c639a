// P18: unloading and reloading a catenary keeps the cable. The strainer is decided over all lengths, loads,
// temperatures and moduli of a two component cable with straight curves; the iterative reload, and the line
// cable loaders around it, are followed from narrow ranges of inputs over many shapes of span.
// @h h_strain mode=real wall=200
// @h h_strain_one mode=real wall=120
// @h h_strain_back mode=real wall=200 t_wall=900
// @h h_strain_stretched mode=real wall=120
// @h h_strain_longer mode=real wall=300
// @h h_unload mode=fpu guided=1 wall=120 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_unload_flat mode=fpu wall=120
// @h h_reload_same mode=fpu guided=1 wall=150 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_reload_round mode=fpu guided=1 wall=120 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_reload_keeps mode=fpu guided=1 wall=200 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_reload_order mode=fpu guided=1 wall=150 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_reload_linear mode=fpu guided=1 wall=150 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_line_same mode=fpu guided=1 wall=150 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_line_reload mode=fpu guided=1 wall=200 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_line_stretch mode=fpu guided=1 wall=150 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_line_components mode=fpu guided=1 wall=220 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_line_unload mode=fpu guided=1 wall=200 timeout=200 dag=6000 search=50 samples=3 steps=100000000
// @h h_line_unload_order mode=fpu guided=1 wall=150 timeout=200 dag=6000 search=50 samples=3 steps=100000000
#include <cmath>
#include "pair.h"
#include "models/sagtension/cable_strainer.h"
#include "models/sagtension/catenary_cable_reloader.h"
#include "models/sagtension/catenary_cable_unloader.h"
#include "models/sagtension/line_cable_reloader.h"
#include "models/sagtension/line_cable_unloader.h"
#include "models/transmissionline/cable_unit_load_solver.h"
namespace {
double Near(const char* n, double v) { return sx_double(n, v, v + v * 1e-12); }
double Stretched(double l, double e) { return e < 0 ? l / (1 + std::fabs(e)) : l * (1 + e); }
void Set(CableElongationModel* m, const SagTensionCable* c, double t, double load = 0, double ts = 60, PT type = PT::kLoadStrain, PT stype = PT::kLoadStrain) {
  CableState s; s.temperature = t; s.type_polynomial = type; CableStretchState x; x.temperature = ts; x.load = load; x.type_polynomial = stype;
  m->set_cable(c); m->set_state(s); m->set_state_stretch(x);
}
CableStrainer Strainer(double l, const CableElongationModel* a, double la, const CableElongationModel* b, double lb) {
  CableStrainer s; s.set_length_start(l); s.set_load_start(la); s.set_load_finish(lb); s.set_model_start(a); s.set_model_finish(b); return s;
}
Catenary3d Cat(double x, double z, double h, double w, double t = 0) { Catenary3d c; c.set_spacing_endpoints(Vector3d(x, 0, z)); c.set_tension_horizontal(h); c.set_weight_unit(Vector3d(0, t, w)); return c; }
struct Drake {
  Cable base = fix::Conductor(); SagTensionCable cable; CableElongationModel m[3];
  Drake() { cable.set_cable_base(&base); }
};
struct Span : Drake {   // a catenary of one of several shapes at one of several states
  Catenary3d c; double t; Vector3d w;
  Span(bool few = false) {
    static const double kX[4] = {1500, 300, 900, 2500}, kZ[4] = {0, 250, -120, 0}, kH[4] = {4000, 2500, 6500, 9000};
    int i = sx_choose("span", few ? 2 : 4), warm = sx_choose("warm", 2), blown = sx_choose("blown", 2);
    c = Cat(kX[i], kZ[i], Near("h", kH[i]), blown ? 2.2 : 1.094, blown ? 0.9 : 0); t = warm ? 120 : 20; Set(&m[0], &cable, t); w = c.weight_unit();
  }
  CatenaryCableReloader Reloader(int i, const Vector3d* v) { CatenaryCableReloader r; r.set_catenary(&c); r.set_model_reference(&m[0]); r.set_model_reloaded(&m[i]); r.set_weight_unit_reloaded(v); return r; }
};
}
HARNESS h_strain() {   // the strainer adds the difference of strain
  Pair k(true, true, true); CableElongationModel m[2]; Set(&m[0], &k.cable, sx_double("t0", -20, 200)); Set(&m[1], &k.cable, sx_double("t1", -20, 200));
  double l = sx_double("l", 100, 3000), la = sx_double("la", 0, 10000), lb = sx_double("lb", 0, 10000);
  double e = m[1].Strain(CT::kCombined, lb) - m[0].Strain(CT::kCombined, la);
  sx_close(Strainer(l, &m[0], la, &m[1], lb).LengthFinish(), Stretched(l, e), 1e-12, 0, "length is strained by the difference");
  sx_reach("end");
}
HARNESS h_strain_one() {   // one component: thermal and elastic elongation in closed form
  int i = sx_choose("which", 2); Pair k(i == 0, i == 1); CableElongationModel m[2]; double t0 = sx_double("t0", -20, 200), t1 = sx_double("t1", -20, 200); Set(&m[0], &k.cable, t0); Set(&m[1], &k.cable, t1);
  double l = sx_double("l", 100, 3000), la = sx_double("la", 10, 10000), lb = sx_double("lb", 10, 10000), e = k.al[i] * (t1 - t0) + (lb - la) / k.a[i];
  sx_close(Strainer(l, &m[0], la, &m[1], lb).LengthFinish(), Stretched(l, e), 1e-7, 0, "thermal and elastic elongation");
  sx_reach("end");
}
HARNESS h_strain_back() {   // there and back again
  Pair k(true, true, true); CableElongationModel m[2]; Set(&m[0], &k.cable, sx_double("t0", -20, 200), 0); Set(&m[1], &k.cable, 100, sx_choose("stretched", 2) ? 8000 : 0);
  double l = sx_double("l", 100, 3000), la = sx_double("la", 0, 10000), lb = sx_double("lb", 0, 10000);
  double f = Strainer(l, &m[0], la, &m[1], lb).LengthFinish();
  sx_close(Strainer(f, &m[1], lb, &m[0], la).LengthFinish(), l, 1e-12, 0, "straining back gives the start length");
  sx_close(Strainer(l, &m[0], la, &m[0], la).LengthFinish(), l, 0, 0, "no change of state keeps the length");
  sx_reach("end");
}
HARNESS h_strain_stretched() {   // permanent elongation of one component stays after unloading
  int i = sx_choose("which", 2); Pair k(i == 0, i == 1, true); CableElongationModel m[2]; double t = sx_double("t", -20, 200), s = sx_double("s", 1000, 9000); Set(&m[0], &k.cable, t); Set(&m[1], &k.cable, t, s, t);
  double l = sx_double("l", 100, 3000), lb = sx_double("lb", 1, 900), e = (s / k.a[i] - (s - lb) / k.et[i]) - lb / k.a[i];
  sx_close(Strainer(l, &m[0], lb, &m[1], lb).LengthFinish(), Stretched(l, e), 1e-7, 0, "permanent elongation");
  sx_reach("end");
}
HARNESS h_strain_longer() {   // more load or heat never shortens
  Pair k(true, true, true); CableElongationModel m[3]; double t = sx_double("t", -20, 200), s = sx_choose("stretched", 2) ? 8000 : 0; Set(&m[0], &k.cable, 60); Set(&m[1], &k.cable, t, s); Set(&m[2], &k.cable, t + sx_double("dt", 0, 50), s);
  double l = sx_double("l", 100, 3000), lb = sx_double("lb", 200, 10000), more = sx_double("more", 0, 5000);
  double f = Strainer(l, &m[0], 4000, &m[1], lb).LengthFinish();
  sx_assert(Strainer(l, &m[0], 4000, &m[1], lb + more).LengthFinish() >= f - l * 1e-7, "more load is longer");
  sx_assert(Strainer(l, &m[0], 4000, &m[2], lb).LengthFinish() >= f - l * 1e-7, "hotter is longer");
  sx_reach("end");
}
HARNESS h_unload() {   // the strained length of the catenary at its average tension
  Span k; Set(&k.m[1], &k.cable, sx_choose("cold", 2) ? 0 : 60, sx_choose("stretched", 2) ? 7000 : 0);
  CatenaryCableUnloader u; u.set_catenary(&k.c); u.set_model_reference(&k.m[0]); u.set_model_unloaded(&k.m[1]);
  double e = k.m[1].Strain(CT::kCombined, 0) - k.m[0].Strain(CT::kCombined, k.c.TensionAverage());
  sx_assert(u.Validate(false, nullptr), "valid");
  sx_close(u.LengthUnloaded(), Stretched(k.c.Length(), e), 1e-12, 0, "unloaded length");
  sx_assert(u.LengthUnloaded() < k.c.Length() * 1.004, "unloading does not lengthen beyond heat and stretch");
  sx_reach("end");
}
HARNESS h_unload_flat() {   // over all tensions and weights of a level span, any moduli
  Pair k(true, false); CableElongationModel m[2]; double t0 = sx_double("t0", -20, 200), t1 = sx_double("t1", -20, 200); Set(&m[0], &k.cable, t0); Set(&m[1], &k.cable, t1);
  Catenary3d c = Cat(sx_double("x", 100, 2000), 0, sx_double("h", 2000, 9000), sx_double("w", 0.5, 3)); CatenaryCableUnloader u; u.set_model_reference(&m[0]); u.set_model_unloaded(&m[1]); u.set_catenary(&c);
  double e = m[1].Strain(CT::kCombined, 0) - m[0].Strain(CT::kCombined, c.TensionAverage());
  sx_close(u.LengthUnloaded(), Stretched(c.Length(), e), 1e-12, 0, "unloaded length");
  sx_reach("end");
}
HARNESS h_reload_same() {
  Span k; double s = sx_choose("stretched", 2) ? 7000 : 0; Set(&k.m[0], &k.cable, k.t, s); Set(&k.m[1], &k.cable, k.t, s);
  CatenaryCableReloader r = k.Reloader(1, &k.w);
  sx_assert(r.Validate(false), "solved");
  sx_close(r.TensionHorizontal(), k.c.tension_horizontal(), 0, 0.1, "reloading at the same state gives the same tension");
  sx_close(r.CatenaryReloaded().Length(), k.c.Length(), 0, 0.002, "and the same length");
  sx_reach("end");
}
HARNESS h_reload_round() {   // a catenary constant that is a simple multiple of the span, which the search for the tension may meet exactly
  static const double kX[3] = {1000, 1200, 500}, kF[7] = {1, 1.25, 1.5, 1.75, 2, 3, 8}; Drake d; double x = kX[sx_choose("span", 3)], w = 1.1, h = kF[sx_choose("constant", 7)] * Catenary3d(Cat(x, 0, 1, w)).ConstantMinimum(x) * w;
  Catenary3d c = Cat(x, 0, h, w); Vector3d v = c.weight_unit(); Set(&d.m[0], &d.cable, Near("t", 70)); CatenaryCableReloader r; r.set_catenary(&c); r.set_model_reference(&d.m[0]); r.set_model_reloaded(&d.m[0]); r.set_weight_unit_reloaded(&v);
  sx_close(r.TensionHorizontal(), h, 0, 0.05, "reloading as it was gives the tension it had");
  sx_reach("end");
}
HARNESS h_reload_keeps() {
  Span k; int to = sx_choose("to", 3); Vector3d w = to == 0 ? Vector3d(0, 0, 3) : to == 1 ? Vector3d(0, 1.5, 1.094) : Vector3d(0, 0, 1.094); Set(&k.m[1], &k.cable, to == 0 ? 0 : to == 1 ? 60 : 200, sx_choose("stretched", 2) ? 9000 : 0, 0);
  CatenaryCableReloader r = k.Reloader(1, &w); sx_assert(r.Validate(false), "solved");
  Catenary3d q = r.CatenaryReloaded();
  sx_same(q.tension_horizontal(), r.TensionHorizontal(), "tension of the reloaded catenary");
  sx_same(q.spacing_endpoints().x(), k.c.spacing_endpoints().x(), "spacing x"); sx_same(q.spacing_endpoints().y(), 0, "spacing y"); sx_same(q.spacing_endpoints().z(), k.c.spacing_endpoints().z(), "spacing z");
  sx_same(q.weight_unit().x(), 0, "weight x"); sx_same(q.weight_unit().y(), w.y(), "weight y"); sx_same(q.weight_unit().z(), w.z(), "weight z");
  double e = k.m[1].Strain(CT::kCombined, q.TensionAverage()) - k.m[0].Strain(CT::kCombined, k.c.TensionAverage());
  sx_close(q.Length(), Stretched(k.c.Length(), e), 0, 0.003, "the catenary is as long as the strained cable");
  CatenaryCableUnloader u; u.set_catenary(&k.c); u.set_model_reference(&k.m[0]); u.set_model_unloaded(&k.m[0]); sx_same(r.LengthUnloaded(), u.LengthUnloaded(), "unloaded length");
  u.set_catenary(&q); u.set_model_reference(&k.m[1]); sx_close(u.LengthUnloaded(), r.LengthUnloaded(), 2e-5, 0.003, "unloading the reloaded catenary gives the same cable");
  sx_reach("end");
}
HARNESS h_reload_order() {   // hotter is slacker, heavier is tighter, stretched is slacker
  Span k(true); int what = sx_choose("what", 3); double s = what == 2 ? 11000 : 0; Set(&k.m[1], &k.cable, 50); Set(&k.m[2], &k.cable, what == 0 ? 110 : 50, s, 50); Vector3d w(0, 0.3, 1.5), v(0, what == 1 ? 0.8 : 0.3, what == 1 ? 1.8 : 1.5);
  double a = k.Reloader(1, &w).TensionHorizontal(), b = k.Reloader(2, &v).TensionHorizontal();
  sx_assert(a > 0 && b > 0, "solved");
  if (what == 0) sx_assert(b < a, "hotter is slacker");
  if (what == 1) sx_assert(b > a, "heavier is tighter");
  if (what == 2) sx_assert(b < a + 0.05, "stretched is not tighter");
  sx_reach("end");
}
HARNESS h_reload_linear() {   // against elongation in closed form
  int i = sx_choose("which", 2); Pair k(i == 0, i == 1, true); CableElongationModel m[2]; double t0 = Near("t0", 40), t1 = Near("t1", sx_choose("hot", 2) ? 150 : 5); Set(&m[0], &k.cable, t0); Set(&m[1], &k.cable, t1);
  double h = Near("h", 5000); int shape = sx_choose("shape", 3); Catenary3d c = Cat(shape == 0 ? 1000 : 1800, shape == 2 ? 400 : 0, h, 1.2); Vector3d w(0, sx_choose("wind", 2) ? 0.8 : 0, 1.7); CatenaryCableReloader r; r.set_catenary(&c); r.set_model_reference(&m[0]); r.set_model_reloaded(&m[1]); r.set_weight_unit_reloaded(&w);
  sx_assert(r.TensionHorizontal() > 0, "solved"); Catenary3d q = r.CatenaryReloaded();
  double e = k.al[i] * (t1 - t0) + (q.TensionAverage() - c.TensionAverage()) / k.a[i];
  sx_close(q.Length(), Stretched(c.Length(), e), 0, 0.003, "the catenary is as long as the strained cable");
  sx_reach("end");
}
namespace {
const CableConditionType kCond[3] = {CableConditionType::kInitial, CableConditionType::kCreep, CableConditionType::kLoad};
struct Line : fix::Strung {
  int shape; CableConditionType cond; SagTensionCable st; CableElongationModel m[2]; CableStretchState kept;
  Line() {
    int i = sx_choose("condition", 3); shape = sx_choose("shape", 3); cond = kCond[i]; static const double kX[3] = {1200, 600, 1500}, kZ[3] = {0, 120, -200};
    creep = fix::Weather(shape == 0 ? 60 : 40); constraint = shape == 1 ? fix::Weather(30, 0.25 / 12, 57.3, 4) : fix::Weather(70);
    CableConstraint q; q.case_weather = &constraint; q.condition = cond; q.type_limit = shape == 0 ? CableConstraint::LimitType::kHorizontalTension : shape == 1 ? CableConstraint::LimitType::kSupportTension : CableConstraint::LimitType::kCatenaryConstant;
    q.limit = Near("limit", shape == 0 ? 5500 : shape == 1 ? 6000 : 4500); lc.set_constraint(q); lc.set_spacing_attachments_ruling_span(Vector3d(kX[shape], 0, kZ[shape])); st.set_cable_base(&cable);
  }
  // the model of the cable at temperature t in a condition, with the stretch found by the loader
  void Model(CableElongationModel* m, double t, CableConditionType c, const LineCableLoaderBase& l) {
    Set(m, &st, t); if (c == CableConditionType::kCreep) m->set_state_stretch(l.StretchStateCreep()); if (c == CableConditionType::kLoad) m->set_state_stretch(l.StretchStateLoad());
  }
  Vector3d Load(const WeatherLoadCase& w) { CableUnitLoadSolver u; u.set_diameter_cable(&cable.diameter); u.set_weight_unit_cable(&cable.weight_unit); return u.UnitCableLoad(w); }
};
}
HARNESS h_line_same() {
  Line k; LineCableReloader r; r.set_line_cable(&k.lc); r.set_weathercase_reloaded(&k.constraint); r.set_condition_reloaded(k.cond);
  sx_assert(r.Validate(false), "solved");
  sx_close(r.TensionHorizontal(), k.lc.CatenaryRulingSpan().tension_horizontal(), 0, 0.5, "reloading to the constraint gives the constrained catenary");
  sx_reach("end");
}
HARNESS h_line_reload() {   // from the constraint's state to the given case in the given condition
  Line k; int to = sx_choose("to", 3), how = sx_choose("in", 3); WeatherLoadCase w = to == 0 ? fix::Weather(32, 0.5 / 12, 57.3, 4) : to == 1 ? fix::Weather(167) : fix::Weather(-10, 0, 0, 6);
  LineCableReloader r; r.set_line_cable(&k.lc); r.set_weathercase_reloaded(&w); r.set_condition_reloaded(kCond[how]);
  sx_assert(r.Validate(false), "solved"); sx_same(r.StateReloaded().temperature, w.temperature_cable, "temperature of the reloaded state"); sx_assert(r.StateReloaded().type_polynomial == PT::kLoadStrain, "curve of the reloaded state");
  k.Model(&k.m[0], k.constraint.temperature_cable, k.cond, r); k.Model(&k.m[1], w.temperature_cable, kCond[how], r); Catenary3d c = k.lc.CatenaryRulingSpan(), q = r.CatenaryReloaded();
  Vector3d v = k.Load(w); sx_close(q.weight_unit().y(), v.y(), 1e-12, 0, "transverse unit load"); sx_close(q.weight_unit().z(), v.z(), 1e-12, 0, "vertical unit load");
  sx_same(q.tension_horizontal(), r.TensionHorizontal(), "tension of the reloaded catenary"); sx_same(q.spacing_endpoints().x(), c.spacing_endpoints().x(), "spacing"); sx_same(q.spacing_endpoints().z(), c.spacing_endpoints().z(), "rise");
  double e = k.m[1].Strain(CT::kCombined, q.TensionAverage()) - k.m[0].Strain(CT::kCombined, c.TensionAverage());
  sx_close(q.Length(), Stretched(c.Length(), e), 0, 0.003, "the catenary is as long as the strained cable");
  sx_reach("end");
}
HARNESS h_line_stretch() {   // the stretch is the tension the cable has in the stretch case before it was stretched
  Line k; int which = sx_choose("creep or load", 2); LineCableReloader r; r.set_line_cable(&k.lc); r.set_weathercase_reloaded(&k.constraint); r.set_condition_reloaded(k.cond);
  CableStretchState s = which ? r.StretchStateLoad() : r.StretchStateCreep(); const WeatherLoadCase& w = which ? k.load : k.creep;
  sx_same(s.temperature, w.temperature_cable, "temperature of the stretch"); sx_assert(s.type_polynomial == (which ? PT::kLoadStrain : PT::kCreep), "curve of the stretch");
  k.Model(&k.m[0], k.constraint.temperature_cable, k.cond, r); Set(&k.m[1], &k.st, w.temperature_cable, 0, w.temperature_cable, s.type_polynomial, s.type_polynomial);
  Catenary3d c = k.lc.CatenaryRulingSpan(); Vector3d v = k.Load(w); CatenaryCableReloader q; q.set_catenary(&c); q.set_model_reference(&k.m[0]); q.set_model_reloaded(&k.m[1]); q.set_weight_unit_reloaded(&v);
  sx_close(s.load, q.CatenaryReloaded().TensionAverage(), 0, 0.5, "load of the stretch");
  sx_reach("end");
}
HARNESS h_line_components() {
  Line k; int to = sx_choose("to", 2), how = sx_choose("in", 3); WeatherLoadCase w = to ? fix::Weather(200) : fix::Weather(0, 0.25 / 12, 57.3, 4); LineCableReloader r; r.set_line_cable(&k.lc); r.set_weathercase_reloaded(&w); r.set_condition_reloaded(kCond[how]);
  Catenary3d q = r.CatenaryReloaded(); double a = q.TensionAverage(), h = q.tension_horizontal(), core = r.TensionAverageComponent(CT::kCore), shell = r.TensionAverageComponent(CT::kShell), all = r.TensionAverageComponent(CT::kCombined);
  sx_close(all, a, 0, 0.02, "the cable carries the average tension"); sx_close(core + shell, all, 1e-9, 1e-6, "the components carry it together");
  sx_close(r.TensionHorizontalComponent(CT::kCore), core * h / a, 1e-9, 1e-6, "horizontal tension of the core"); sx_close(r.TensionHorizontalComponent(CT::kShell), shell * h / a, 1e-9, 1e-6, "horizontal tension of the shell"); sx_close(r.TensionHorizontalComponent(CT::kCombined), h, 0, 0.02, "horizontal tension of the cable");
  k.Model(&k.m[1], w.temperature_cable, kCond[how], r); double x = k.m[1].Strain(CT::kCombined, a);
  sx_close(core, k.m[1].Load(CT::kCore, x), 1e-6, 0.05, "load of the core"); sx_close(shell, k.m[1].Load(CT::kShell, x), 1e-6, 0.05, "load of the shell");
  sx_reach("end");
}
HARNESS h_line_unload() {
  Line k; int how = sx_choose("in", 3), span = (k.shape + how) % 3; double t = span == 1 ? 10 : 90; Vector3d d = span == 0 ? k.lc.spacing_attachments_ruling_span() : span == 1 ? Vector3d(900, 0, 80) : Vector3d(1400, 0, -30);
  LineCableUnloader u; u.set_line_cable(&k.lc); u.set_condition_unloaded(kCond[how]); u.set_temperature_unloaded(t); u.set_spacing_attachments(d); sx_assert(u.Validate(false), "solved");
  k.Model(&k.m[0], k.constraint.temperature_cable, k.cond, u); k.Model(&k.m[1], t, kCond[how], u); Catenary3d c = k.lc.CatenaryRulingSpan(); Catenary3d q = Cat(d.x(), d.z(), c.tension_horizontal(), c.weight_unit().z(), c.weight_unit().y());
  double e = k.m[1].Strain(CT::kCombined, 0) - k.m[0].Strain(CT::kCombined, q.TensionAverage());
  sx_close(u.LengthUnloaded(), Stretched(q.Length(), e), 1e-9, 0, "unloaded length of the span");
  sx_reach("end");
}
HARNESS h_line_unload_order() {   // hotter is longer, by about the thermal expansion
  Line k; int how = sx_choose("in", 3); LineCableUnloader u; u.set_line_cable(&k.lc); u.set_condition_unloaded(kCond[how]); u.set_spacing_attachments(Vector3d(1000, 0, 50));
  u.set_temperature_unloaded(30); double cold = u.LengthUnloaded(); u.set_temperature_unloaded(80); double hot = u.LengthUnloaded();
  sx_assert(cold > 0 && hot > cold + cold * 50 * k.cable.component_core.coefficient_expansion_linear_thermal * 0.98 && hot < cold + cold * 50 * k.cable.component_shell.coefficient_expansion_linear_thermal * 1.02, "hotter is longer by the thermal expansion");
  sx_reach("end");
}
