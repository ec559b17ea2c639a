// P16: elongation of a cable component.
// Entries with linear curves leave every parameter of the component symbolic; entries with the curves of
// a Drake conductor leave strain, load, temperature and stretch symbolic.
// @h h_points mode=real
// @h h_load mode=real
// @h h_load_creep mode=real
// @h h_slope mode=real
// @h h_strain_of_load mode=real
// @h h_load_of_strain mode=real
// @h h_compressed mode=real
// @h h_monotone mode=real wall=120
// @h h_thermal mode=real
// @h h_permanent mode=real wall=120
// @h h_transfer mode=real wall=120
// @h h_transfer_back mode=real wall=120
// @h h_quartic_points mode=real
// @h h_quartic_load mode=real
// @h h_quartic_beyond mode=real
// @h h_quartic_below mode=real
// @h h_stretch_beyond mode=real
// @h h_drake_inverse mode=fpu guided=1 wall=120
// @h h_drake_transfer mode=fpu guided=1 wall=120
// @h h_shape mode=real
// @h h_invalid mode=fpu
#include "fix.h"
#include "models/sagtension/cable_component_elongation_model.h"
#include "sx.h"
namespace {
using PT = SagTensionCableComponent::PolynomialType;
enum { kCreep, kLoad };
// a component whose curves are the straight lines  load = scale_y * (b + a * strain / scale_x)
struct Line {
  CableComponent c; SagTensionCableComponent k; CableState st; CableStretchState sx; CableComponentElongationModel m;
  double a[2], b[2], limit[2], sc, sy, et, ec, alpha, ref; int type;
  explicit Line(int t) : type(t) {
    sc = sx_choose("percent", 2) ? 0.01 : 1; sy = sx_choose("stress", 2) ? 0.5 : 1;
    const double unit = sc / sy;   // polynomial units per unit of elastic area
    a[kCreep] = sx_double("a creep", 200000, 900000) * unit; a[kLoad] = sx_double("a load", 1000000, 1900000) * unit;
    b[kCreep] = sx_double("b creep", -50, 0); b[kLoad] = sx_double("b load", -50, 0);
    limit[kCreep] = sx_double("limit creep", 3000, 6000); limit[kLoad] = sx_double("limit load", 7000, 9000);
    et = sx_double("et", 2000000, 9000000); ec = sx_double("ec", 1000, 500000);
    alpha = sx_double("alpha", 0, 0.00003); ref = sx_double("ref", 0, 100);
    Build();
  }
  void Build() {
    c.coefficients_polynomial_creep = {b[kCreep], a[kCreep], 0, 0, 0}; c.coefficients_polynomial_loadstrain = {b[kLoad], a[kLoad], 0, 0, 0};
    c.load_limit_polynomial_creep = limit[kCreep]; c.load_limit_polynomial_loadstrain = limit[kLoad];
    c.modulus_tension_elastic_area = et; c.modulus_compression_elastic_area = ec; c.capacity_heat = 1; c.coefficient_expansion_linear_thermal = alpha;
    c.scale_polynomial_x = sc; c.scale_polynomial_y = sy;
    k.set_component_base(&c); m.set_component_cable(&k); m.set_temperature_reference(&ref); m.set_state(&st); m.set_state_stretch(&sx);
    Set(60, 60, 0, type);
  }
  void Set(double t, double ts, double load, int stype) {
    st.temperature = t; st.type_polynomial = type == kCreep ? PT::kCreep : PT::kLoadStrain;
    sx.temperature = ts; sx.load = load; sx.type_polynomial = stype == kCreep ? PT::kCreep : PT::kLoadStrain; m.set_state_stretch(&sx);
  }
  double Thermal() const { return alpha * (st.temperature - ref); }
  double Curve(int t, double load) const { return (load / sy - b[t]) / a[t] * sc; }            // strain on the line
  double Modulus(int t) const { return a[t] * sy / sc; }
  double Beyond(int t) const { double e = Modulus(t); return e < 100000 ? 100000 : e; }
  double Strain(double load, double stretch) const {   // stretch is on this model's curve and within its limit
    double x = Thermal();
    if (load > limit[type]) return x + Curve(type, limit[type]) + (load - limit[type]) / Beyond(type);
    if (load > stretch) return x + Curve(type, load);
    double free = Curve(type, stretch) - stretch / et;
    if (load >= 0) return x + free + load / et;
    return x + free + load / ec;
  }
};
double T(const char* n) { return sx_double(n, -50, 500); }
double Stretch(double top = 2900) { double s = sx_double("stretch", 0, top); return s; }
const double kTol = 1e-9;
}
HARNESS h_points() {
  Line k(sx_choose("type", 2)); double s = Stretch(); k.Set(T("t"), T("ts"), s, k.type);
  std::vector<Point2d<double>> p = k.m.PointsRegions();
  sx_assert(p.size() == 3, "three region boundaries");
  sx_close(k.m.StrainThermal(), k.Thermal(), kTol, kTol, "thermal strain is the coefficient times the temperature difference");
  sx_close(p[1].y, s, kTol, kTol, "the curve starts at the stretch load");
  sx_close(p[1].x, k.Thermal() + k.Curve(k.type, s), kTol, kTol, "the curve starts on the curve");
  sx_close(p[2].y, k.limit[k.type], kTol, kTol, "the curve ends at its limit");
  sx_close(p[2].x, k.Thermal() + k.Curve(k.type, k.limit[k.type]), kTol, kTol, "the end is on the curve");
  sx_close(p[0].y, 0, kTol, kTol, "the unloaded point has no load");
  sx_close(p[0].x, k.Thermal() + k.Curve(k.type, s) - s / k.et, kTol, kTol, "unloading follows the tension modulus");
  sx_reach("end");
}
namespace {
void Loads(int type) {
  Line k(type); double s = Stretch(); k.Set(T("t"), T("ts"), s, type);
  int region = sx_choose("region", 4);
  double load = region == 0 ? sx_double("c", -1000, 0) : region == 1 ? s * sx_double("r", 0, 1) : region == 2 ? sx_double("p", 2900, 6999) : sx_double("e", 9000, 20000);
  if (region == 2) sx_assume(load < k.limit[type]);
  double x = k.Strain(load, s);
  sx_close(k.m.Load(x), load, kTol, 1e-4, "load of the strain that the stretch, the curve and the temperature give");
  sx_reach("end");
}
}
HARNESS h_load() { Loads(kLoad); }
HARNESS h_load_creep() { Loads(kCreep); }
HARNESS h_slope() {
  Line k(sx_choose("type", 2)); double s = Stretch(); k.Set(T("t"), T("ts"), s, k.type);
  int region = sx_choose("region", 4);
  double load = region == 0 ? sx_double("c", -1000, -1) : region == 1 ? s * sx_double("r", 0.01, 0.99) : region == 2 ? sx_double("p", 2910, 6900) : sx_double("e", 9001, 20000);
  if (region == 1) sx_assume(s > 1);
  if (region == 2) sx_assume(load < k.limit[k.type] - 1);
  double e = region == 0 ? k.ec : region == 1 ? k.et : region == 2 ? k.Modulus(k.type) : k.Beyond(k.type);
  sx_close(k.m.Slope(k.Strain(load, s)), e, kTol, kTol, "slope of the region");
  sx_reach("end");
}
HARNESS h_strain_of_load() {
  Line k(sx_choose("type", 2)); double s = Stretch(); k.Set(T("t"), T("ts"), s, k.type);
  double load = sx_double("load", -1000, 20000);
  sx_close(k.m.Strain(load), k.Strain(load, s), kTol, 1e-9, "strain of the load");
  sx_reach("end");
}
HARNESS h_load_of_strain() {   // the two questions undo each other
  Line k(sx_choose("type", 2)); double s = Stretch(); k.Set(T("t"), T("ts"), s, k.type);
  double load = sx_double("load", -1000, 20000);
  sx_close(k.m.Load(k.m.Strain(load)), load, kTol, 1e-4, "load of the strain of a load");
  sx_reach("end");
}
HARNESS h_compressed() {   // a component that takes no compression is slack
  Line k(sx_choose("type", 2)); k.c.modulus_compression_elastic_area = 0; double s = Stretch(); k.Set(T("t"), T("ts"), s, k.type);
  double x = k.Strain(0, s) - sx_double("d", 0, 0.05);
  sx_close(k.m.Load(x), 0, kTol, 1e-4, "no load while slack");
  sx_reach("end");
}
HARNESS h_monotone() {
  Line k(sx_choose("type", 2)); double s = Stretch(); k.Set(60, 60, s, k.type);
  double x = sx_double("x", -0.01, 0.05), d = sx_double("d", 0, 0.02);
  double y = k.m.Load(x), z = k.m.Load(x + d);
  sx_assert(z >= y, "load does not fall as strain grows");
  sx_assert(z - y <= d * 9000000 * 1.000001, "load does not jump");
  sx_reach("end");
}
HARNESS h_thermal() {
  Line k(sx_choose("type", 2)); double s = Stretch(), t = T("t"), u = T("u"), load = sx_double("load", 0, 20000);
  k.Set(t, T("ts"), s, k.type); double x = k.m.Strain(load);
  k.Set(u, T("tu"), s, k.type); double y = k.m.Strain(load);
  sx_close(y - x, k.alpha * (u - t), kTol, 1e-12, "temperature shifts strain");
  sx_reach("end");
}
HARNESS h_permanent() {   // stretching further never shortens the component
  Line k(sx_choose("type", 2)); double s = sx_double("s", 0, 2900), r = sx_double("more", 0, 2900), load = sx_double("load", 0, 20000), t = T("t");
  k.Set(t, 60, s, k.type); double x = k.m.Strain(load);
  k.Set(t, 60, s + r > 2900 ? 2900 : s + r, k.type); double y = k.m.Strain(load);
  sx_assert(y >= x - 1e-12, "stretch is permanent");
  if (load >= 2900) sx_close(x, y, kTol, 1e-12, "beyond the stretch the curve is followed");
  sx_reach("end");
}
HARNESS h_transfer() {   // stretch by creep, state on the load-strain curve: the unloading line leaves the creep curve
  Line k(kLoad); double s = sx_double("stretch", 100, 2900), t = T("t"), ts = T("ts"); k.Set(t, ts, s, kCreep);
  double x = k.Curve(kCreep, s) - s / k.et;     // unloaded strain
  double y = (k.b[kLoad] * k.sy + k.Modulus(kLoad) * x) / (1 - k.Modulus(kLoad) / k.et);   // where the unloading line meets the load-strain curve
  sx_assume(y < 6999);
  sx_close(k.m.PointsRegions()[1].y, y, 1e-6, 0.05, "stretch load on the load-strain curve");
  sx_close(k.m.Strain(0), k.Thermal() + x, 1e-6, 1e-6, "the component unloads to the same length");
  sx_reach("end");
}
HARNESS h_transfer_back() {   // stretch by load, state on the creep curve
  Line k(kCreep); double s = sx_double("stretch", 500, 6900), t = T("t"), ts = T("ts"); k.Set(t, ts, s, kLoad);
  double x = k.Curve(kLoad, s) - s / k.et;
  double y = (k.b[kCreep] * k.sy + k.Modulus(kCreep) * x) / (1 - k.Modulus(kCreep) / k.et);
  sx_assume(y > 1 && y < 2999);
  sx_close(k.m.PointsRegions()[1].y, y, 1e-6, 0.05, "stretch load on the creep curve");
  sx_close(k.m.Strain(0), k.Thermal() + x, 1e-6, 1e-6, "the component unloads to the same length");
  sx_reach("end");
}
namespace {
struct Drake {
  Cable b = fix::Conductor(); SagTensionCable cable; CableState st; CableStretchState sx; double ref = 70; CableComponentElongationModel m; CableComponent* c; int part, type;
  Drake() {
    part = sx_choose("part", 2); type = sx_choose("type", 2); c = part ? &b.component_shell : &b.component_core; cable.set_cable_base(&b);
    m.set_component_cable(part ? cable.component_shell() : cable.component_core()); m.set_temperature_reference(&ref);
    static const double kStretch[3] = {0, 1000, 3000};
    st.type_polynomial = type ? PT::kLoadStrain : PT::kCreep; sx.type_polynomial = st.type_polynomial; sx.temperature = 60; sx.load = kStretch[sx_choose("stretch", 3)];
    st.temperature = 60;
    m.set_state(&st); m.set_state_stretch(&sx);
  }
  void At(double t) { st.temperature = t; m.set_state(&st); }
  double Limit() const { return type ? c->load_limit_polynomial_loadstrain : c->load_limit_polynomial_creep; }
};
}
namespace {
// a fourth order curve that the Newton iteration (which starts at 0.1) solves in one exact step for two loads:
// load = b + a u + c (u - 0.1)^2 (u - r)(u - q)   meets   b + a u   at r and q, and touches it at 0.1
struct Quartic : Line {
  double r, q, cc, s;
  explicit Quartic(int t) : Line(t) {
    r = sx_double("r", 0.01, 0.08); q = sx_double("q", 0.3, 0.5); cc = sx_double("cc", -20000, 20000);
    double A = type == kCreep ? sx_double("A", 9000, 20000) : sx_double("A", 21000, 40000), B = sx_double("B", -50, 0);
    sc = 0.01; sy = 1; if (sx_choose("other scales", 2)) { sc = 0.001; sy = 0.5; }
    a[type] = A; b[type] = B; et = sx_double("E", 4500000, 9000000) * sy; s = (B + A * r) * sy; limit[type] = (B + A * q) * sy;
    // u^4 - (r+q+0.2) u^3 + (rq + 0.2(r+q) + 0.01) u^2 - (0.2 rq + 0.01 (r+q)) u + 0.01 rq
    Build();
    std::vector<double> v = {B + cc * 0.01 * r * q, A - cc * (0.2 * r * q + 0.01 * (r + q)), cc * (r * q + 0.2 * (r + q) + 0.01), -cc * (r + q + 0.2), cc};
    (type == kCreep ? c.coefficients_polynomial_creep : c.coefficients_polynomial_loadstrain) = v;
    m.set_component_cable(&k); Set(60, 60, s, type);
  }
  double Y(double u) const { return (b[type] + a[type] * u + cc * (u - 0.1) * (u - 0.1) * (u - r) * (u - q)) * sy; }
  double Dy(double u) const { return (a[type] + cc * (2 * (u - 0.1) * (u - r) * (u - q) + (u - 0.1) * (u - 0.1) * (2 * u - r - q))) * sy / sc; }
};
}
HARNESS h_quartic_points() {
  Quartic k(sx_choose("type", 2)); k.Set(T("t"), T("ts"), k.s, k.type); double th = k.Thermal();
  std::vector<Point2d<double>> p = k.m.PointsRegions();
  sx_close(p[1].x, th + k.r * k.sc, kTol, kTol, "the stretch load on the curve"); sx_close(p[1].y, k.s, kTol, kTol, "the stretch load");
  sx_close(p[2].x, th + k.q * k.sc, kTol, kTol, "the limit on the curve"); sx_close(p[2].y, k.limit[k.type], kTol, kTol, "the limit");
  sx_close(p[0].x, th + k.r * k.sc - k.s / k.et, kTol, kTol, "unloading follows the tension modulus"); sx_close(p[0].y, 0, kTol, kTol, "unloaded");
  sx_reach("end");
}
HARNESS h_quartic_load() {
  Quartic k(sx_choose("type", 2)); k.Set(T("t"), T("ts"), k.s, k.type); double th = k.Thermal();
  double u = k.r + (k.q - k.r) * sx_double("f", 0.000001, 0.999999);
  sx_close(k.m.Load(th + u * k.sc), k.Y(u), kTol, 1e-4, "load on the curve");
  sx_close(k.m.Slope(th + u * k.sc), k.Dy(u), kTol, 1e-4, "slope is the derivative of the curve");
  sx_reach("end");
}
HARNESS h_quartic_beyond() {   // beyond the limit the tangent at the limit goes on, but at no less than the least slope
  Quartic k(sx_choose("type", 2)); k.Set(T("t"), T("ts"), k.s, k.type); double th = k.Thermal();
  double e = k.Dy(k.q), d = sx_double("d", 0, 0.05); if (e < 100000) e = 100000;
  sx_close(k.m.Load(th + k.q * k.sc + d), k.limit[k.type] + e * d, kTol, 1e-4, "load beyond the limit");
  sx_close(k.m.Slope(th + k.q * k.sc + d), e, kTol, 1e-4, "slope beyond the limit");
  sx_close(k.m.Strain(k.limit[k.type] + e * d), th + k.q * k.sc + d, kTol, 1e-9, "strain beyond the limit");
  sx_reach("end");
}
HARNESS h_quartic_below() {   // below the stretch load the tension modulus, below no load the compression modulus
  Quartic k(sx_choose("type", 2)); k.Set(T("t"), T("ts"), k.s, k.type); double th = k.Thermal();
  double x0 = th + k.r * k.sc - k.s / k.et, f = sx_double("f", 0, 1), d = sx_double("d", 0, 0.05);
  sx_close(k.m.Load(x0 + f * k.s / k.et), f * k.s, kTol, 1e-4, "load below the stretch load"); sx_close(k.m.Strain(f * k.s), x0 + f * k.s / k.et, kTol, 1e-9, "strain below the stretch load");
  sx_close(k.m.Load(x0 - d), -d * k.ec, kTol, 1e-4, "load when compressed"); sx_close(k.m.Strain(-d * k.ec), x0 - d, kTol, 1e-9, "strain when compressed");
  sx_reach("end");
}
HARNESS h_stretch_beyond() {   // stretched beyond the limit of the curve
  Line k(sx_choose("type", 2)); k.Set(T("t"), T("ts"), 10000, k.type); double s = sx_double("stretch", 9001, 15000), f = sx_double("f", 0, 1); k.Set(k.st.temperature, k.sx.temperature, s, k.type);
  double end = k.Thermal() + k.Curve(k.type, k.limit[k.type]) + (s - k.limit[k.type]) / k.Beyond(k.type);
  sx_close(k.m.Strain(s), end, kTol, 1e-9, "strain at the stretch load"); sx_close(k.m.Strain(f * s), end - (s - f * s) / k.et, kTol, 1e-9, "strain below the stretch load");
  double more = sx_double("more", 0, 5000);
  sx_close(k.m.Strain(s + more), end + more / k.Beyond(k.type), kTol, 1e-9, "strain above the stretch load"); sx_close(k.m.Load(end + more / k.Beyond(k.type)), s + more, kTol, 1e-4, "load above the stretch load");
  sx_reach("end");
}
HARNESS h_drake_inverse() {
  Drake k; static const double kLoads[6] = {1, 500, 2000, 4000, 7000, 15000};
  double l = kLoads[sx_choose("load", 6)], load = sx_double("l", 0, 1) * 1e-3 + l; k.At(sx_choose("t", 2) ? 100 : 0);
  double y = k.m.Load(k.m.Strain(load));
  sx_assert(y - load < 0.02 && load - y < 0.02, "load of the strain of a load");
  sx_reach("end");
}
HARNESS h_drake_transfer() {   // stretched by creep or by load, the component unloads to the same length whatever curve the state is on
  // (the shell: the curves of the core are steeper than its tension modulus in places, which validation reports)
  Drake k; sx_assume(k.part == 1); static const double kLoads[4] = {500, 2000, 4000, 7000};
  k.sx.load = kLoads[sx_choose("load", 4)] + sx_double("l", 0, 1e-3); k.m.set_state_stretch(&k.sx); k.At(60);
  double x = k.m.Strain(0);
  k.st.type_polynomial = k.type ? PT::kCreep : PT::kLoadStrain; k.At(60);
  double y = k.m.Strain(0);
  sx_assert(y - x < 1e-6 && x - y < 1e-6, "unloaded length does not depend on the curve of the state");
  sx_reach("end");
}
HARNESS h_invalid() {   // without its parts the model answers with the documented error value
  CableComponentElongationModel m; Cable b = fix::Conductor(); SagTensionCable cable; cable.set_cable_base(&b); CableState st; CableStretchState sx; double ref = 70;
  st.temperature = 60; st.type_polynomial = PT::kCreep; sx.temperature = 60; sx.load = 1000; sx.type_polynomial = PT::kCreep;
  int miss = sx_choose("missing", 5);
  if (miss != 0) m.set_component_cable(cable.component_core());
  if (miss != 1) m.set_state(&st);
  if (miss != 2) m.set_state_stretch(&sx);
  if (miss != 3) m.set_temperature_reference(&ref);
  sx_assert(m.Validate(false) == (miss == 4), "validation tells whether a part is missing");
  sx_reach("end");
}
HARNESS h_shape() {   // a curve that falls, or is steeper than the tension modulus, anywhere below its limit is reported
  Line k(sx_choose("type", 2)); int how = sx_choose("how", 3); const double q = 0.4, A = sx_double("A", 20000, 21000);
  double cc = how == 0 ? sx_double("good", -100000, 100000) : how == 1 ? sx_double("falls", -900000, -800000) : sx_double("steep", 1000000, 1100000);
  for (int t : {0, 1}) { k.a[t] = 20000; k.b[t] = 0; k.limit[t] = 8000; }
  k.sc = 0.01; k.sy = 1; k.et = sx_double("E", 4500000, 4600000); k.limit[k.type] = A * q; k.Build();
  // load = A u + c (u - 0.1)^2 u (u - q)
  (k.type == kCreep ? k.c.coefficients_polynomial_creep : k.c.coefficients_polynomial_loadstrain) = {0, A - cc * 0.01 * q, cc * (0.2 * q + 0.01), -cc * (q + 0.2), cc};
  k.m.set_component_cable(&k.k); k.Set(60, 60, 0, k.type);
  sx_assert(k.m.Validate(true) == (how == 0), "shape of the curve below its limit");
  sx_assert(k.m.Validate(false), "without warnings the shape is accepted");
  sx_reach("end");
}
