// P17: elongation of a cable of two components. The components have straight curves with symbolic slopes,
// offsets, moduli and thermal coefficients, so every region of the composite is covered.
// @h h_sum mode=real wall=120
// @h h_sum_drake mode=fpu guided=1
// @h h_alone mode=real wall=120
// @h h_free mode=real wall=120
// @h h_free_load mode=real wall=200
// @h h_stretched_load mode=real wall=200
// @h h_compressed mode=real wall=200
// @h h_slack mode=real wall=120
// @h h_stretch_point mode=real wall=200
// @h h_unloads mode=real wall=200
// @h h_component_stretch mode=real wall=200
// @h h_stretch_compressed mode=real wall=200
// @h h_shift mode=real wall=200
// @h h_permanent mode=real wall=200
// @h h_drake_load mode=fpu guided=1 wall=120
// @h h_strain_limit mode=real wall=120
// @h h_unloaded_difference mode=real wall=120
#include "pair.h"
namespace {
const double kTol = 1e-9;
CT Type(int i) { return i == 0 ? CT::kCore : CT::kShell; }
}
HARNESS h_sum() {
  Pair k(true, true, true); double t = sx_double("t", -50, 300); k.Set(t, 60, sx_choose("stretched", 2) ? sx_double("s", 100, 12000) : 0);
  double x = sx_double("x", -0.005, 0.02);
  sx_close(k.m.Load(CT::kCombined, x), k.m.Load(CT::kCore, x) + k.m.Load(CT::kShell, x), kTol, 1e-9, "load of the cable is the sum over its components");
  sx_close(k.m.Slope(CT::kCombined, x), k.m.Slope(CT::kCore, x) + k.m.Slope(CT::kShell, x), kTol, 1e-9, "slope of the cable is the sum over its components");
  sx_reach("end");
}
HARNESS h_sum_drake() {
  Cable b = fix::Conductor(); SagTensionCable cable; cable.set_cable_base(&b); CableElongationModel m; m.set_cable(&cable);
  CableState st; st.temperature = sx_choose("t", 2) ? 60 : 0; st.type_polynomial = sx_choose("type", 2) ? PT::kLoadStrain : PT::kCreep; m.set_state(st);
  CableStretchState s; s.temperature = 60; s.load = 0; s.type_polynomial = st.type_polynomial; m.set_state_stretch(s);
  double x = 0.001 * sx_choose("at", 12) + sx_double("x", 0, 1e-5), ref = 70;
  sx_same(m.Load(CT::kCombined, x), m.Load(CT::kCore, x) + m.Load(CT::kShell, x), "load of the cable is the sum over its components");
  sx_same(m.Slope(CT::kCombined, x), m.Slope(CT::kCore, x) + m.Slope(CT::kShell, x), "slope of the cable is the sum over its components");
  for (int i : {0, 1}) {
    CableComponentElongationModel c; c.set_component_cable(i ? cable.component_shell() : cable.component_core()); c.set_temperature_reference(&ref); c.set_state(&st); c.set_state_stretch(&s);
    double y = m.Load(Type(i), x);
    sx_same(y, c.Load(x), "load of a component"); sx_same(m.Slope(Type(i), x), c.Slope(x), "slope of a component");
    sx_same(m.Strain(Type(i), 1000), c.Strain(1000), "strain of a component");
  }
  sx_reach("end");
}
HARNESS h_alone() {   // a cable of one component is that component
  int i = sx_choose("which", 2); Pair k(i == 0, i == 1); double t = sx_double("t", -50, 300), s = sx_choose("stretched", 2) ? sx_double("s", 100, 9000) : 0; k.Set(t, 60, s);
  double load = sx_double("load", 1, 20000), x = sx_double("x", -0.005, 0.02);
  sx_close(k.m.Load(CT::kCombined, x), k.Load(i, t, s, x), kTol, 1e-3, "load of the cable"); sx_close(k.m.Load(Type(i), x), k.Load(i, t, s, x), kTol, 1e-3, "load of its component");
  sx_close(k.m.Load(Type(1 - i), x), 0, 0, 0, "the other component carries nothing"); sx_close(k.m.Slope(Type(1 - i), x), 0, 0, 0, "the other component has no slope");
  sx_close(k.m.Strain(CT::kCombined, load), k.m.Strain(Type(i), load), 0, 1e-8, "strain of the cable");
  sx_reach("end");
}
HARNESS h_free() {   // without stretch, each component as if alone
  Pair k; double t = sx_double("t", -50, 300); k.Set(t, 60, 0); double x = sx_double("x", -0.005, 0.02);
  for (int i : {0, 1}) sx_close(k.m.Load(Type(i), x), k.Load(i, t, 0, x), kTol, 1e-3, "load of a component that was not stretched");
  sx_reach("end");
}
HARNESS h_free_load() {
  Pair k; k.Set(sx_double("t", -50, 300), 60, 0); double load = sx_double("load", 0, 40000);
  double y = k.m.Load(CT::kCombined, k.m.Strain(CT::kCombined, load));
  sx_assert(y - load < 0.011 && load - y < 0.011, "the components carry the load together");
  sx_reach("end");
}
HARNESS h_stretched_load() {
  Pair k(true, true, true); k.Set(sx_double("t", -50, 300), 60, sx_double("s", 4000, 12000)); double load = sx_double("load", 0, 40000);
  double y = k.m.Load(CT::kCombined, k.m.Strain(CT::kCombined, load));
  sx_assert(y - load < 0.011 && load - y < 0.011, "the components carry the load together");
  sx_reach("end");
}
HARNESS h_compressed() {   // a load below zero is carried by the component that takes compression
  Pair k; int who = sx_choose("who", 3); k.ec[0] = who != 1 ? 50000 : 0; k.ec[1] = who != 0 ? 100000 : 0; k.Build(); k.Set(sx_double("t", -50, 300), 60, 0); double load = -sx_double("load", 1, 3000);
  double y = k.m.Load(CT::kCombined, k.m.Strain(CT::kCombined, load));
  sx_assert(y - load < 0.011 && load - y < 0.011, "the components carry the compression together");
  sx_reach("end");
}
HARNESS h_slack() {   // a cable that takes no compression is slack where its shorter component is
  Pair k; k.ec[0] = k.ec[1] = 0; k.Build(); double t = sx_double("t", -50, 300); k.Set(t, 60, 0);
  double x = k.m.Strain(CT::kCombined, -sx_double("load", 0, 3000)), e = k.Thermal(0, t); if (k.Thermal(1, t) < e) e = k.Thermal(1, t);
  sx_close(x, e, 0, 1e-7, "strain of the slack cable"); sx_close(k.m.Load(CT::kCombined, x), 0, 0, 0.05, "load of the slack cable");
  sx_reach("end");
}
HARNESS h_stretch_point() {   // stretching to a load leaves the strain at that load where it was, and all above
  Pair k(true, true, true); double t = sx_double("t", -20, 200), s = sx_double("s", 6000, 12000), more = sx_double("more", 0, 8000);
  k.Set(t, t, 0); double x = k.m.Strain(CT::kCombined, s + more);
  k.Set(t, t, s); double y = k.m.Strain(CT::kCombined, s + more);
  sx_close(x, y, 0, 1e-7, "stretch is no elongation above the stretch load");
  sx_reach("end");
}
HARNESS h_unloads() {   // from the stretch load both components unload along their tension moduli
  Pair k(true, true, true); double t = sx_double("t", 40, 100), s = sx_double("s", 6000, 12000), less = sx_double("less", 0, 1000);
  k.Set(t, t, s); double x = k.m.Strain(CT::kCombined, s), y = k.m.Strain(CT::kCombined, s - less);
  sx_close(x - y, less / (k.et[0] + k.et[1]), 0, 1e-7, "unloading follows the tension moduli");
  sx_reach("end");
}
HARNESS h_component_stretch() {   // each component is stretched by the load it carried, at the temperature of the stretch
  Pair k(true, true, true); double t = sx_double("t", -20, 200), ts = sx_double("ts", 40, 100), s = sx_double("s", 6000, 12000);
  k.Set(ts, ts, 0); double x = k.m.Strain(CT::kCombined, s);
  k.Set(t, ts, s);
  for (int i : {0, 1}) sx_close(k.m.Strain(Type(i), 0), x - k.Thermal(i, ts) + k.Thermal(i, t) - k.Load(i, ts, 0, x) / k.et[i], 0, 1e-7, "unloaded length of a stretched component");
  sx_reach("end");
}
HARNESS h_stretch_compressed() {   // hot cable, small load: the shell is compressed and not stretched
  Pair k; double t = sx_double("t", -20, 200), ts = sx_double("ts", 300, 400), s = sx_double("s", 10, 500);
  k.Set(t, ts, s); double u = k.m.Strain(CT::kShell, 0);
  sx_close(u, k.Thermal(1, t), 0, 1e-7, "a component that is compressed is not stretched");
  double x = sx_double("x", -0.005, 0.02);
  sx_close(k.m.Load(CT::kShell, x), k.Load(1, t, 0, x), kTol, 1e-3, "load of the component that is not stretched");
  sx_reach("end");
}
HARNESS h_shift() {   // with one thermal coefficient, temperature shifts the cable
  Pair k; k.al[1] = k.al[0]; k.Build(); double t = sx_double("t", -50, 300), u = sx_double("u", -50, 300), s = sx_choose("stretched", 2) ? sx_double("s", 4000, 12000) : 0, load = sx_double("load", 0, 20000);
  k.Set(t, 60, s); double x = k.m.Strain(CT::kCombined, load); k.Set(u, 60, s); double y = k.m.Strain(CT::kCombined, load);
  sx_close(y - x, k.al[0] * (u - t), 0, 1e-7, "temperature shifts strain");
  sx_reach("end");
}
HARNESS h_permanent() {
  Pair k(true, true, true); double t = sx_double("t", -20, 200), s = sx_double("s", 4000, 8000), r = sx_double("r", 0, 4000), load = sx_double("load", 0, 14000);
  k.Set(t, 60, s); double x = k.m.Strain(CT::kCombined, load); k.Set(t, 60, s + r); double y = k.m.Strain(CT::kCombined, load);
  sx_assert(y >= x - 1e-7, "stretching further does not shorten the cable");
  sx_reach("end");
}
HARNESS h_drake_load() {
  Cable b = fix::Conductor(); SagTensionCable cable; cable.set_cable_base(&b); CableElongationModel m; m.set_cable(&cable);
  static const double kT[3] = {0, 60, 212}, kS[3] = {0, 5000, 12000}, kL[5] = {100, 2000, 6000, 14000, 30000};
  CableState st; st.temperature = kT[sx_choose("t", 3)]; st.type_polynomial = sx_choose("type", 2) ? PT::kLoadStrain : PT::kCreep; m.set_state(st);
  CableStretchState s; s.temperature = 60; s.load = kS[sx_choose("stretch", 3)]; s.type_polynomial = st.type_polynomial; m.set_state_stretch(s);
  double load = kL[sx_choose("load", 5)] + sx_double("l", 0, 1e-3);
  double y = m.Load(CT::kCombined, m.Strain(CT::kCombined, load));
  sx_assert(y - load < 0.011 && load - y < 0.011, "the components carry the load together");
  sx_reach("end");
}
HARNESS h_strain_limit() {   // rated strength within the limits of both curves, whatever curve the state is on
  Pair k; k.a[0] = k.a[1]; k.limit[0] = sx_double("limit core", 16000, 20000); k.limit[1] = sx_double("limit shell", 16000, 20000); k.base.strength_rated = sx_double("strength", 10000, 39000); k.Build();
  k.Set(60, 60, 0, sx_choose("state", 2) ? PT::kLoadStrain : PT::kCreep, PT::kCreep);
  double least = k.limit[0] < k.limit[1] ? k.limit[0] : k.limit[1];
  sx_assume(2 * least - k.base.strength_rated > 1 || k.base.strength_rated - 2 * least > 1);
  std::list<ErrorMessage> e; sx_assert(k.m.Validate(true, &e) == (k.base.strength_rated < 2 * least), "warns when a component reaches its limit before the rated strength");
  sx_reach("end");
}
HARNESS h_unloaded_difference() {
  Pair k; k.a[1] = k.a[0] = 1500000; k.b[1] = sx_double("b", -900, 0); k.base.strength_rated = 10000; k.Build(); k.Set(sx_double("t", -20, 200), 60, 0);
  double d = -k.b[1] / k.a[1];   // unloaded strain of the shell
  sx_assume(d < 0.000099);
  sx_assert(k.m.Validate(true), "components that start together are accepted");
  sx_reach("end");
}
