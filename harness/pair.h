// A cable of two components with straight curves; slopes, moduli and temperatures may be symbolic.
#pragma once
#include "fix.h"
#include "sx.h"
using PT = SagTensionCableComponent::PolynomialType;
using CT = CableElongationModel::ComponentType;
// curves: load = b + a * strain (load-strain polynomial), straight to the limit and beyond
struct Pair {
  Cable base; SagTensionCable cable; CableElongationModel m; double a[2], b[2], et[2], ec[2], al[2], limit[2];
  // `some`: three pairs of slopes and moduli instead of symbolic ones
  Pair(bool core = true, bool shell = true, bool some = false) {
    if (some) {
      static const double kA[3][4] = {{1000000, 1900000, 2000000, 4000000}, {1900000, 1200000, 2500000, 2000000}, {1500000, 1500000, 3000000, 3000000}};
      const double* q = kA[sx_choose("moduli", 3)]; for (int i : {0, 1}) { a[i] = q[i]; et[i] = q[2 + i]; }
    } else {
      a[0] = sx_double("a core", 1000000, 1900000); a[1] = sx_double("a shell", 1000000, 1900000);
      et[0] = sx_double("e core", 2000000, 4000000); et[1] = sx_double("e shell", 2000000, 4000000);
    }
    al[0] = 0.000006; al[1] = 0.000012; ec[0] = 0; ec[1] = 100000;
    b[0] = b[1] = 0; limit[0] = 16000; limit[1] = 17000;
    base = fix::Conductor(); base.temperature_properties_components = 70;
    Build(core, shell);
  }
  void Build(bool core = true, bool shell = true) {
    CableComponent* c[2] = {&base.component_core, &base.component_shell};
    for (int i : {0, 1}) {
      std::vector<double> v = {b[i], a[i] * 0.01, 0, 0, 0};
      if ((i == 0 && !core) || (i == 1 && !shell)) v = {0, 0, 0, 0, 0};
      c[i]->coefficients_polynomial_creep = v; for (double& k : c[i]->coefficients_polynomial_creep) k = k / 2; c[i]->coefficients_polynomial_loadstrain = v;
      c[i]->load_limit_polynomial_creep = limit[i] / 2; c[i]->load_limit_polynomial_loadstrain = limit[i];
      c[i]->modulus_tension_elastic_area = et[i]; c[i]->modulus_compression_elastic_area = ec[i]; c[i]->coefficient_expansion_linear_thermal = al[i]; c[i]->scale_polynomial_x = 0.01; c[i]->scale_polynomial_y = 1;
    }
    cable.set_cable_base(&base); m.set_cable(&cable);
  }
  void Set(double t, double ts, double load, PT type = PT::kLoadStrain, PT stype = PT::kLoadStrain) {
    CableState st; st.temperature = t; st.type_polynomial = type; m.set_state(st);
    CableStretchState sx; sx.temperature = ts; sx.load = load; sx.type_polynomial = stype; m.set_state_stretch(sx);
  }
  double Thermal(int i, double t) const { return al[i] * (t - 70); }
  // load of one component, stretched to `s`
  double Load(int i, double t, double s, double x) const {
    double u = x - Thermal(i, t), y = b[i] + a[i] * u, top = (s - b[i]) / a[i], free = top - s / et[i];
    if (u < free) return ec[i] * (u - free);
    if (u <= top) return et[i] * (u - free);
    return y;
  }
};
