R='src/thermalrating/'
TH='''#include "models/thermalrating/thermal_rating_cable.h"
#include "models/thermalrating/cable_heat_transfer_solver.h"
#include "models/thermalrating/solar_radiation_solver.h"
#include "models/thermalrating/steady_cable_current_solver.h"
#include "models/thermalrating/steady_cable_temperature_solver.h"
#include "models/thermalrating/transient_cable_temperature_solver.h"
static Cable base() {
  Cable c; c.diameter = 0.028; c.absorptivity = 0.5; c.emissivity = 0.5; c.component_core.capacity_heat = 200; c.component_shell.capacity_heat = 1000; c.strength_rated = 10000; c.area_physical = 0.5; c.weight_unit = 1; c.temperature_properties_components = 20;
  CableComponent* p[] = {&c.component_core, &c.component_shell};
  for (CableComponent* q : p) { q->coefficient_expansion_linear_thermal = 1e-5; q->modulus_compression_elastic_area = 1000; q->modulus_tension_elastic_area = 100000; q->load_limit_polynomial_creep = 10000; q->load_limit_polynomial_loadstrain = 10000; q->coefficients_polynomial_creep.assign(5, 100); q->coefficients_polynomial_loadstrain.assign(5, 100); }
 
  c.resistances_ac.push_back({7e-5, 25}); c.resistances_ac.push_back({9e-5, 75}); c.resistances_ac.push_back({14e-5, 175}); return c;
}
static ThermalRatingWeather weather() {
  ThermalRatingWeather w; w.angle_wind = 90; w.elevation = 0; w.radiation_solar = 0; w.speed_wind = 0.6; w.temperature_air = 20; return w;
}
int main() {
  Cable c = base(); ThermalRatingCable k; k.set_cable_base(&c); ThermalRatingWeather w = weather();
'''
END='  return failed;\n}\n'
BUG('rating-base-components','P20',[(R+'thermal_rating_cable.cc','''  if (cable_base_ == nullptr) {
    component_thermalrating_core_''','''  if ((cable_base_ == nullptr)
      && (component_thermalrating_core_.component_base() != nullptr)) {
    component_thermalrating_core_'''),(R+'thermal_rating_cable.cc','''    component_thermalrating_shell_.set_component_base(nullptr);
  } else {''','''    component_thermalrating_shell_.set_component_base(nullptr);
  } else if (component_thermalrating_core_.component_base() == nullptr) {''')],
TH+'''  Cable d = base(); d.component_core.capacity_heat = 300; k.set_cable_base(&d);
  NEAR(*k.component_core()->capacity_heat(), 300, 0);
'''+END,'replacing the base cable of a rating cable','Heat capacities stay those of the first base cable.')
BUG('heat-elevation','P21',[(R+'cable_heat_transfer_solver.cc','''    density_air = (1.293 - 1.525 * std::pow(10, -4) * weather_->elevation
        + 6.379 * std::pow(10, -9) * std::pow(weather_->elevation, 2))''','''    density_air = (1.293 - 1.525 * std::pow(10, -4) * weather_->elevation
        - 6.379 * std::pow(10, -9) * std::pow(weather_->elevation, 2))''')],
TH+'''  CableHeatTransferSolver s; s.set_cable(&k); s.set_units(units::UnitSystem::kMetric); w.speed_wind = 0; w.elevation = 4000; s.set_weather(&w);
  double low = 0; w.elevation = 0; low = s.HeatConvection(40); w.elevation = 4000;
  double rho = 1.293 - 1.525e-4 * 4000 + 6.379e-9 * 4000.0 * 4000.0;
  NEAR(s.HeatConvection(40) / low, std::sqrt(rho / 1.293), 1e-6);
'''+END,'a place well above sea level in metric units','The air gets too thin with elevation.')
BUG('heat-wind-direction','P21',[(R+'cable_heat_transfer_solver.cc','''      + 0.368 * std::sin(2 * angle_wind_rad);''','''      + 0.368 * std::sin(angle_wind_rad) * std::cos(angle_wind_rad);''')],
TH+'''  CableHeatTransferSolver s; s.set_cable(&k); s.set_units(units::UnitSystem::kMetric); w.speed_wind = 3; s.set_weather(&w);
  double across = s.HeatConvection(60); w.angle_wind = 45; double skew = s.HeatConvection(60);
  NEAR(skew / across, (1.194 - std::sqrt(0.5) + 0.368) / (1.194 - 0.194), 1e-6);
'''+END,'wind that blows neither across nor along the cable','Skew wind cools less than documented.')
BUG('steady-cold-resistance','P22',[(R+'steady_cable_current_solver.cc','''  const double resistance_cable = cable_->Resistance(temperature_cable_);''','''  const double resistance_cable =
      cable_->Resistance(std::fmax(temperature_cable_, 0));''')],
TH+'''  SteadyCableCurrentSolver s; w.temperature_air = -40; s.set_cable(&k); s.set_units(units::UnitSystem::kMetric); s.set_weather(&w); s.set_temperature_cable(-20);
  CableHeatTransferSolver h; h.set_cable(&k); h.set_units(units::UnitSystem::kMetric); h.set_weather(&w);
  NEAR(h.HeatResistance(-20, s.Current()) + h.HeatConvection(-20) + h.HeatRadiation(-20) + h.HeatSolar(), 0, 1e-6);
'''+END,'a cable below the freezing point','The current at a low cable temperature does not balance the heat.')
BUG('transient-fault-current','P23',[(R+'transient_cable_temperature_solver.cc','''  // combines and returns
  return temperature + temperature_delta;''','''  // combines and returns
  return temperature + ((temperature_delta < 5) ? temperature_delta : 5);'''),(R+'transient_cable_temperature_solver.cc','''  const double temperature_delta =
      time_delta * (state.heat_storage / capacity_heat);''','''  const double temperature_delta =
      (state.heat_storage / capacity_heat) * time_delta;''')],
TH+'''  TransientCableTemperatureSolver s; s.set_cable(&k); s.set_units(units::UnitSystem::kMetric); s.set_weather(&w); s.set_current_steady(0); s.set_current_step(30000); s.set_duration(1);
  NEAR(s.PointsTemperature()->back().temperature, 20 + 30000.0 * 30000.0 * k.Resistance(20) / 1200, 1e-6);
'''+END,'a fault current that heats the cable by more than five degrees in a second','A fault heats the cable by at most five degrees a second.')
BUG('transient-duration','P23',[(R+'transient_cable_temperature_solver.cc','''  duration_ = duration;
  is_updated_ = false;''','''  is_updated_ = is_updated_ && (duration < duration_);
  duration_ = duration;''')],
TH+'''  TransientCableTemperatureSolver s; s.set_cable(&k); s.set_units(units::UnitSystem::kMetric); s.set_weather(&w); s.set_current_steady(100); s.set_current_step(800); s.set_duration(20);
  s.PointsTemperature(); s.set_duration(5); CHECK(s.PointsTemperature()->size() == 6);
'''+END,'shortening the duration after points were asked for','Points beyond the duration remain.')
BUG('sun-early-morning','P24',[(R+'solar_radiation_solver.cc','''    if (chi < 0) {
      kC = 180;
    } else {
      kC = 0;
    }''','''    if ((chi < 0) || (angle_hour < -90)) {
      kC = 180;
    } else {
      kC = 0;
    }''')],
TH+'''  SolarRadiationSolver s; s.set_azimuth_cable(90); s.set_day(172); s.set_elevation(0); s.set_hour(5); s.set_latitude(50); s.set_quality_atmosphere(AtmosphereQualityType::kClear); s.set_units(units::UnitSystem::kMetric);
  CHECK(s.AzimuthSun() > 0); CHECK(s.AzimuthSun() < 90);
'''+END,'an hour before six in the morning in summer','The early morning sun is in the west.')
BUG('sun-quality-stale','P24',[(R+'solar_radiation_solver.cc','''  quality_atmosphere_ = quality;
  is_updated_ = false;''','''  is_updated_ = is_updated_
                && (quality_atmosphere_ != AtmosphereQualityType::kNull);
  quality_atmosphere_ = quality;''')],
TH+'''  SolarRadiationSolver s; s.set_azimuth_cable(90); s.set_day(172); s.set_elevation(0); s.set_hour(11); s.set_latitude(30); s.set_quality_atmosphere(AtmosphereQualityType::kClear); s.set_units(units::UnitSystem::kMetric);
  double a = s.Radiation(); s.set_quality_atmosphere(AtmosphereQualityType::kIndustrial); CHECK(s.Radiation() < a - 1);
'''+END,'changing the atmosphere after radiation was asked for','Radiation stays that of the former atmosphere.')
BUG('sun-imperial-elevation','P24',[(R+'solar_radiation_solver.cc','''    coefficients_elevation_[1] = 3.500 * std::pow(10, -5);''','''    coefficients_elevation_[1] = 3.500 * std::pow(10, -4);''')],
TH+'''  SolarRadiationSolver s; s.set_azimuth_cable(90); s.set_day(172); s.set_elevation(0); s.set_hour(11); s.set_latitude(30); s.set_quality_atmosphere(AtmosphereQualityType::kClear); s.set_units(units::UnitSystem::kImperial);
  double a = s.Radiation(); s.set_elevation(5000); NEAR(s.Radiation() / a, 1 + 3.5e-5 * 5000 - 1e-9 * 5000.0 * 5000.0, 1e-9);
'''+END,'a place above sea level in imperial units','Radiation grows ten times too much with elevation.')
