// P24: solar position and radiation.
// @h h_sun_altitude mode=real wall=200
// @h h_sun_azimuth mode=real wall=200
// @h h_sun_noon mode=real
// @h h_sun_range mode=real wall=200
// @h h_sun_zenith mode=fpu
// @h h_sun_radiation mode=real wall=90
// @h h_sun_sign mode=real wall=200
// @h h_sun_symmetry mode=real wall=200
// @h h_sun_units mode=real
// @h h_sun_refuse mode=fpu
// @h h_sun_follow mode=fpu
#include <cmath>
#include <list>
#include "models/thermalrating/solar_radiation_solver.h"
#include "sx.h"
namespace {
const double kRad = 3.141592653589793 / 180;
const double kClearM[] = {-42.2391, 63.8044, -1.9220, 3.46921e-2, -3.61118e-4, 1.94318e-6, -4.07608e-9};
const double kIndustrialM[] = {53.1821, 14.2110, 6.6138e-1, -3.1658e-2, 5.4654e-4, -4.3446e-6, 1.3236e-8};
const double kClearI[] = {-3.9241, 5.9276, -1.7856e-1, 3.223e-3, -3.3549e-5, 1.8053e-7, -3.7868e-10};
const double kIndustrialI[] = {4.9408, 1.3202, 6.1444e-2, -2.9411e-3, 5.07752e-5, -4.03627e-7, 1.22967e-9};
double Flux(bool metric, bool clear, double alt) {   // documented sixth-order polynomials
  const double* c = metric ? (clear ? kClearM : kIndustrialM) : (clear ? kClearI : kIndustrialI);
  double r = 0, x = 1; for (int i = 0; i < 7; i++) { r = r + c[i] * x; x = x * alt; } return r;
}
struct In { int day, hour; double lat, az, el; bool metric, clear; };
void Set(SolarRadiationSolver* s, const In& i) {
  s->set_azimuth_cable(i.az); s->set_day(i.day); s->set_elevation(i.el); s->set_hour(i.hour); s->set_latitude(i.lat);
  s->set_quality_atmosphere(i.clear ? AtmosphereQualityType::kClear : AtmosphereQualityType::kIndustrial);
  s->set_units(i.metric ? units::UnitSystem::kMetric : units::UnitSystem::kImperial);
}
In Base() { In i = {161, 11, 30, 90, 0, true, true}; return i; }
double Decl(int day) { return 23.46 * std::sin(units::ConvertAngle((284 + day) / 365.0 * 360, units::AngleConversionType::kDegreesToRadians)); }
const int kDays[] = {1, 40, 81, 120, 172, 173, 200, 264, 300, 355, 365};   // both solstices and equinoxes among them
}
HARNESS h_sun_altitude() {   // spherical relation of latitude, declination and hour angle: every latitude and hour, some days
  In i = Base(); i.day = kDays[sx_choose("day", 11)]; i.hour = sx_choose("hour", 24); i.lat = sx_double("lat", -89, 89);
  SolarRadiationSolver s; Set(&s, i); double d = Decl(i.day) * kRad, l = i.lat * kRad, h = (i.hour - 12) * 15 * kRad;
  sx_close(std::sin(s.AltitudeSun() * kRad), std::sin(l) * std::sin(d) + std::cos(l) * std::cos(d) * std::cos(h), 1e-6, 1e-6, "altitude of the sun");
  sx_reach("end");
}
HARNESS h_sun_azimuth() {   // direction of the sun, clockwise from north, apart from the meridian
  In i = Base(); i.day = kDays[sx_choose("day", 11)]; int hour = sx_choose("hour", 22); i.hour = hour < 11 ? hour + 1 : hour + 2; i.lat = sx_double("lat", -89, 89);
  SolarRadiationSolver s; Set(&s, i); double d = Decl(i.day) * kRad, l = i.lat * kRad, h = (i.hour - 12) * 15 * kRad;
  double a = s.AzimuthSun(), east = -std::cos(d) * std::sin(h), north = std::sin(d) * std::cos(l) - std::cos(d) * std::sin(l) * std::cos(h);
  double sa = std::sin(a * kRad), ca = std::cos(a * kRad);
  sx_close(sa * north, ca * east, 1e-6, 1e-6, "azimuth is along the direction of the sun");
  sx_assert(i.hour < 12 ? sa > 0 : sa < 0, "east in the morning, west in the afternoon");
  sx_reach("end");
}
HARNESS h_sun_noon() {
  In i = Base(); i.day = kDays[sx_choose("day", 11)]; i.hour = 12; i.lat = sx_double("lat", -89, 89); double d = Decl(i.day) * kRad, l = i.lat * kRad, north = std::sin(d) * std::cos(l) - std::cos(d) * std::sin(l);
  sx_assume(north > 1e-6 || north < -1e-6);
  SolarRadiationSolver s; Set(&s, i); double a = s.AzimuthSun(), ca = std::cos(a * kRad);
  sx_close(std::sin(a * kRad), 0, 0, 1e-9, "on the meridian at noon");
  sx_close(ca, north > 0 ? 1 : -1, 0, 1e-9, "north at noon when the sun is north of the place, else south");
  sx_reach("end");
}
HARNESS h_sun_range() {
  In i = Base(); i.day = kDays[sx_choose("day", 11)]; i.hour = sx_choose("hour", 24); i.lat = sx_double("lat", -89, 89);
  SolarRadiationSolver s; Set(&s, i); double a = s.AzimuthSun(), b = s.AltitudeSun();
  sx_assert(a >= -1e-9 && a <= 360 + 1e-9, "azimuth within a turn"); sx_assert(b >= -90 - 1e-6 && b <= 90 + 1e-6, "altitude within a quarter turn of the horizon");
  sx_reach("end");
}
HARNESS h_sun_zenith() {   // floating point: always a number, also with the sun at the zenith
  In i = Base(); i.hour = 12; i.day = kDays[sx_choose("day", 11)]; i.lat = sx_choose("at", 2) ? Decl(i.day) : sx_choose("eq", 2) ? 0 : sx_double("lat", -90, 90);
  SolarRadiationSolver s; Set(&s, i);
  double b = s.AltitudeSun(); sx_assert(b == b, "altitude is a number"); double a = s.AzimuthSun(); sx_assert(a == a, "azimuth is a number");
  sx_reach("end");
}
HARNESS h_sun_radiation() {   // flux of the altitude, on the surface of the conductor, at the elevation
  In i = Base(); i.metric = sx_choose("metric", 2); i.clear = sx_choose("clear", 2); i.day = kDays[3 * sx_choose("day", 4)]; i.hour = 8 + 2 * sx_choose("hour", 4);
  if (sx_choose("what", 2)) { i.az = sx_double("az", 0, 360); i.el = sx_double("el", 0, 15000); } else i.lat = sx_double("lat", -66, 66);
  SolarRadiationSolver s; Set(&s, i); double alt = s.AltitudeSun(), az = s.AzimuthSun();
  double q = Flux(i.metric, i.clear, alt); if (alt < 0 || q < 0) q = 0;
  double c = std::cos(alt * kRad) * std::cos(az * kRad - i.az * kRad), k = i.metric ? 1 + 1.148e-4 * i.el - 1.108e-8 * i.el * i.el : 1 + 3.5e-5 * i.el - 1e-9 * i.el * i.el;
  sx_close(s.Radiation(), q * std::sqrt(1 - c * c) * k, 1e-6, 1e-6, "radiation is the flux times incidence times elevation factor");
  sx_reach("end");
}
HARNESS h_sun_sign() {   // never negative, nothing at night, something when the sun is up
  In i = Base(); i.metric = sx_choose("metric", 2); i.clear = sx_choose("clear", 2); i.day = kDays[3 * sx_choose("day", 4)]; i.hour = 3 * sx_choose("hour", 8); i.lat = sx_double("lat", -89, 89);
  SolarRadiationSolver s; Set(&s, i); double r = s.Radiation(), alt = s.AltitudeSun();
  sx_assert(r >= 0, "radiation is not negative");
  if (alt < 0) sx_assert(r == 0, "no radiation with the sun below the horizon");
  double q = Flux(i.metric, i.clear, alt);
  if (alt > 2) { sx_assert(q > 0, "the sun shines when it is up"); }
  sx_reach("end");
}
HARNESS h_sun_symmetry() {   // morning and afternoon mirror each other; a conductor has no direction
  In i = Base(); i.lat = sx_double("lat", -89, 89); i.day = kDays[sx_choose("day", 11)]; int k = sx_choose("hour", 12); i.hour = k; In j = i; j.hour = 24 - k; if (k == 0) j.hour = 0;
  SolarRadiationSolver s, t; Set(&s, i); Set(&t, j);
  sx_close(s.AltitudeSun(), t.AltitudeSun(), 1e-9, 1e-9, "same altitude as long before as after noon");
  sx_close(k ? s.AzimuthSun() + t.AzimuthSun() : 360, 360, 1e-9, 1e-9, "azimuths mirror each other");
  In m = i; m.az = 270; SolarRadiationSolver u; Set(&u, m); 
  sx_close(u.Radiation(), s.Radiation(), 1e-6, 1e-6, "either direction of the conductor");
  sx_reach("end");
}
HARNESS h_sun_units() {   // W/m2 against W/ft2
  In i = Base(); i.clear = sx_choose("clear", 2); i.lat = sx_choose("low", 2) ? 10 : 50; i.hour = 9 + sx_choose("hour", 5); i.el = sx_double("el", 0, 4000); i.az = 90; In j = i; j.metric = false; j.el = i.el / 0.3048;
  SolarRadiationSolver s, t; Set(&s, i); Set(&t, j);
  sx_close(s.AltitudeSun(), t.AltitudeSun(), 1e-12, 0, "same sun"); sx_close(s.Radiation() / t.Radiation(), 1 / (0.3048 * 0.3048), 2e-2, 0, "the same radiation in metric and imperial units");
  sx_reach("end");
}
HARNESS h_sun_refuse() {   // accepted exactly within the documented limits
  SolarRadiationSolver s; double az = sx_double("az", -400, 800), el = sx_double("el", -1e4, 1e4), lat = sx_double("lat", -200, 200); int day = sx_int("day", -10, 400), hour = sx_int("hour", -5, 30);
  int u = sx_choose("units", 3), q = sx_choose("quality", 3), which = sx_choose("which", 5);
  In i = Base(); i.day = 100; i.lat = 30;
  Set(&s, i); s.set_units((units::UnitSystem)u); s.set_quality_atmosphere((AtmosphereQualityType)q);
  bool ok = u && q; ok = (units::UnitSystem)u != units::UnitSystem::kNull && (AtmosphereQualityType)q != AtmosphereQualityType::kNull;
  if (which == 0) { s.set_azimuth_cable(az); ok = ok & (az >= 0) & (az <= 360); }
  if (which == 1) { s.set_day(day); ok = ok & (day >= 1) & (day <= 365); }
  if (which == 2) { s.set_elevation(el); ok = ok & (el >= 0); }
  if (which == 3) { s.set_hour(hour); ok = ok & (hour >= 0) & (hour < 24); }
  if (which == 4) { s.set_latitude(lat); ok = ok & (lat >= -90) & (lat <= 90); }
  std::list<ErrorMessage> m; bool v = s.Validate(true, &m);
  sx_assert(v == ok, "accepted exactly within the documented limits"); sx_assert(m.empty() == v, "messages exactly for failures"); sx_assert(s.Validate() == v, "same verdict without messages");
  sx_reach("end");
}
HARNESS h_sun_follow() {   // every answer is for the current inputs
  In i = Base(), j = Base(); i.lat = sx_double("lat", -60, 60); i.el = sx_double("el", 0, 1e4); i.az = sx_double("az", 0, 360); int what = sx_choose("what", 7); j = i;
  SolarRadiationSolver s; Set(&s, i);
  int ask = sx_choose("ask", 4); if (ask == 0) s.Radiation(); else if (ask == 1) s.AltitudeSun(); else if (ask == 2) s.AzimuthSun(); else s.Validate();
  SolarRadiationSolver k = s;
  if (what == 0) { j.lat = sx_double("lat2", -60, 60); s.set_latitude(j.lat); } else if (what == 1) { j.el = sx_double("el2", 0, 1e4); s.set_elevation(j.el); } else if (what == 2) { j.az = sx_double("az2", 0, 360); s.set_azimuth_cable(j.az); }
  else if (what == 3) { j.day = 20; s.set_day(20); } else if (what == 4) { j.hour = 15; s.set_hour(15); } else if (what == 5) { j.metric = false; s.set_units(units::UnitSystem::kImperial); } else { j.clear = false; s.set_quality_atmosphere(AtmosphereQualityType::kIndustrial); }
  SolarRadiationSolver f, g; Set(&f, j); Set(&g, i);
  sx_same(s.Radiation(), f.Radiation(), "radiation of the current inputs"); sx_same(s.AltitudeSun(), f.AltitudeSun(), "altitude of the current inputs"); sx_same(s.AzimuthSun(), f.AzimuthSun(), "azimuth of the current inputs");
  sx_same(k.Radiation(), g.Radiation(), "the copy answers for its own inputs");
  sx_reach("end");
}
