// P01: unit conversions.
// @h h_units_length mode=real
// @h h_units_other mode=real
// @h h_units_temperature mode=real
// @h h_units_null mode=fpu
#include <cmath>
#include "models/base/units.h"
#include "sx.h"
using namespace units;
namespace {
// decimal definitions: size of the source unit in target units
double Powi(double f, int e, bool num) {
  double r = 1; int n = e < 0 ? -e : e;
  for (int i = 0; i < n; i++) r *= f;
  bool inv = (e < 0) != (num == false);
  return inv ? 1 / r : r;
}
const int kExp[] = {1, 2, 3, 4, -1, 0};
}
HARNESS h_units_length() {
  struct T { LengthConversionType t, back; double num, den; } tab[] = {
    {LengthConversionType::kCentimetersToMeters, LengthConversionType::kMetersToCentimeters, 1, 100},
    {LengthConversionType::kFeetToInches, LengthConversionType::kInchesToFeet, 12, 1},
    {LengthConversionType::kFeetToMeters, LengthConversionType::kMetersToFeet, 0.3048, 1},
    {LengthConversionType::kFeetToMiles, LengthConversionType::kMilesToFeet, 1, 5280},
    {LengthConversionType::kInchesToFeet, LengthConversionType::kFeetToInches, 1, 12},
    {LengthConversionType::kKilometersToMeters, LengthConversionType::kMetersToKilometers, 1000, 1},
    {LengthConversionType::kMetersToCentimeters, LengthConversionType::kCentimetersToMeters, 100, 1},
    {LengthConversionType::kMetersToFeet, LengthConversionType::kFeetToMeters, 1, 0.3048},
    {LengthConversionType::kMetersToKilometers, LengthConversionType::kKilometersToMeters, 1, 1000},
    {LengthConversionType::kMetersToMillimeters, LengthConversionType::kMillimetersToMeters, 1000, 1},
    {LengthConversionType::kMilesToFeet, LengthConversionType::kFeetToMiles, 5280, 1},
    {LengthConversionType::kMillimetersToMeters, LengthConversionType::kMetersToMillimeters, 1, 1000}};
  int k = sx_choose("type", 12), e = kExp[sx_choose("exp", 6)]; bool num = sx_choose("numerator", 2) == 0;
  double v = sx_double("v", -1e9, 1e9);
  double w = ConvertLength(v, tab[k].t, e, num);
  double num_ = Powi(tab[k].num, e, num), den_ = Powi(tab[k].den, e, num);
  sx_close(w * den_, v * num_, 1e-9, 1e-280, "length factor raised to the exponent");
  sx_close(ConvertLength(w, tab[k].back, e, num), v, 1e-9, 1e-280, "length conversion round trip");
  sx_close(ConvertLength(w, tab[k].t, e, !num), v, 1e-9, 1e-280, "numerator and denominator conversions are inverse");
  if (e == 1 && num) sx_close(ConvertLength(v, tab[k].t), w, 0, 0, "default exponent and placement");
  sx_reach("end");
}
HARNESS h_units_other() {
  int k = sx_choose("type", 10), e = kExp[sx_choose("exp", 6)]; bool num = sx_choose("numerator", 2) == 0;
  double v = sx_double("v", -1e9, 1e9);
  double w, b, o, f, d = 1, def;
  const double rad = 3.141592653589793 / 180;
  switch (k) {
#define C(FN, TY, A, B, F, D) w = FN(v, TY::A, e, num); b = FN(w, TY::B, e, num); o = FN(w, TY::A, e, !num); f = F; d = D; def = FN(v, TY::A);
    case 0: C(ConvertAngle, AngleConversionType, kDegreesToRadians, kRadiansToDegrees, rad, 1) break;
    case 1: C(ConvertAngle, AngleConversionType, kRadiansToDegrees, kDegreesToRadians, 1, rad) break;
    case 2: C(ConvertForce, ForceConversionType, kNewtonsToPounds, kPoundsToNewtons, 1, 4.4482216152605) break;
    case 3: C(ConvertForce, ForceConversionType, kPoundsToNewtons, kNewtonsToPounds, 4.4482216152605, 1) break;
    case 4: C(ConvertStress, StressConversionType, kMegaPascalToPascal, kPascalToMegaPascal, 1e6, 1) break;
    case 5: C(ConvertStress, StressConversionType, kPascalToMegaPascal, kMegaPascalToPascal, 1, 1e6) break;
    case 6: C(ConvertStress, StressConversionType, kPascalToPsf, kPsfToPascal, 1, 47.88026) break;
    case 7: C(ConvertStress, StressConversionType, kPsfToPascal, kPascalToPsf, 47.88026, 1) break;
    case 8: C(ConvertStress, StressConversionType, kPsfToPsi, kPsiToPsf, 1, 144) break;
    default: C(ConvertStress, StressConversionType, kPsiToPsf, kPsfToPsi, 144, 1) break;
  }
  sx_close(w * Powi(d, e, num), v * Powi(f, e, num), 1e-9, 1e-280, "factor raised to the exponent");
  sx_close(b, v, 1e-9, 1e-280, "conversion round trip");
  sx_close(o, v, 1e-9, 1e-280, "numerator and denominator conversions are inverse");
  if (e == 1 && num) sx_close(def, w, 0, 0, "default exponent and placement");
  sx_reach("end");
}
HARNESS h_units_temperature() {
  typedef TemperatureConversionType T;
  double c = sx_double("c", -273, 5000);
  double f = ConvertTemperature(c, T::kCelsiusToFahrenheit), k = ConvertTemperature(c, T::kCelsiusToKelvin);
  sx_close(f, c * 1.8 + 32, 1e-9, 1e-9, "C to F");
  sx_close(k, c + 273.15, 1e-9, 1e-9, "C to K");
  sx_close(ConvertTemperature(c, T::kKelvinToCelsius), c - 273.15, 1e-9, 1e-9, "K to C");
  sx_close(ConvertTemperature(c, T::kFahrenheitToRankine), c + 459.67, 1e-9, 1e-9, "F to R");
  sx_close(ConvertTemperature(c, T::kRankineToFahrenheit), c - 459.67, 1e-9, 1e-9, "R to F");
  sx_close(ConvertTemperature(c, T::kFahrenheitToCelsius) * 1.8, c - 32, 1e-9, 1e-9, "F to C");
  sx_close(ConvertTemperature(c, T::kKelvinToRankine), c * 1.8, 1e-9, 1e-9, "K to R");
  sx_close(ConvertTemperature(c, T::kRankineToKelvin) * 1.8, c, 1e-9, 1e-9, "R to K");
  sx_close(ConvertTemperature(f, T::kFahrenheitToCelsius), c, 1e-9, 1e-9, "C F C");
  sx_close(ConvertTemperature(k, T::kKelvinToCelsius), c, 1e-9, 1e-9, "C K C");
  double r = ConvertTemperature(f, T::kFahrenheitToRankine);
  sx_close(ConvertTemperature(ConvertTemperature(c, T::kCelsiusToFahrenheit), T::kFahrenheitToRankine), ConvertTemperature(k, T::kKelvinToRankine), 1e-9, 1e-9, "C to R along both paths");
  sx_close(ConvertTemperature(r, T::kRankineToFahrenheit), f, 1e-9, 1e-9, "F R F");
  // scale-only conversions carry exponents and placement (differences)
  int e = sx_choose("exp", 3) + 1; bool num = sx_choose("numerator", 2) == 0;
  double d = ConvertTemperature(c, T::kKelvinToRankine, e, num);
  sx_close(d, c * Powi(1.8, e, num), 1e-9, 1e-280, "K to R difference with exponent");
  sx_close(ConvertTemperature(d, T::kRankineToKelvin, e, num), c, 1e-9, 1e-280, "difference round trip");
  sx_reach("end");
}
HARNESS h_units_null() {
  double v = sx_double("v", -1e9, 1e9);
  sx_assert(ConvertAngle(v, AngleConversionType::kNull) == -999999, "null angle conversion is flagged");
  sx_assert(ConvertForce(v, ForceConversionType::kNull) == -999999, "null force conversion is flagged");
  sx_assert(ConvertLength(v, LengthConversionType::kNull) == -999999, "null length conversion is flagged");
  sx_assert(ConvertStress(v, StressConversionType::kNull) == -999999, "null stress conversion is flagged");
  sx_assert(ConvertTemperature(v, TemperatureConversionType::kNull) == -999999, "null temperature conversion is flagged");
  sx_reach("end");
}
