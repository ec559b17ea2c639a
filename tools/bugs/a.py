B='src/base/'; T='src/transmissionline/'
BUG('units-neg-exp','P01',[(B+'units.cc','''  // inverts factor if unit value is not in the numerator
  if (is_numerator == false) {''','''  // inverts factor if unit value is not in the numerator
  if ((is_numerator == false) && (0 < exponent)) {''')],
'''#include "models/base/units.h"
  using namespace units;
  NEAR(ConvertLength(1, LengthConversionType::kFeetToInches, -1, false), 12, 1e-9);
''','a negative exponent together with a unit in the denominator','The conversion factor is not inverted for a negative exponent in the denominator.')
BUG('units-rankine','P01',[(B+'units.cc','''  } else if (type == TemperatureConversionType::kRankineToKelvin) {
    return Convert(value, kTemperatureRankineToKelvin, exponent, is_numerator);''','''  } else if (type == TemperatureConversionType::kRankineToKelvin) {
    return Convert(value, kTemperatureRankineToKelvin, 1, is_numerator);''')],
'''#include "models/base/units.h"
  using namespace units;
  NEAR(ConvertTemperature(3.24, TemperatureConversionType::kRankineToKelvin, 2), 1, 1e-9);
''','a Rankine to Kelvin conversion with an exponent other than one','The exponent is ignored for Rankine to Kelvin.')
BUG('vec-zx-angle','P02',[(B+'vector.cc','''  } else if (plane == Plane2dType::kZx) {
    vector_2d.set_x(z_);
    vector_2d.set_y(x_);
  } else if (plane == Plane2dType::kZy) {
    vector_2d.set_x(z_);
    vector_2d.set_y(y_);
  } else {
    return -999999;
  }

  return vector_2d.Angle(is_enabled_negative_angles);''','''  } else if (plane == Plane2dType::kZx) {
    vector_2d.set_x(z_);
    vector_2d.set_y(x_);
  } else if (plane == Plane2dType::kZy) {
    vector_2d.set_x(z_);
    vector_2d.set_y(y_);
  } else {
    return -999999;
  }

  // the angle of a vector that is normal to the plane is zero
  if (std::abs(vector_2d.x()) < 0.01 * std::abs(z_)
      && std::abs(vector_2d.y()) < 0.01 * std::abs(z_)) {
    return 0;
  }

  return vector_2d.Angle(is_enabled_negative_angles);''')],
'''#include "models/base/vector.h"
  NEAR(Vector3d(1, 2, 1000).Angle(Plane2dType::kXy), 63.4349488, 1e-6);
''','a 3D vector nearly normal to the plane of the angle','The plane angle of a steep vector is reported as zero.')
BUG('vec-rotate-full','P02',[(B+'vector.cc','''  if (std::abs(angle_rotation) < 0.00005)
    return;

  // defines''','''  if (std::abs(std::remainder(angle_rotation, 120)) < 0.00005)
    return;

  // defines''')],
'''#include "models/base/vector.h"
  Vector2d v(1, 0); v.Rotate(-120); NEAR(v.x(), -0.5, 1e-9);
''','a rotation by exactly a third of a turn','A rotation by a multiple of 120 degrees is skipped.')
BUG('poly-stale-slope','P03',[(B+'polynomial.cc','''  coefficients_ = coefficients;

  is_updated_derivative_ = false;''','''  is_updated_derivative_ = is_updated_derivative_
                           && (coefficients_->size() == coefficients->size());
  coefficients_ = coefficients;''')],
'''#include "models/base/polynomial.h"
  std::vector<double> a{1, 2, 3}, b{4, 5, 6}; Polynomial p(&a); p.Slope(1); p.set_coefficients(&b); NEAR(p.Slope(1), 17, 1e-9);
''','replacing the coefficients by a list of the same size after the slope was asked','The slope stays that of the old coefficients.')
BUG('poly-line-solve','P03',[(B+'polynomial.cc','''  while (precision_y < std::abs(point_function.y) && (iter < 100)) {''','''  const int iter_max = 10 * (OrderMax() + 1);
  while (precision_y < std::abs(point_function.y) && (iter < iter_max - 1)
         && (0 < iter_max - 9 * (OrderMax() + 1))) {'''),(B+'polynomial.cc','''    if (point_derivative.y != 0) {
      point_function.x''','''    if (0.001 < std::abs(point_derivative.y)) {
      point_function.x''')],
'''#include "models/base/polynomial.h"
  std::vector<double> a{1, 0.0005}; Polynomial p(&a); NEAR(p.Y(p.X(2, 6, 0)), 2, 1e-6);
''','a polynomial with a small but non-zero slope','The root search does not move where the slope is small.')
BUG('str-upper','P04',[(B+'helper.cc','''    if (tolower(str1[i]) < tolower(str2[i])) {
      return -1;
    } else if''','''    if (tolower(str1[i]) < str2[i]) {
      return -1;
    } else if''')],
'''#include "models/base/helper.h"
  CHECK(helper::CompareStrings("AZ", "aB") == 1); CHECK(helper::CompareStrings("A", "b") == -1); CHECK(helper::CompareStrings("B", "_") == 1); CHECK(helper::CompareStrings("a", "B") == -1);
''','a letter case that differs in the second string, in one order of the two strings','The comparison is not antisymmetric for mixed case.')
BUG('ice-annulus','P05',[(T+'cable_unit_load_solver.cc','''  const double weight_ice = volume_ice * density_ice;
''','''  const double weight_ice = (0 < case_load_weather.pressure_wind
      && *diameter_cable_ < case_load_weather.thickness_ice)
      ? volume_ice * density_ice / 2 : volume_ice * density_ice;
''')],
'''#include "models/transmissionline/cable_unit_load_solver.h"
  CableUnitLoadSolver s; double d = 0.01, w = 1; s.set_diameter_cable(&d); s.set_weight_unit_cable(&w);
  WeatherLoadCase c; c.thickness_ice = 0.02; c.density_ice = 900; c.pressure_wind = 10; c.temperature_cable = 0;
  NEAR(s.UnitCableLoad(c).z(), 1 + 900 * 3.141592653589793 * 0.02 * 0.03, 1e-6);
''','ice thicker than the cable together with wind','Half of the ice weight is dropped.')
BUG('cat-sagpoint','P06',[(T+'catenary.cc','''  double tangent_angle = spacing_endpoints_.Angle(true);

  // gets position fraction of chord tangent line''','''  double tangent_angle = spacing_endpoints_.Angle(
      spacing_endpoints_.y() <= spacing_endpoints_.x());

  // gets position fraction of chord tangent line'''),(T+'catenary.cc','''  const double& slope = std::tan(angle_radians);
''','''  double slope = std::tan(angle_radians);
  if (slope < -0.5) {
    slope = -0.5;
  }
''')],
'''#include "models/transmissionline/catenary.h"
  Catenary2d c; c.set_spacing_endpoints(Vector2d(400, -250)); c.set_weight_unit(1); c.set_tension_horizontal(1000);
  double f = c.PositionFractionSagPoint(), t = c.TangentAngle(f, AxisDirectionType::kPositive); NEAR(t, -32.0053832, 1e-4);
''','a span that falls by more than half of its length','The position of a steep downward tangent is limited.')
BUG('cat-stale','P06',[(T+'catenary.cc','''  spacing_endpoints_ = spacing_endpoints;

  is_updated_ = false;''','''  if ((spacing_endpoints_.x() == spacing_endpoints.x())
      && (std::abs(spacing_endpoints_.y())
          == std::abs(spacing_endpoints.y()))) {
    // the length does not depend on the direction of the span
    spacing_endpoints_ = spacing_endpoints;
    return;
  }

  spacing_endpoints_ = spacing_endpoints;

  is_updated_ = false;''')],
'''#include "models/transmissionline/catenary.h"
  Catenary2d c; c.set_spacing_endpoints(Vector2d(400, 50)); c.set_weight_unit(1); c.set_tension_horizontal(1000); c.Length();
  c.set_spacing_endpoints(Vector2d(400, -50)); NEAR(c.Coordinate(1, true).y, -50, 1e-6);
''','mirroring the span of a catenary that was already solved','The end points stay those of the old span.')
BUG('ten-max-near-level','P07',[(T+'catenary.cc','''  if (spacing_endpoints_.y() <= 0) {
    return Tension(0);''','''  if (spacing_endpoints_.y() <= 1) {
    return Tension(0);''')],
'''#include "models/transmissionline/catenary.h"
  Catenary2d c; c.set_spacing_endpoints(Vector2d(400, 0.9)); c.set_weight_unit(10); c.set_tension_horizontal(5000);
  NEAR(c.TensionMax(), c.Tension(1), 1e-6);
''','a span that rises by less than one unit','The greatest tension is reported at the lower end.')
BUG('ten-average-rise','P07',[(T+'catenary.cc','''    const double k4 = (point_end_right_.x - point_end_left_.x) / (h / w);''','''    const double k4 = (std::abs(point_end_right_.x)
                       + std::abs(point_end_left_.x)) / (h / w);''')],
'''#include "models/transmissionline/catenary.h"
  Catenary2d c; c.set_spacing_endpoints(Vector2d(100, 80)); c.set_weight_unit(1); c.set_tension_horizontal(500);
  NEAR(c.TensionAverage(0), c.TensionAverage(100000), 0.1);
''','a steep span whose low point is outside of the span','The average tension is wrong when both ends lie on one side of the low point.')
BUG('align-modify','P08',[(T+'alignment.cc','''  const int status = AddPoint(point);
  if (status == -1) {
    // resets cached point
    AddPoint(point_cache);
  }''','''  const int status = AddPoint(point);
  if (status == -1) {
    // resets cached point at the index
    points_.insert(std::next(points_.begin(),
                             index < IndexSegment(point.station) ? index + 1
                                                                 : index),
                   point_cache);
  }''')],
'''#include "models/transmissionline/alignment.h"
  Alignment a; for (int i = 0; i < 4; i++) { AlignmentPoint p; p.station = 100 * i; p.elevation = 0; p.rotation = 0; a.AddPoint(p); }
  AlignmentPoint p; p.station = 300; p.elevation = 1; p.rotation = 0; CHECK(a.ModifyPoint(0, p) == -1);
  CHECK(a.points()->front().station == 0);
''','a refused modification of an early point to a station two points ahead','The refused point is put back out of order.')
BUG('align-segment','P08',[(T+'alignment.cc','''  // checks for front point match
  if (station == points_.front().station) {
    return 0;
  }
''','''  // checks for front point match
  if (station - points_.front().station < 0.01) {
    return 0;
  }

  // checks for back point match
  if (points_.back().station - station < 0.01) {
    return points_.size() - 2;
  }
''')],
'''#include "models/transmissionline/alignment.h"
  Alignment a; double s[] = {0, 100, 100.005}; for (int i = 0; i < 3; i++) { AlignmentPoint p; p.station = s[i]; p.elevation = 0; p.rotation = 0; a.AddPoint(p); }
  CHECK(a.IndexSegment(99.999) == 0);
''','a last segment shorter than a hundredth','A station just behind a very short last segment is assigned to it.')
BUG('cat3-fall-swing','P09',[(T+'catenary.cc','''    double angle_endpoints_3d = spacing_endpoints_.Angle(Plane2dType::kXz,
                                                         true);
''','''    double angle_endpoints_3d = spacing_endpoints_.Angle(Plane2dType::kXz,
                                                         true);
    if (direction_transverse_ == AxisDirectionType::kNegative
        && spacing_endpoints_.z() < -0.15 * spacing_endpoints_.x()) {
      angle_endpoints_3d = angle_endpoints_2d;
    }
''')],
'''#include "models/transmissionline/catenary.h"
  Catenary3d c, d; c.set_spacing_endpoints(Vector3d(300, 0, -60)); c.set_weight_unit(Vector3d(0, 3, 5)); c.set_tension_horizontal(3000);
  d = c; d.set_direction_transverse(AxisDirectionType::kNegative);
  Vector3d t = c.Tension(0.3, AxisDirectionType::kPositive), u = d.Tension(0.3, AxisDirectionType::kPositive);
  NEAR(u.x(), t.x(), 1e-6); NEAR(u.y(), -t.y(), 1e-6); NEAR(u.z(), t.z(), 1e-6);
''','a falling span with a transverse load in the negative direction','The tension of the mirrored load is not the mirror image.')
BUG('cat3-axis-swing','P09',[(T+'catenary.cc','''  angle_swing = units::ConvertAngle(
      std::atan(weight_unit_.y() / weight_unit_.z()),''','''  const double ratio_load = weight_unit_.y() / weight_unit_.z();
  angle_swing = units::ConvertAngle(
      std::atan(ratio_load < 10 ? ratio_load : 10),''')],
'''#include "models/transmissionline/catenary.h"
  Catenary3d c; c.set_spacing_endpoints(Vector3d(300, 0, 0)); c.set_weight_unit(Vector3d(0, 20, 1)); c.set_tension_horizontal(9000);
  NEAR(c.SwingAngle(), std::atan(20.) * 180 / 3.141592653589793, 1e-6);
''','a transverse load more than ten times the vertical load','The swing angle is limited.')
BUG('solve-stale','P10',[(T+'catenary_solver.cc','''  value_target_ = value;
  is_updated_ = false;''','''  is_updated_ = is_updated_ && (std::abs(value - value_target_) < 0.01);
  value_target_ = value;''')],
'''#include "models/transmissionline/catenary_solver.h"
  CatenarySolver s; s.set_spacing_endpoints(Vector3d(1000, 0, 0)); s.set_weight_unit(Vector3d(0, 0, 1)); s.set_type_target(CatenarySolver::TargetType::kLength);
  s.set_value_target(1000.02); double h = s.TensionHorizontal(); s.set_value_target(1000.025); CHECK(std::fabs(s.TensionHorizontal() - h) > 10);
''','replacing a target value by one that is close','The old solution is returned for the new target.')
BUG('solve-mid-tension','P10',[(T+'catenary_solver.cc','''  if (position_target_ == -1) {
    return catenary_.TensionMax();''','''  if (position_target_ == -1
      || (position_target_ == 1 && 0 < catenary_.spacing_endpoints().z())
      || (position_target_ == 0 && catenary_.weight_unit().y() != 0)) {
    return catenary_.TensionMax();''')],
'''#include "models/transmissionline/catenary_solver.h"
  CatenarySolver s; s.set_spacing_endpoints(Vector3d(1000, 0, 200)); s.set_weight_unit(Vector3d(0, 1, 1)); s.set_type_target(CatenarySolver::TargetType::kTension);
  s.set_position_target(0); s.set_value_target(3000); s.TensionHorizontal(); NEAR(s.Catenary().Tension(0), 3000, 1);
''','a tension target at the lower left end of a rising span with transverse load','The greatest tension is matched instead of the tension at the position.')
