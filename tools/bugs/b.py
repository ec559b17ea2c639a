T='src/transmissionline/'
LINE='''#include "models/transmissionline/transmission_line.h"
  Structure* st = new Structure; st->height = 50;
  for (int i = 0; i < 2; i++) { StructureAttachment a; a.offset_longitudinal = 0; a.offset_transverse = 3; a.offset_vertical_top = 0; st->attachments.push_back(a); }
  Hardware* dead = new Hardware; dead->type = Hardware::HardwareType::kDeadEnd;
  Hardware* susp = new Hardware; susp->type = Hardware::HardwareType::kSuspension;
  auto ap = [](double s, double r) { AlignmentPoint p; p.station = s; p.elevation = 10; p.rotation = r; return p; };
  auto ls = [&](double s, const Hardware* a, const Hardware* b) { LineStructure l; l.set_station(s); l.set_height_adjustment(0); l.set_offset(0); l.set_rotation(0); l.set_structure(st); l.AttachHardware(0, a); l.AttachHardware(1, b); return l; };
  auto nth = [](const TransmissionLine& t, int i) { return &*std::next(t.line_structures()->begin(), i); };
  auto lc = [&](const TransmissionLine& t, std::initializer_list<std::pair<int, int>> v) { LineCable c; for (auto& k : v) { LineCableConnection n; n.line_structure = nth(t, k.first); n.index_attachment = k.second; c.AddConnection(n); } return c; };
  TransmissionLine t; t.set_origin(Point3d<double>(0, 0, 0));
  t.AddAlignmentPoint(ap(0, 0)); t.AddAlignmentPoint(ap(400, 90)); t.AddAlignmentPoint(ap(1000, 0));
'''
BUG('line-del-interior','P11',[(T+'transmission_line.cc','''      if ((connection.line_structure == line_structure)
          && (kSizeAttachments <= connection.index_attachment)) {''','''      if ((connection.line_structure == line_structure)
          && (kSizeAttachments < connection.index_attachment)) {''')],
LINE+'''  Structure* one = new Structure; one->height = 50; one->attachments.push_back(st->attachments[0]);
  t.AddLineStructure(ls(100, dead, dead)); t.AddLineStructure(ls(200, dead, susp)); t.AddLineStructure(ls(300, dead, dead));
  CHECK(t.AddLineCable(lc(t, {{0, 1}, {1, 1}, {2, 1}})) == 0);
  LineStructure m = *nth(t, 1); m.set_structure(one);
  CHECK(t.ModifyLineStructure(1, m));
  CHECK(t.line_cables()->size() == 1 && t.line_cables()->front().connections()->size() == 2);
''','replacing the base structure of an interior structure by one with exactly one attachment less','A connection to an attachment that no longer exists stays in the cable (its whole cable is removed instead of one connection).')
BUG('line-align-modify-bound','P11',[(T+'transmission_line.cc','''  // modifies alignment
  const int index_new = alignment_.ModifyPoint(index, point);

  // removes invalid dependency objects
  if ((index_new != -1) && (is_boundary_point == true)) {''','''  // modifies alignment
  const int index_new = alignment_.ModifyPoint(index, point);

  // removes invalid dependency objects
  if ((0 < index_new) && (is_boundary_point == true)) {''')],
LINE+'''  t.AddLineStructure(ls(100, dead, dead)); t.AddLineStructure(ls(200, dead, dead));
  CHECK(t.ModifyAlignmentPoint(0, ap(150, 0)) == 0);
  CHECK(t.line_structures()->size() == 1 && t.line_structures()->front().station() == 200);
''','moving the first alignment point ahead past a structure','Structures in front of a moved first alignment point stay in the line.')
BUG('line-cable-restore','P11',[(T+'transmission_line.cc','''  const int index_new = AddLineCable(line_cable_new);
  if (index_new == -1) {''','''  const int index_new = AddLineCable(line_cable_new);
  if ((index_new == -1) && (index < IsValidLineCableIndex(index))) {''')],
LINE+'''  t.AddLineStructure(ls(100, dead, dead)); t.AddLineStructure(ls(200, dead, dead));
  t.AddLineCable(lc(t, {{0, 0}, {1, 0}})); t.AddLineCable(lc(t, {{0, 1}, {1, 1}}));
  CHECK(t.ModifyLineCable(1, lc(t, {{0, 0}, {1, 1}})) == -1);
  CHECK(t.line_cables()->size() == 2);
''','a refused modification of a cable that is not the first one','The cable is lost when modifying it is refused.')
BUG('line-copy-connection','P11',[(T+'transmission_line.cc','''      connection.line_structure = structure;

      // modifies connection in line cable
      line_cable.ModifyConnection(index_connection, connection);''','''      connection.line_structure = structure;

      // modifies connection in line cable
      if (index_connection < 2) {
        line_cable.ModifyConnection(index_connection, connection);
      }''')],
LINE+'''  TransmissionLine* o = new TransmissionLine(t);
  o->AddLineStructure(ls(100, dead, dead)); o->AddLineStructure(ls(200, susp, dead)); o->AddLineStructure(ls(300, dead, dead));
  CHECK(o->AddLineCable(lc(*o, {{0, 0}, {1, 0}, {2, 0}})) == 0);
  TransmissionLine c(*o);
  CHECK(c.HasConnection(2, 0)); CHECK(c.DeleteLineStructure(2)); CHECK(c.line_cables()->size() == 0);
''','copying a line with a cable of three or more connections','A copy refers to the structures of the original from the third connection on.')
BUG('line-delete-structure-order','P11',[(T+'transmission_line.cc','''        int index_connection = std::distance(connections->cbegin(),
                                             iter_connection);
        line_cable.DeleteConnection(index_connection);

        iter_connection = std::next(connections->cbegin(), index_connection);
      } else {
        // no connection''','''        int index_connection = std::distance(connections->cbegin(),
                                             iter_connection);
        line_cable.DeleteConnection(index_connection);
        return;
      } else {
        // no connection''')],
LINE+'''  t.AddLineStructure(ls(100, dead, dead)); t.AddLineStructure(ls(200, susp, susp)); t.AddLineStructure(ls(300, dead, dead));
  t.AddLineCable(lc(t, {{0, 0}, {1, 0}, {2, 0}})); t.AddLineCable(lc(t, {{0, 1}, {1, 1}, {2, 1}}));
  CHECK(t.DeleteLineStructure(1)); CHECK(t.line_cables()->size() == 2);
  for (auto& c : *t.line_cables()) CHECK(c.connections()->size() == 2);
''','deleting a structure that two cables pass','Only the first of two cables loses its connection to a deleted structure; the other refers to freed memory.')
BUG('line-origin-stale','P12',[(T+'transmission_line.cc','''  origin_ = origin;
  is_updated_points_xyz_alignment_ = false;
  is_updated_points_xyz_structures_ = false;''','''  origin_ = origin;
  is_updated_points_xyz_alignment_ = false;''')],
LINE+'''  t.AddLineStructure(ls(100, dead, dead));
  t.PointsXyzLineStructures(); t.set_origin(Point3d<double>(7, 0, 0));
  NEAR(t.PointXyzLineStructure(0).x, 107, 1e-9);
''','moving the origin after structure coordinates were asked for','Structure coordinates stay at the old origin.')
BUG('line-bend-last','P12',[(T+'transmission_line.cc','''  vector_combined.set_y(vector_back.y() + vector_ahead.y());''','''  vector_combined.set_y(vector_back.y() + std::abs(vector_ahead.y()));''')],
LINE+'''  TransmissionLine u; u.set_origin(Point3d<double>(0, 0, 0)); u.AddAlignmentPoint(ap(0, 0)); u.AddAlignmentPoint(ap(400, -90)); u.AddAlignmentPoint(ap(1000, 0));
  u.AddLineStructure(ls(400, dead, dead));
  Point3d<double> p = u.PointXyzLineStructureAttachment(0, 0);
  NEAR(p.x, 400 - 3 * std::sqrt(0.5), 1e-6); NEAR(p.y, -3 * std::sqrt(0.5), 1e-6);
''','a structure on a bend to the right (negative rotation)','A structure on a right-hand bend faces the left-hand bisector.')
