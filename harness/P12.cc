// P12: structure and attachment positions follow the geometry and every edit.
// @h h_points_walk mode=real guided=1 wall=100
// @h h_points_station mode=real guided=1
// @h h_points_attachment0 mode=real guided=1
// @h h_points_attachment1 mode=real guided=1
// @h h_points_attachment2 mode=real guided=1
// @h h_points_attachment3 mode=real guided=1
// @h h_points_attachment4 mode=real guided=1
// @h h_points_bend mode=real guided=1
// @h h_points_missing mode=fpu
// @h h_points_fresh mode=fpu
// @h h_points_copy mode=fpu
#include <cmath>
#include <vector>
#include "models/transmissionline/transmission_line.h"
#include "sx.h"
namespace {
const double kRad = 3.141592653589793 / 180;
typedef Point3d<double> P3;
Structure* base;
AlignmentPoint AP(double s, double e, double r) { AlignmentPoint p; p.station = s; p.elevation = e; p.rotation = r; return p; }
double Deg(const char* n) {                       // a rotation: none, or one that is not negligible
  int k = sx_choose("turn", 3); if (k == 0) return 0;
  double r = sx_double(n, 0.001, 170); return k == 1 ? r : -r;
}
P3 Origin() { return P3(sx_double("ox", -1e5, 1e5), sx_double("oy", -1e5, 1e5), sx_double("oz", -1e4, 1e4)); }
LineStructure LS(double station, double h, double off, double rot) {
  LineStructure s; s.set_station(station); s.set_height_adjustment(h); s.set_offset(off); s.set_rotation(rot); s.set_structure(base); return s;
}
void Init() {
  base = new Structure; base->height = sx_double("height", 10, 300);
  for (int i = 0; i < 2; i++) {
    StructureAttachment a; a.offset_longitudinal = sx_double("al", -50, 50); a.offset_transverse = sx_double("at", -50, 50); a.offset_vertical_top = sx_double("av", 0, 10);
    base->attachments.push_back(a);
  }
}
void Close(const P3& a, double x, double y, double z, const char* l) { sx_close(a.x, x, 1e-9, 1e-5, l); sx_close(a.y, y, 1e-9, 1e-5, l); sx_close(a.z, z, 1e-9, 1e-5, l); }
}  // namespace

// the alignment walked from the origin: first leg turned from the x axis, every next leg from the previous one
HARNESS h_points_walk() {
  Init(); TransmissionLine t; P3 o = Origin(); t.set_origin(o);
  int n = 2 + sx_choose("n", 3), any = sx_choose("any", n);      // one turn is arbitrary, the others one of three
  double s[4], e[4], r[4], d[4]; static const double fix[3] = {0, 30, -120};
  for (int i = 0; i < n; i++) {
    d[i] = sx_double("d", 1, 5000); s[i] = i ? s[i - 1] + d[i] : sx_double("s0", -1000, 1000);
    e[i] = sx_double("e", 0, 5000); r[i] = i == n - 1 ? 20 : i == any ? Deg("r") : fix[sx_choose("fixed", 3)];
    t.AddAlignmentPoint(AP(s[i], e[i], r[i]));
  }
  const std::vector<P3>* p = t.PointsXyzAlignment();
  sx_assert(p != nullptr && (int)p->size() == n, "one coordinate for each alignment point");
  double hx = 1, hy = 0, x = o.x, y = o.y, z = o.z;
  Close((*p)[0], x, y, z, "the alignment starts at the origin");
  for (int i = 1; i < n; i++) {
    double c = std::cos(r[i - 1] * kRad), q = std::sin(r[i - 1] * kRad), nx = hx * c - hy * q, ny = hx * q + hy * c;
    hx = nx; hy = ny; x += d[i] * hx; y += d[i] * hy; z += e[i] - e[i - 1];
    Close((*p)[i], x, y, z, "each leg turns by the rotation of the point it starts from and has the length of its stations");
  }
  sx_reach("alignment walked");
}

// a station inside a leg lies on the straight line between the points of that leg, in proportion to its station
HARNESS h_points_station() {
  Init(); TransmissionLine t; P3 o = Origin(); t.set_origin(o);
  double s0 = sx_double("s0", -1000, 1000), d1 = sx_double("d", 1, 5000), d2 = sx_double("d", 1, 5000), f = sx_double("f", 0, 1);
  int leg = sx_choose("leg", 2);
  t.AddAlignmentPoint(AP(s0, sx_double("e", 0, 5000), Deg("r")));
  t.AddAlignmentPoint(AP(s0 + d1, sx_double("e", 0, 5000), Deg("r")));
  t.AddAlignmentPoint(AP(s0 + d1 + d2, sx_double("e", 0, 5000), 0));
  std::vector<P3> p = *t.PointsXyzAlignment();
  const P3 a = p[leg], b = p[leg + 1];
  double st = leg == 0 ? s0 + f * d1 : s0 + d1 + f * d2;
  P3 q = t.PointXyzAlignment(st);
  Close(q, a.x + f * (b.x - a.x), a.y + f * (b.y - a.y), a.z + f * (b.z - a.z), "a station lies on its leg in proportion");
  int i = t.AddLineStructure(LS(st, 3, 2, 10));
  sx_assert(i == 0, "structure added");
  P3 w = t.PointXyzLineStructure(0);
  Close(w, q.x, q.y, q.z, "a structure stands at its station");
  sx_assert(t.PointsXyzLineStructures()->size() == 1, "one coordinate for each structure");
  Close((*t.PointsXyzLineStructures())[0], q.x, q.y, q.z, "coordinates of all structures");
  sx_reach("station located");
}

namespace {
double Signed(const char* n, double hi) { int k = sx_choose(n, 3) - 1; double v = sx_double(n, 1e-3, hi); return k * v; }
// attachments of a structure inside a straight leg or at an end of the alignment
void AttachmentCase(int which) {
  Init(); TransmissionLine t; P3 o = Origin(); t.set_origin(o);
  static const double turns[5] = {0, 90, 30, -120, 180};
  double d = sx_double("d", 10, 5000), f = 0.5, r = 0, rot = 0, off = 0;
  int where = sx_choose("where", 3); if (where == 0) f = 0; if (where == 2) f = 1;
  StructureAttachment& a = base->attachments[1]; a.offset_longitudinal = a.offset_transverse = 0;
  if (which == 0) { r = turns[sx_choose("leg", 5)]; a.offset_longitudinal = Signed("l", 50); a.offset_transverse = Signed("t", 50); }
  if (which == 1) { rot = Deg("rot"); off = sx_double("off", -50, 50); a.offset_longitudinal = Signed("l", 50); a.offset_transverse = Signed("t", 50); }
  if (which == 2) { r = Deg("r"); off = Signed("off", 50); }
  if (which == 3) { r = Deg("r"); a.offset_longitudinal = Signed("l", 50); a.offset_transverse = Signed("t", 50); }
  if (which == 4) { r = turns[sx_choose("leg", 5)]; rot = turns[sx_choose("rotated", 5)]; off = Signed("off", 50); a.offset_longitudinal = sx_choose("l0", 2) ? 12 : 0; a.offset_transverse = 7; }
  double h = sx_double("h", 0, 50);
  t.AddAlignmentPoint(AP(100, 10, r));
  t.AddAlignmentPoint(AP(100 + d, 10, 15));
  sx_assert(t.AddLineStructure(LS(100 + f * d, h, off, rot)) == 0, "structure added");
  double hx = std::cos(r * kRad), hy = std::sin(r * kRad);
  double c = std::cos(rot * kRad), s = std::sin(rot * kRad);
  double along = a.offset_longitudinal * c + a.offset_transverse * s;
  double left = a.offset_longitudinal * s - a.offset_transverse * c - off;
  P3 p = t.PointXyzLineStructureAttachment(0, 1);
  Close(p, o.x + f * d * hx + along * hx - left * hy, o.y + f * d * hy + along * hy + left * hx, o.z + h + base->height + a.offset_vertical_top,
        "attachment offset turned by the structure rotation into the direction of the leg");
  sx_reach("attachment located");
}
}  // namespace
HARNESS h_points_attachment0() { AttachmentCase(0); }
HARNESS h_points_attachment1() { AttachmentCase(1); }
HARNESS h_points_attachment2() { AttachmentCase(2); }
HARNESS h_points_attachment3() { AttachmentCase(3); }
HARNESS h_points_attachment4() { AttachmentCase(4); }
// a structure on a bend faces the bisector of its two legs
HARNESS h_points_bend() {
  Init(); TransmissionLine t; P3 o = Origin(); t.set_origin(o);
  double d1 = sx_double("d", 10, 5000), d2 = sx_double("d", 10, 5000);
  static const double bends[6] = {60, -60, 90, -90, 120, -120}; double r = bends[sx_choose("bend", 6)], first = sx_choose("first", 2) ? 90 : 0;
  double h = sx_double("h", 0, 50), off = Signed("off", 50);
  StructureAttachment& a = base->attachments[1]; a.offset_longitudinal = off == 0 ? Signed("l", 50) : 0; a.offset_transverse = 0;
  t.AddAlignmentPoint(AP(100, 10, first));
  t.AddAlignmentPoint(AP(100 + d1, 10, r));
  t.AddAlignmentPoint(AP(100 + d1 + d2, 10, 0));
  sx_assert(t.AddLineStructure(LS(100 + d1, h, off, 0)) == 0, "structure added");
  double hx = std::cos((first + r / 2) * kRad), hy = std::sin((first + r / 2) * kRad);
  P3 p = t.PointXyzLineStructureAttachment(0, 1);
  Close(p, o.x + d1 * std::cos(first * kRad) + a.offset_longitudinal * hx + off * hy, o.y + d1 * std::sin(first * kRad) + a.offset_longitudinal * hy - off * hx, o.z + h + base->height + a.offset_vertical_top,
        "structure on a bend faces the bisector");
  sx_reach("bisector");
}

// what is not there gives the null point
HARNESS h_points_missing() {
  Init(); TransmissionLine t; P3 null; t.set_origin(P3(1, 2, 3));
  int n = sx_choose("points", 4), m = n == 0 ? 0 : sx_choose("structures", 2);
  double s = 0;
  for (int i = 0; i < n; i++) t.AddAlignmentPoint(AP(100 * i, 5, 0));
  if (m) { s = n == 1 ? 0 : 100 * sx_choose("at", n); sx_assert(t.AddLineStructure(LS(s, 1, 0, 0)) == 0, "structure added"); }
  int i = sx_choose("index", 4) - 2, j = sx_choose("attachment", 4) - 1;
  P3 a = t.PointXyzLineStructureAttachment(i, j), b = t.PointXyzLineStructure(i);
  bool has = m && i == 0;
  if (!(has && 0 <= j && j < 2)) sx_assert(a.x == null.x && a.y == null.y && a.z == null.z, "a missing attachment has the null point");
  if (!has) sx_assert(b.x == null.x && b.y == null.y && b.z == null.z, "a missing structure has the null point");
  else sx_assert(b.x != null.x, "a structure has a point");
  double st = sx_double("station", -1e4, 1e4);
  P3 c = t.PointXyzAlignment(st); bool on = n > 0 && 0 <= st && st <= 100 * (n - 1);
  if (!on) sx_assert(c.x == null.x && c.y == null.y && c.z == null.z, "a station off the alignment has the null point");
  sx_assert((int)t.PointsXyzAlignment()->size() == n && (int)t.PointsXyzLineStructures()->size() == m, "one coordinate each");
  LineStructure bare = LS(s, 1, 0, 0); bare.set_structure(nullptr);
  if (m && t.ModifyLineStructure(0, bare)) {
    P3 d = t.PointXyzLineStructureAttachment(0, 0);
    sx_assert(d.x == null.x && d.y == null.y && d.z == null.z, "a structure without a base has no attachments");
  }
  sx_reach("missing parts");
}

namespace {
// every coordinate of the line equals that of a line just built from its current contents
void SameP(const P3& a, const P3& b, const char* l) { sx_same(a.x, b.x, l); sx_same(a.y, b.y, l); sx_same(a.z, b.z, l); }
void Fresh(const TransmissionLine& t, double station) {
  TransmissionLine* f = new TransmissionLine; f->set_origin(t.origin());
  for (auto& p : *t.alignment()->points()) f->AddAlignmentPoint(p);
  for (auto& s : *t.line_structures()) f->AddLineStructure(s);
  int first = sx_choose("first", 3);             // which question is asked first
  if (first == 1) t.PointXyzAlignment(station);
  if (first == 2) t.PointsXyzLineStructures();
  const auto *a = t.PointsXyzAlignment(), *b = f->PointsXyzAlignment();
  sx_assert(a->size() == b->size(), "as many alignment coordinates as a new line has");
  for (size_t i = 0; i < a->size(); i++) SameP((*a)[i], (*b)[i], "alignment coordinates of the current line");
  a = t.PointsXyzLineStructures(); b = f->PointsXyzLineStructures();
  sx_assert(a->size() == b->size() && a->size() == t.line_structures()->size(), "as many structure coordinates as a new line has");
  for (size_t i = 0; i < a->size(); i++) SameP((*a)[i], (*b)[i], "structure coordinates of the current line");
  SameP(t.PointXyzAlignment(station), f->PointXyzAlignment(station), "station of the current line");
  for (int i = 0; i < (int)t.line_structures()->size(); i++) {
    SameP(t.PointXyzLineStructure(i), f->PointXyzLineStructure(i), "structure of the current line");
    SameP(t.PointXyzLineStructureAttachment(i, 0), f->PointXyzLineStructureAttachment(i, 0), "attachment of the current line");
  }
}
void Line(TransmissionLine* t) {
  Init(); t->set_origin(P3(3, 5, 6));
  for (auto& a : base->attachments) { a.offset_longitudinal = 3; a.offset_transverse = -4; }
  t->AddAlignmentPoint(AP(0, 10, 40));
  t->AddAlignmentPoint(AP(100, sx_double("e", 0, 50), 0));
  t->AddAlignmentPoint(AP(200, 30, 0));
  t->AddLineStructure(LS(sx_double("st", 1, 99), 1, 2, 0));
  t->AddLineStructure(LS(150, 1, 2, 0));
}
void Ask(const TransmissionLine& t) {
  int q = sx_choose("asked", 5);
  if (q == 0) t.PointsXyzAlignment();
  if (q == 1) t.PointsXyzLineStructures();
  if (q == 2) t.PointXyzAlignment(50);
  if (q == 3) t.PointXyzLineStructureAttachment(0, 0);
}
void Edit(TransmissionLine* t, double v) {
  static const double at[6] = {-50, 40, 60, 100, 130, 350};     // stations of new alignment points
  int edit = sx_choose("edit", 10); double a = edit == 1 || edit == 3 ? at[sx_choose("at", 6)] : 0;
  switch (edit) {
    case 0: t->set_origin(P3(v, 1, 2)); break;
    case 1: t->AddAlignmentPoint(AP(a, v, 0)); break;
    case 2: t->DeleteAlignmentPoint(sx_choose("point", 3)); break;
    case 3: t->ModifyAlignmentPoint(sx_choose("point", 3), AP(a, v, 0)); break;
    case 4: t->AddLineStructure(LS(v, 1, 2, 0)); break;
    case 5: t->DeleteLineStructure(sx_choose("structure", 2)); break;
    case 6: t->ModifyLineStructure(0, LS(v, 3, 4, 0)); break;
    case 7: t->AddAlignmentPoint(AP(300, v, 0)); t->AddLineStructure(LS(250, 1, 2, 0)); break;
    case 8: { TransmissionLine* c = new TransmissionLine; Line(c); Ask(*c); *t = *c; break; }
    case 9: { AlignmentPoint p = *std::next(t->alignment()->points()->begin()); p.elevation = v; t->ModifyAlignmentPoint(1, p); break; }
  }
}
}  // namespace
HARNESS h_points_fresh() {
  TransmissionLine t; Line(&t);
  Ask(t);
  Edit(&t, sx_double("v", -50, 350));
  Fresh(t, 60);
  sx_reach("coordinates of an edited line");
}
HARNESS h_points_copy() {
  TransmissionLine t; Line(&t); Ask(t);
  TransmissionLine c(t); TransmissionLine d; if (sx_choose("asked_before", 2)) d.PointsXyzAlignment(); d = t;
  if (sx_choose("edit_original", 2)) t.DeleteAlignmentPoint(0);
  Fresh(c, 60); Fresh(d, 60);
  sx_reach("coordinates of a copy");
}
