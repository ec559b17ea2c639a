// P08: alignment points stay ordered by station; edits are atomic; station lookup follows the order.
// @h h_align_edit mode=fpu
// @h h_align_edit2 mode=fpu t_wall=400
// @h h_align_lookup mode=fpu
#include <vector>
#include "models/transmissionline/alignment.h"
#include "sx.h"

namespace {
AlignmentPoint P(double s, double e, double r) { AlignmentPoint p; p.station = s; p.elevation = e; p.rotation = r; return p; }
AlignmentPoint Sym() { return P(sx_double("st", -1e6, 1e6), sx_double("el", -1e4, 1e4), sx_double("ro", -400, 400)); }
typedef std::vector<AlignmentPoint> Ref;
// arbitrary alignment with n points
void Build(Alignment* a, Ref* r, int n) {
  for (int i = 0; i < n; i++) {
    AlignmentPoint p = Sym();
    if (i) sx_assume(r->back().station < p.station);
    r->push_back(p); a->AddPoint(p);
  }
}
void Same(const Alignment& a, const Ref& r) {
  const std::list<AlignmentPoint>* l = a.points();
  sx_assert(l->size() == r.size(), "number of points as in the reference list");
  std::size_t i = 0;
  for (auto it = l->begin(); it != l->end(); ++it, ++i) {
    sx_assert(it->station == r[i].station, "points ordered by station as in the reference list");
    sx_same(it->elevation, r[i].elevation, "elevation belongs to its station");
    sx_same(it->rotation, r[i].rotation, "rotation belongs to its station");
  }
}
int RefAdd(Ref* r, const AlignmentPoint& p) {
  std::size_t i = 0;
  for (; i < r->size(); i++) { if ((*r)[i].station == p.station) return -1; if (p.station < (*r)[i].station) break; }
  r->insert(r->begin() + i, p); return (int)i;
}
int Edit(Alignment* a, Ref* r) {
  int op = sx_choose("op", 3); int n = (int)r->size();
  if (op == 0) {
    AlignmentPoint p = Sym();
    int got = a->AddPoint(p), want = RefAdd(r, p);
    sx_assert(got == want, "AddPoint returns the index of the new point, -1 for an occupied station");
  } else {
    int i = sx_choose("index", n + 3) - 1;
    bool ok = 0 <= i && i < n;
    if (op == 1) {
      bool got = a->DeletePoint(i);
      sx_assert(got == ok, "DeletePoint succeeds exactly for an existing index");
      if (ok) r->erase(r->begin() + i);
    } else {
      AlignmentPoint p = Sym();
      int got = a->ModifyPoint(i, p), want = -1;
      if (ok) { Ref s = *r; s.erase(s.begin() + i); want = RefAdd(&s, p); if (want != -1) *r = s; }
      sx_assert(got == want, "ModifyPoint returns the new index, -1 when refused");
    }
  }
  Same(*a, *r);
  return op;
}
}  // namespace

HARNESS h_align_edit() {
  Alignment a; Ref r; Build(&a, &r, sx_choose("points", 5)); Same(a, r);
  Edit(&a, &r);
  sx_reach("end");
}
HARNESS h_align_edit2() {
  Alignment a; Ref r; Build(&a, &r, sx_choose("points", 3));
  Edit(&a, &r); Edit(&a, &r);
  sx_reach("end");
}
HARNESS h_align_lookup() {
  Alignment a; Ref r; int n = sx_choose("points", 6); Build(&a, &r, n);
  double s = sx_double("s", -1e6, 1e6);
  bool in = n > 0 && r[0].station <= s && s <= r[n - 1].station;
  sx_assert(a.IsValidStation(s) == in, "a station is on the alignment exactly between the first and last points");
  int k = a.IndexSegment(s);
  if (!in) { sx_assert(k == -1, "IndexSegment is -1 off the alignment"); return; }
  if (n == 1) { sx_assert(k == 0, "single point alignment has segment 0"); return; }
  sx_assert(0 <= k && k < n - 1, "segment index in range");
  int want = 0; for (int i = 0; i + 1 < n; i++) if (r[i].station < s) want = i;
  sx_assert(k == want, "segment contains the station, back segment at a shared point");
  sx_reach("found");
}
