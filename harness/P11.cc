// P11: transmission line edits keep structures and cables consistent, or do nothing.
// @h h_line_structures mode=fpu
// @h h_line_structures2 mode=fpu t_wall=500
// @h h_line_cable_add mode=fpu
// @h h_line_cable_edit0 mode=fpu
// @h h_line_cable_edit1 mode=fpu
// @h h_line_cable_edit2 mode=fpu
// @h h_line_cable_edit3 mode=fpu
// @h h_line_cable_edit4 mode=fpu
// @h h_line_copy mode=fpu
// @h h_cable_connections mode=fpu
#include <vector>
#include "models/transmissionline/transmission_line.h"
#include "sx.h"

namespace {
typedef Hardware::HardwareType HT;
Structure* kind[3];                      // base structures with one, two, no attachments
Hardware* hw[12]; int nhw;
void Init() {
  for (int k = 0; k < 3; k++) {
    kind[k] = new Structure; kind[k]->height = 100 + k;
    for (int j = 0; j < (k == 2 ? 0 : k + 1); j++) {
      StructureAttachment a; a.offset_longitudinal = 0; a.offset_transverse = j; a.offset_vertical_top = 0;
      kind[k]->attachments.push_back(a);
    }
  }
  nhw = 0;
}
// hardware with an arbitrary type, decided only when something asks
const Hardware* AnyHardware(const char* name) {
  Hardware* h = new Hardware; h->type = (HT)sx_int(name, 0, 2);
  return h;
}
const Hardware* Fixed(HT t) { Hardware* h = new Hardware; h->type = t; return h; }

AlignmentPoint AP(double s, double r) { AlignmentPoint p; p.station = s; p.elevation = 7; p.rotation = r; return p; }

// ---- reference model
struct RS { double station, id; const Structure* st; std::vector<const Hardware*> hw; int key; };
struct RK { int key, att; };
struct RC { const Cable* cable; std::vector<RK> con; };
struct Ref {
  std::vector<AlignmentPoint> al; std::vector<RS> s; std::vector<RC> c; int keys = 0;
  int Index(int key) const { for (size_t i = 0; i < s.size(); i++) if (s[i].key == key) return (int)i; return -1; }
  bool Valid(const RC& c) const {
    if (c.con.size() < 2) return false;
    for (size_t i = 0; i < c.con.size(); i++) {
      int k = Index(c.con[i].key); if (k < 0) return false;
      if (c.con[i].att < 0 || (int)s[k].hw.size() <= c.con[i].att) return false;
      const Hardware* h = s[k].hw[c.con[i].att];
      if (h == nullptr) return false;
      bool end = i == 0 || i + 1 == c.con.size();
      if (h->type != (end ? HT::kDeadEnd : HT::kSuspension)) return false;
    }
    return true;
  }
  bool Has(int key, int att) const {
    for (auto& c : this->c) for (auto& k : c.con) if (k.key == key && k.att == att) return true;
    return false;
  }
  void Prune() {
    for (size_t i = 0; i < c.size();) {
      auto& con = c[i].con;
      for (size_t j = 0; j < con.size();) {
        int k = Index(con[j].key);
        if (k < 0 || (int)s[k].hw.size() <= con[j].att) con.erase(con.begin() + j); else j++;
      }
      if (!Valid(c[i])) c.erase(c.begin() + i); else i++;
    }
  }
  void DropOff() {
    for (size_t i = 0; i < s.size();) {
      bool off = al.empty() || s[i].station < al.front().station || al.back().station < s[i].station;
      if (off) s.erase(s.begin() + i); else i++;
    }
    Prune();
  }
  bool On(double st) const { return !al.empty() && al.front().station <= st && st <= al.back().station; }
  int AddA(const AlignmentPoint& p) {
    size_t i = 0;
    for (; i < al.size(); i++) { if (al[i].station == p.station) return -1; if (p.station < al[i].station) break; }
    al.insert(al.begin() + i, p); return (int)i;
  }
  int AddS(RS x) {
    if (!On(x.station)) return -1;
    size_t i = 0;
    for (; i < s.size(); i++) { if (s[i].station == x.station) return -1; if (x.station < s[i].station) break; }
    x.key = keys++; s.insert(s.begin() + i, x); return (int)i;
  }
  bool ModS(int i, const RS& x) {
    if (i < 0 || i >= (int)s.size() || !On(x.station)) return false;
    if (i > 0 && x.station <= s[i - 1].station) return false;
    if (i + 1 < (int)s.size() && s[i + 1].station <= x.station) return false;
    int key = s[i].key; s[i] = x; s[i].key = key; Prune(); return true;
  }
  int AddC(const RC& x) {
    if (!Valid(x)) return -1;
    for (auto& k : x.con) if (Has(k.key, k.att)) return -1;
    size_t i = 0;
    for (; i < c.size(); i++) {
      int a = Index(x.con[0].key), b = Index(c[i].con[0].key);
      if (a < b || (a == b && x.con[0].att < c[i].con[0].att)) break;
    }
    c.insert(c.begin() + i, x); return (int)i;
  }
};

// ---- comparison through the public interface
void Same(const TransmissionLine& t, const Ref& r) {
  const auto& al = *t.alignment()->points();
  sx_assert(al.size() == r.al.size(), "alignment points as in the reference");
  size_t i = 0;
  for (auto it = al.begin(); it != al.end(); ++it, ++i) sx_assert(it->station == r.al[i].station && it->rotation == r.al[i].rotation, "alignment point as in the reference");
  const auto& ls = *t.line_structures();
  sx_assert(ls.size() == r.s.size(), "as many structures as in the reference");
  i = 0; std::vector<const LineStructure*> adr;
  for (auto it = ls.begin(); it != ls.end(); ++it, ++i) {
    const RS& x = r.s[i]; adr.push_back(&*it);
    sx_assert(it->station() == x.station, "structures sorted by station as in the reference");
    sx_assert(it->offset() == x.id && it->structure() == x.st && *it->hardwares() == x.hw, "every structure keeps its own data");
    sx_assert(t.IndexLineStructure(&*it) == (int)i, "index of a structure");
  }
  sx_assert(t.IndexLineStructure(nullptr) == -1, "a structure that is not in the line has no index");
  const auto& lc = *t.line_cables();
  sx_assert(lc.size() == r.c.size(), "as many cables as in the reference");
  i = 0;
  for (auto it = lc.begin(); it != lc.end(); ++it, ++i) {
    const RC& x = r.c[i];
    sx_assert(it->cable() == x.cable, "cables in the order of start structure and attachment, each with its data");
    sx_assert(it->connections()->size() == x.con.size(), "cable keeps exactly its valid connections");
    size_t j = 0;
    for (auto k = it->connections()->begin(); k != it->connections()->end(); ++k, ++j) {
      sx_assert(k->line_structure == adr[r.Index(x.con[j].key)], "cable connected to the same structure of this line");
      sx_assert(k->index_attachment == x.con[j].att, "cable connected to the same attachment");
    }
  }
  for (size_t s = 0; s < r.s.size(); s++)
    for (int a = -1; a <= 2; a++)
      sx_assert(t.HasConnection((int)s, a) == r.Has(r.s[s].key, a), "an attachment is occupied exactly if a cable is attached there");
  sx_assert(!t.HasConnection((int)r.s.size(), 0) && !t.HasConnection(-1, 0), "a missing structure has no connections");
}

RS MakeS(double station, double id, int k, const Hardware* h0, const Hardware* h1) {
  RS x; x.station = station; x.id = id; x.st = kind[k]; x.key = -1;
  x.hw.assign(k == 2 ? 0 : k + 1, nullptr);
  if (x.hw.size() > 0) x.hw[0] = h0;
  if (x.hw.size() > 1) x.hw[1] = h1;
  return x;
}
LineStructure Real(const RS& x) {
  LineStructure s; s.set_station(x.station); s.set_offset(x.id); s.set_height_adjustment(0); s.set_rotation(0); s.set_structure(x.st);
  for (size_t i = 0; i < x.hw.size(); i++) s.AttachHardware((int)i, x.hw[i]);
  return s;
}
LineCable RealC(const TransmissionLine& t, const Ref& r, const RC& x) {
  LineCable c; c.set_cable(x.cable);
  for (auto& k : x.con) {
    LineCableConnection n; n.index_attachment = k.att;
    int i = r.Index(k.key); n.line_structure = &*std::next(t.line_structures()->begin(), i);
    c.AddConnection(n);
  }
  return c;
}
double Sta(const char* n) { return sx_double(n, -1e5, 1e5); }

void AddS(TransmissionLine* t, Ref* r, const RS& x) {
  int got = t->AddLineStructure(Real(x)), want = r->AddS(x);
  sx_assert(got == want, "AddLineStructure returns the index, -1 off the alignment or at an occupied station");
}
int AddC(TransmissionLine* t, Ref* r, const RC& x) {
  int got = t->AddLineCable(RealC(*t, *r, x)), want = r->AddC(x);
  sx_assert(got == want, "AddLineCable returns the index, -1 for an invalid connection or an occupied attachment");
  return want;
}

// any structure or alignment edit with arbitrary stations and every index
void EditStructures(TransmissionLine* t, Ref* r, double id) {
  int op = sx_choose("op", 6);
  if (op == 0) { AddS(t, r, MakeS(Sta("new"), id, 1, nullptr, nullptr)); return; }
  if (op == 1) {
    int i = sx_choose("index", (int)r->s.size() + 2) - 1; bool ok = 0 <= i && i < (int)r->s.size();
    sx_assert(t->DeleteLineStructure(i) == ok, "DeleteLineStructure succeeds exactly for an existing index");
    if (ok) { r->s.erase(r->s.begin() + i); r->Prune(); }
    return;
  }
  if (op == 2) {
    int i = sx_choose("index", (int)r->s.size() + 2) - 1;
    RS x = MakeS(Sta("moved"), id, 0, nullptr, nullptr);
    bool got = t->ModifyLineStructure(i, Real(x)), want = r->ModS(i, x);
    sx_assert(got == want, "ModifyLineStructure succeeds exactly between its neighbours and on the alignment");
    return;
  }
  if (op == 3) {
    AlignmentPoint p = AP(Sta("point"), id); int got = t->AddAlignmentPoint(p), want = r->AddA(p);
    sx_assert(got == want, "AddAlignmentPoint returns the index, -1 for an occupied station");
    return;
  }
  int i = sx_choose("index", (int)r->al.size() + 2) - 1; bool ok = 0 <= i && i < (int)r->al.size();
  if (op == 4) {
    sx_assert(t->DeleteAlignmentPoint(i) == ok, "DeleteAlignmentPoint succeeds exactly for an existing index");
    if (ok) { r->al.erase(r->al.begin() + i); r->DropOff(); }
    return;
  }
  AlignmentPoint p = AP(Sta("point"), id); int want = -1;
  int got = t->ModifyAlignmentPoint(i, p);
  if (ok) {
    auto keep = r->al; r->al.erase(r->al.begin() + i); want = r->AddA(p);
    if (want == -1) r->al = keep; else r->DropOff();
  }
  sx_assert(got == want, "ModifyAlignmentPoint returns the new index, -1 when refused");
}
void BuildLine(TransmissionLine* t, Ref* r, int points, int structs) {
  for (int i = 0; i < points; i++) {
    AlignmentPoint p = AP(Sta("al"), i);
    if (i) sx_assume(r->al.back().station < p.station);
    sx_assert(t->AddAlignmentPoint(p) == r->AddA(p), "point added");
  }
  for (int i = 0; i < structs; i++) {
    RS x = MakeS(Sta("st"), i, 1, nullptr, nullptr);
    sx_assume(r->On(x.station)); if (i) sx_assume(r->s.back().station < x.station);
    AddS(t, r, x);
  }
}
}  // namespace

// one structure or alignment edit from every line of up to three points and three structures
HARNESS h_line_structures() {
  Init(); TransmissionLine t; Ref r;
  int points = sx_choose("points", 4), structs = points == 0 ? 0 : points == 1 ? sx_choose("structures", 2) : sx_choose("structures", 4);
  BuildLine(&t, &r, points, structs);
  EditStructures(&t, &r, 10);
  Same(t, r);
  sx_reach("one edit checked");
}
// two edits
HARNESS h_line_structures2() {
  Init(); TransmissionLine t; Ref r;
  BuildLine(&t, &r, 2, sx_choose("structures", 3));
  EditStructures(&t, &r, 10);
  EditStructures(&t, &r, 20);
  Same(t, r);
  sx_reach("two edits checked");
}

namespace {
Cable* cables[4];
// three structures of two attachments with hardware of an arbitrary type, or none on one attachment
void BuildStructures(TransmissionLine* t, Ref* r, int missing) {
  Init(); for (int i = 0; i < 4; i++) cables[i] = new Cable;
  for (int i = 0; i < 2; i++) { AlignmentPoint p = AP(1000 * i, 0); t->AddAlignmentPoint(p); r->AddA(p); }
  static const char* nm[] = {"h00", "h01", "h10", "h11", "h20", "h21"};
  for (int i = 0; i < 3; i++) {
    const Hardware* h[2];
    for (int j = 0; j < 2; j++) h[j] = missing == 2 * i + j ? nullptr : AnyHardware(nm[2 * i + j]);
    AddS(t, r, MakeS(100 + 100 * i, i, 1, h[0], h[1]));
  }
}
// which structures a cable is attached to and where; 20 configurations with valid indexes
RC Config(const Ref& r, int cfg, int who) {
  RC c; c.cable = cables[who];
  static const int sets[4][4] = {{2, 0, 1, 0}, {2, 0, 2, 0}, {2, 1, 2, 0}, {3, 0, 1, 2}};
  int set = cfg < 4 ? 0 : cfg < 8 ? 1 : cfg < 12 ? 2 : 3, bits = set == 3 ? cfg - 12 : cfg % 4;
  for (int k = 0; k < sets[set][0]; k++) c.con.push_back(RK{r.s[sets[set][k + 1]].key, (bits >> k) & 1});
  return c;
}
// dead-end or suspension hardware placed so that one of several pairs of cables exists
void BuildTwo(TransmissionLine* t, Ref* r, int which) {
  Init(); for (int i = 0; i < 4; i++) cables[i] = new Cable;
  for (int i = 0; i < 2; i++) { AlignmentPoint p = AP(50 + 300 * i, 0); t->AddAlignmentPoint(p); r->AddA(p); }
  const HT D = HT::kDeadEnd, S = HT::kSuspension;
  static const HT hwt[4][6] = {{D, D, D, D, D, D}, {D, D, S, S, D, D}, {D, D, S, D, D, D}, {D, D, D, S, D, D}};
  static const int cfg[4][2] = {{0 + 0, 8 + 1}, {12 + 0, 12 + 7}, {12 + 0, 0 + 3}, {0 + 0, 12 + 7}};
  for (int i = 0; i < 3; i++) AddS(t, r, MakeS(100 + 100 * i, i, 1, Fixed(hwt[which][2 * i]), Fixed(hwt[which][2 * i + 1])));
  int order = sx_choose("order", 2);
  for (int i = 0; i < 2; i++) { int w = order ? 1 - i : i; sx_assert(AddC(t, r, Config(*r, cfg[which][w], w)) >= 0, "cable with valid connections accepted"); }
}
}  // namespace

// adding cables: every hardware type on every attachment, one attachment without hardware, bad indexes, foreign structures
HARNESS h_line_cable_add() {
  TransmissionLine t; Ref r;
  int kindof = sx_choose("kind", 3);
  if (kindof == 0) {                                       // one cable, any configuration, any hardware, one piece missing
    BuildStructures(&t, &r, sx_choose("missing", 7));
    AddC(&t, &r, Config(r, sx_choose("first", 20), 0));
  } else if (kindof == 1) {                                // three dead-end cables among six dead-end attachments
    Init(); for (int i = 0; i < 4; i++) cables[i] = new Cable;
    for (int i = 0; i < 2; i++) { AlignmentPoint p = AP(1000 * i, 0); t.AddAlignmentPoint(p); r.AddA(p); }
    for (int i = 0; i < 3; i++) AddS(&t, &r, MakeS(100 + 100 * i, i, 1, Fixed(HT::kDeadEnd), Fixed(HT::kDeadEnd)));
    for (int i = 0; i < 3; i++) AddC(&t, &r, Config(r, sx_choose("cfg", 12), i));
  } else {
    BuildStructures(&t, &r, -1);
    LineStructure foreign = Real(MakeS(150, 9, 1, Fixed(HT::kDeadEnd), Fixed(HT::kDeadEnd)));
    LineCable c; c.set_cable(cables[0]);
    LineCableConnection n; n.index_attachment = 0; n.line_structure = &foreign;
    LineCableConnection m; m.index_attachment = sx_choose("attachment", 4) - 1; m.line_structure = &*t.line_structures()->begin();
    LineCableConnection k; k.index_attachment = 0; k.line_structure = &*std::next(t.line_structures()->begin());
    int use = sx_choose("use", 3);
    if (use != 1) c.AddConnection(k);
    if (use != 0) c.AddConnection(n);
    c.AddConnection(m);
    RC x; x.cable = cables[0]; x.con = {RK{r.s[0].key, m.index_attachment}, RK{r.s[1].key, 0}};
    int want = use == 0 ? r.AddC(x) : -1;
    sx_assert(t.AddLineCable(c) == want, "a cable is accepted exactly if it is attached to valid attachments of this line");
    LineCable none; sx_assert(t.AddLineCable(none) == -1, "a cable without connections is refused");
  }
  Same(t, r);
  sx_reach("cable added or refused");
}

namespace {
void CableEdit(int op) {
  TransmissionLine t; Ref r; BuildTwo(&t, &r, sx_choose("line", 4));
  if (op == 0) {
    int i = sx_choose("index", 5) - 1; bool ok = 0 <= i && i < 3;
    sx_assert(t.DeleteLineStructure(i) == ok, "DeleteLineStructure succeeds exactly for an existing index");
    if (ok) { r.s.erase(r.s.begin() + i); r.Prune(); }
  } else if (op == 1) {
    int i = sx_choose("index", 3); int k = sx_choose("kind", 4);
    RS x = k == 3 ? r.s[i] : MakeS(0, 30, k, k == 0 ? AnyHardware("n0") : sx_choose("bare", 2) ? nullptr : AnyHardware("n0"), AnyHardware("n1"));
    x.station = Sta("moved");
    bool got = t.ModifyLineStructure(i, Real(x)), want = r.ModS(i, x);
    sx_assert(got == want, "ModifyLineStructure succeeds exactly between its neighbours and on the alignment");
  } else if (op == 2) {
    int i = sx_choose("index", 4) - 1; bool ok = 0 <= i && i < 2;
    if (sx_choose("delete", 2)) {
      sx_assert(t.DeleteLineCable(i) == ok, "DeleteLineCable succeeds exactly for an existing index");
      if (ok) r.c.erase(r.c.begin() + i);
    } else {
      RC x = Config(r, sx_choose("cfg", 20), 2); int want = -1;
      int got = t.ModifyLineCable(i, RealC(t, r, x));
      if (ok) { Ref s = r; s.c.erase(s.c.begin() + i); want = s.AddC(x); if (want >= 0) r = s; }
      sx_assert(got == want, "ModifyLineCable returns the new index, -1 when refused");
    }
  } else if (op == 3) {                                    // a cable that is already in the line
    int i = sx_choose("index", 2), j = sx_choose("from", 2);
    int got = t.ModifyLineCable(i, *std::next(t.line_cables()->begin(), j));
    sx_assert(got == (i == j ? i : -1), "a cable modified to itself stays, modified to another one is refused");
    sx_assert(t.AddLineCable(*std::next(t.line_cables()->begin(), j)) == -1, "a cable that is in the line is not added again");
  } else {
    AlignmentPoint p = AP(Sta("point"), 5); int i = sx_choose("index", 2);
    if (sx_choose("delete", 2)) {
      sx_assert(t.DeleteAlignmentPoint(i), "alignment point deleted");
      r.al.erase(r.al.begin() + i); r.DropOff();
    } else {
      int got = t.ModifyAlignmentPoint(i, p), want = -1; auto keep = r.al;
      r.al.erase(r.al.begin() + i); want = r.AddA(p);
      if (want == -1) r.al = keep; else r.DropOff();
      sx_assert(got == want, "ModifyAlignmentPoint returns the new index, -1 when refused");
    }
  }
  Same(t, r);
  if (sx_choose("then", 2)) { AddC(&t, &r, r.s.size() == 3 ? Config(r, sx_choose("cfg2", 12), 3) : RC{cables[3], {}}); Same(t, r); }
  sx_reach("edit of a line with cables checked");
}
}  // namespace
HARNESS h_line_cable_edit0() { CableEdit(0); }
HARNESS h_line_cable_edit1() { CableEdit(1); }
HARNESS h_line_cable_edit2() { CableEdit(2); }
HARNESS h_line_cable_edit3() { CableEdit(3); }
HARNESS h_line_cable_edit4() { CableEdit(4); }

// copies own what they refer to
HARNESS h_line_copy() {
  TransmissionLine* t = new TransmissionLine; Ref r; BuildTwo(t, &r, sx_choose("line", 4));
  Ref rc = r; TransmissionLine* c = nullptr;
  int how = sx_choose("how", 5);
  if (how == 0) c = new TransmissionLine(*t);
  else if (how == 1) { c = new TransmissionLine; *c = *t; }
  else if (how == 2) { c = new TransmissionLine; Ref q; Cable* keep[4] = {cables[0], cables[1], cables[2], cables[3]}; BuildTwo(c, &q, 0); for (int i = 0; i < 4; i++) cables[i] = keep[i]; *c = *t; }
  else if (how == 3) { const TransmissionLine& self = *t; *t = self; c = new TransmissionLine(*t); }
  else { TransmissionLine* m = new TransmissionLine(*t); c = new TransmissionLine; *c = *m; delete m; }
  Same(*c, rc); Same(*t, r);
  int edit = sx_choose("edit", 4);
  if (edit == 0) { t->DeleteLineStructure(0); }
  else if (edit == 1) { delete t; t = nullptr; }
  else if (edit == 2) { t->DeleteAlignmentPoint(1); t->DeleteLineCable(0); }
  else { c->DeleteLineStructure(2); Same(*t, r); sx_reach("original unaffected"); return; }
  Same(*c, rc);
  int i = sx_choose("index", 3);
  sx_assert(c->DeleteLineStructure(i), "the copy can be edited"); rc.s.erase(rc.s.begin() + i); rc.Prune();
  Same(*c, rc);
  sx_reach("copy unaffected and editable");
}

// connections of one line cable
HARNESS h_cable_connections() {
  Init(); LineStructure* s[4]; std::vector<LineCableConnection> ref; LineCable c;
  for (int i = 0; i < 4; i++) s[i] = new LineStructure(Real(MakeS(Sta("st"), i, 1, nullptr, nullptr)));
  auto add = [&](std::vector<LineCableConnection>* v, const LineCableConnection& n) {
    if (n.line_structure == nullptr) return -1;
    size_t i = 0;
    for (; i < v->size(); i++) {
      if ((*v)[i].line_structure->station() == n.line_structure->station()) return -1;
      if (n.line_structure->station() < (*v)[i].line_structure->station()) break;
    }
    v->insert(v->begin() + i, n); return (int)i;
  };
  for (int i = 0; i < 3; i++) {
    LineCableConnection n; n.line_structure = s[i]; n.index_attachment = i;
    sx_assert(c.AddConnection(n) == add(&ref, n), "AddConnection returns the sorted index, -1 for an occupied station");
  }
  LineCableConnection n; n.index_attachment = 7; n.line_structure = sx_choose("null", 2) ? nullptr : s[3];
  int op = sx_choose("op", 4), i = sx_choose("index", 5) - 1; bool ok = 0 <= i && i < (int)ref.size();
  if (op == 0) sx_assert(c.AddConnection(n) == add(&ref, n), "AddConnection without a structure is refused");
  else if (op == 1) { sx_assert(c.DeleteConnection(i) == ok, "DeleteConnection succeeds exactly for an existing index"); if (ok) ref.erase(ref.begin() + i); }
  else if (op == 2) {
    int got = c.ModifyConnection(i, n), want = -1;
    if (ok) { auto w = ref; w.erase(w.begin() + i); want = add(&w, n); if (want != -1) ref = w; }
    sx_assert(got == want, "ModifyConnection returns the new index, -1 when refused");
  } else { c.ClearConnections(); ref.clear(); }
  sx_assert(c.connections()->size() == ref.size(), "as many connections as in the reference");
  size_t k = 0;
  for (auto it = c.connections()->begin(); it != c.connections()->end(); ++it, ++k)
    sx_assert(it->line_structure == ref[k].line_structure && it->index_attachment == ref[k].index_attachment, "connections sorted by station as in the reference");
  sx_reach("connection edit checked");
}
