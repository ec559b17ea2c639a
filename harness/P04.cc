// P04: string comparison is a case-insensitive total order; parsing splits at every delimiter.
// @h h_str_compare mode=fpu unwind=16 wall=120
// @h h_str_order mode=fpu unwind=16 wall=120
// @h h_str_parse mode=fpu unwind=24 wall=120
#include <list>
#include <string>
#include "models/base/helper.h"
#include "sx.h"
namespace {
std::string Str(const char* nm, int n) { std::string s; for (int i = 0; i < n; i++) s.push_back((char)sx_int(nm, 1, 127)); return s; }
char Low(char c) { return ('A' <= c && c <= 'Z') ? (char)(c - 'A' + 'a') : c; }
// reference: lexicographic by lower-case character, a proper prefix is smaller
int RefCompare(const std::string& a, const std::string& b) {
  for (std::size_t i = 0; i < a.size() && i < b.size(); i++) {
    char x = Low(a[i]), y = Low(b[i]);
    if (x < y) return -1; if (x > y) return 1;
  }
  return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
}
HARNESS h_str_compare() {
  std::string a = Str("a", sx_choose("len_a", 4)), b = Str("b", sx_choose("len_b", 4));
  int r = helper::CompareStrings(a, b);
  sx_assert(r == RefCompare(a, b), "comparison of the lower-case characters, shorter prefix first");
  sx_assert(helper::CompareStrings(b, a) == -r, "swapping the strings swaps the answer");
  sx_assert(helper::CompareStrings(a, a) == 0, "a string equals itself");
  sx_reach("end");
}
HARNESS h_str_order() {
  std::string a = Str("a", 1 + sx_choose("len_a", 2)), b = Str("b", 1 + sx_choose("len_b", 2)), c = Str("c", 1 + sx_choose("len_c", 2));
  if (helper::CompareStrings(a, b) <= 0 && helper::CompareStrings(b, c) <= 0) {
    sx_assert(helper::CompareStrings(a, c) <= 0, "comparison is transitive");
    sx_reach("chain");
  }
}
HARNESS h_str_parse() {
  std::string s = Str("s", sx_choose("len", 5)); char d = (char)sx_int("delim", 1, 127);
  std::list<std::string> l = helper::Parse(s, d);
  std::string joined; bool clean = true; std::size_t k = 0;
  for (auto it = l.begin(); it != l.end(); ++it, ++k) {
    if (k) joined.push_back(d);
    for (std::size_t i = 0; i < it->size(); i++) { if ((*it)[i] == d) clean = false; joined.push_back((*it)[i]); }
  }
  sx_assert(clean, "no piece contains the delimiter");
  std::string t = s; if (!t.empty() && t[t.size() - 1] == d) t.erase(t.size() - 1);
  bool same = joined.size() == t.size();
  for (std::size_t i = 0; same && i < t.size(); i++) same = joined[i] == t[i];
  sx_assert(same, "pieces joined by the delimiter give back the string");
  sx_assert(l.empty() == s.empty(), "only an empty string has no pieces");
  sx_reach("end");
}
