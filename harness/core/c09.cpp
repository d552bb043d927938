// C09: a line difference is a correct and minimal edit script
#include "diffref.h"
#include "TestingFramework/tfDiff.h"
using namespace vf;
// lines chosen so that weak ways to compare them (length, sum, first and last
// characters, a hash) take different lines as equal
static std::vector<str> alphabet(Rng &r) {
  std::vector<str> v;
  switch (r.below(8)) {
    case 0: { int n = r.range(1, 4); for (int i = 0; i < n; ++i) v.push_back(str(1, (char)('a' + i))); v.push_back(""); break; }
    case 1: if (r.chance(20)) { v = {str("a\0b", 3), str("a\0c", 3), "a", str("a\0", 2), str(1, 0), str(2, 0), ""}; break; } v = {"ab", "b\xe2", "ba", "a b", "ab ", " ab", "abc", ""}; break;
    case 2: { str s; int n = r.range(60, 80); for (int i = 0; i < n; ++i) s += (char)('a' + r.below(26)); v.push_back(s); for (int i = 0; i < 5; ++i) { str t = s; size_t p = r.below(n); size_t q = r.chance(50) && p + 64 < s.size() ? p + 64 : r.below(n); std::swap(t[p], t[q]); v.push_back(t); } { str t = s; std::swap(t[0], t[n > 64 ? 64 : 1]); v.push_back(t); } break; }
    case 3: { for (int i = 0; i < 5; ++i) { str s; int n = r.range(0, 6); for (int j = 0; j < n; ++j) { char c; do c = (char)r.next(); while (c == '\n'); if (r.chance(10)) c = 0; s += c; } v.push_back(s); } break; }
    case 4: v = {"< a", "> a", "----", "1a2", "3c4", "5d6", "", "< ", "> "}; break;
    case 5: v = {"the quick", "brown fox", "The quick", "the  quick", "the quick\r", "\t", " ", ""}; break;
    case 6: { str s(r.range(1, 300), 'x'); v.push_back(s); v.push_back(s + "x"); s[s.size() - 1] = 'y'; v.push_back(s); s[0] = 'z'; v.push_back(s); v.push_back("x"); break; }
    default: { int n = r.range(5, 60); for (int i = 0; i < n; ++i) v.push_back("line " + std::to_string(i)); }
  }
  return v;
}
static str gen(Rng &r, const std::vector<str> &al, int maxl) {
  str s; int n = (int)r.below(maxl + 1);
  for (int i = 0; i < n; ++i) s += r.pick(al) + "\n";
  if (r.chance(50)) s += r.pick(al);
  return s;
}
static str edit(Rng &r, const str &A, const std::vector<str> &al) {
  Lines l = splitLines(A); int e = r.range(0, 6);
  for (int i = 0; i < e; ++i) {
    size_t p = r.below(l.size() + 1);
    switch (r.below(6)) {
      case 0: l.insert(l.begin() + p, r.pick(al)); break;
      case 1: if (p < l.size() && l.size() > 1) l.erase(l.begin() + p); break;
      case 2: if (p < l.size()) l[p] = r.pick(al); break;
      case 3: if (p < l.size()) { str x = l[p]; l.erase(l.begin() + p); l.insert(l.begin() + r.below(l.size() + 1), x); } break;
      case 4: { size_t n = r.range(1, 5); for (size_t j = 0; j < n; ++j) l.insert(l.begin() + p, r.pick(al)); break; }
      default: if (p < l.size()) { size_t n = std::min<size_t>(l.size() - p, r.range(1, 5)); if (n < l.size()) l.erase(l.begin() + p, l.begin() + p + n); } else l.push_back("");
    }
  }
  str s; for (size_t i = 0; i < l.size(); ++i) s += (i ? "\n" : "") + l[i];
  return s;
}
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  cases([&](Rng &r, long k) {
    std::vector<str> al = alphabet(r); int maxl = r.chance(3) ? (c.thorough ? 1200 : 500) : r.chance(20) ? 60 : 9;
    str A = gen(r, al, maxl), B = r.chance(40) ? gen(r, al, maxl) : edit(r, A, al);
    if (k % 4000 == 7) { // more lines than small numbers can hold
      int n = r.range(66000, 70000); std::vector<str> l; for (int i = 0; i < n; ++i) l.push_back(std::to_string(i)); std::vector<str> m = l;
      int e = r.range(1, 3); for (int i = 0; i < e; ++i) { size_t p = r.below(n), q = r.chance(50) ? (p + 65536) % n : r.below(n); if (r.chance(70)) m[p] = l[q]; else std::swap(m[p], m[q]); }
      A = B = ""; for (auto &x : l) A += x + "\n"; for (auto &x : m) B += x + "\n"; c.count("long_texts"); }
    if (k == 0) A = B = ""; if (r.chance(1)) B = A; if (r.chance(1)) A = ""; if (r.chance(1)) B = "";
    std::ostringstream o; o.imbue(std::locale::classic()); testutil::Diff(A, B, o); str s = o.str();
    auto what = [&]() { return "first " + jsonq(cut(A, 300)) + " second " + jsonq(cut(B, 300)) + " script " + jsonq(cut(s, 700)); };
    if (A == B) { if (!s.empty()) VIOL("equal", "equal texts have a difference: " << what()); c.count("equal"); }
    else {
      Script R = applyScript(A, B, s);
      if (!R.error.empty()) VIOL("wrong", R.error << ": " << what());
      else { long m = minimalEdits(A, B); if (R.edits != m) VIOL("notMinimal", R.edits << " lines instead of " << m << ": " << what()); c.count("edits", m); c.count("commands", R.commands); }
    }
    std::ostringstream o2; o2.imbue(std::locale::classic()); testutil::Diff(A, B, o2); if (o2.str() != s) VIOL("unstable", "two different scripts: " << what());
    if (k % 16 == 0) leakcheck("leak", what(), [&] { std::ostringstream x; testutil::Diff(A, B, x); });
    c.count("lines", splitLines(A).size() + splitLines(B).size()); c.nontrivial(A + "\1" + B); if (k < 3 * c.shards) c.sample(what());
  });
  c.finish(); return 0;
}
