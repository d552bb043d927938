// C15: path names are taken apart and put together consistently
#include "common.h"
#include "FileUtilities/PathName.h"
using namespace vf; using fileutil::PathName;
static str anypath(Rng &r) {
  str s; int n = (int)r.below(9); if (r.chance(40)) s = str(r.chance(80) ? 1 : r.range(2, 4), '/');
  for (int i = 0; i < n; ++i) {
    switch (r.below(9)) { case 0: s += "/"; break; case 1: s += "."; break; case 2: s += "a/"; break; case 3: s += "dir.d/"; break; case 4: s += "x.tar.gz"; break; case 5: s += ".."; break; case 6: s += "//"; break; case 7: { int l = r.range(1, 6); for (int j = 0; j < l; ++j) { char ch = (char)r.next(); if (r.chance(70)) ch = (char)(33 + r.below(94)); if (!ch) ch = 'n'; s += ch; } break; } default: s += r.pick(std::vector<str>{"\\", ":", " ", "C:", "a b", "\n", "~", "*"}); }
  }
  if (r.chance(1)) s += str(r.range(1000, 6000), 'l'); 
  return s;
}
static str refTail(const str &s) { size_t i = s.find_last_of('/'); return i == str::npos ? s : s.substr(i + 1); }
// what names the same file: no repeated separators, no "." components
static str norm(const str &s) { str o; bool abs = !s.empty() && s[0] == '/'; size_t i = 0; std::vector<str> v; while (i <= s.size()) { size_t e = s.find('/', i); if (e == str::npos) e = s.size(); str p = s.substr(i, e - i); if (!p.empty() && p != ".") v.push_back(p); i = e + 1; } for (auto &p : v) o += "/" + p; return (abs ? "abs" : "rel") + o; }
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  PathName reused;
  cases([&](Rng &r, long k) {
    str s = anypath(r), f = anypath(r); if (r.chance(10)) f = ""; 
    PathName fresh(s), cs(s.c_str()); PathName *p = &fresh; if (r.chance(30)) { reused.SetPathName(s); p = &reused; } if (r.chance(10)) p = &cs;
    auto what = [&] { return jsonq(cut(s, 200)); };
    bool abs = !s.empty() && s[0] == '/';
    for (int round = 0; round < 2; ++round) {
      if (p->GetPathName() != s || p->GetNativePathName() != s) VIOL("name", what() << " reads " << jsonq(p->GetPathName()));
      if (p->GetPathType() != (abs ? PathName::Absolute : PathName::Relative)) VIOL("type", what() << " has type " << p->GetPathType());
      str t = p->Tail().GetPathName(); if (t != refTail(s)) VIOL("tail", what() << " has tail " << jsonq(t));
      str rt = refTail(s); size_t dot = rt.find_last_of('.'); str we = dot == str::npos ? "" : rt.substr(dot + 1); if (p->Extension() != we) VIOL("extension", what() << " has extension " << jsonq(p->Extension()) << " and not " << jsonq(we));
      size_t sl = s.find_last_of('/'); str d = p->DirectoryName().GetPathName();
      if (sl != 0) { str wd = sl == str::npos ? "." : s.substr(0, sl); if (d != wd) VIOL("directory", what() << " has directory " << jsonq(d) << " and not " << jsonq(wd)); }
      if (sl != 0 && !s.empty()) { PathName j = p->DirectoryName(); j.Append(p->Tail()); if (norm(j.GetPathName()) != norm(s)) VIOL("rejoined", what() << " taken apart and put together is " << jsonq(j.GetPathName())); }
    }
    // appending
    PathName a(s), b(f); PathName before(a); PathName &back = a.Append(b); if (&back != &a) VIOL("appendReturns", what());
    str want; if ((!f.empty() && f[0] == '/') || s.empty()) want = f; else { str x = s; while (!x.empty() && x[x.size() - 1] == '/') x.resize(x.size() - 1); want = x + "/" + f; }
    if (a.GetPathName() != want) VIOL("append", what() << " with " << jsonq(cut(f, 200)) << " appended is " << jsonq(cut(a.GetPathName(), 400)) << " and not " << jsonq(cut(want, 400)));
    if (b.GetPathName() != f || before.GetPathName() != s) VIOL("appendChanges", what() << " and " << jsonq(f));
    // copies
    PathName cp(*p), as; as = *p; cp.SetPathName("other"); if (p->GetPathName() != s || as.GetPathName() != s) VIOL("copy", what()); as.Append(PathName("z")); if (p->GetPathName() != s) VIOL("copyAppend", what());
    PathName self(s); self = *&self; if (self.GetPathName() != s) VIOL("selfAssign", what()); self.Append(self); str ws2 = abs || s.empty() ? s : [&] { str x = s; while (!x.empty() && x[x.size() - 1] == '/') x.resize(x.size() - 1); return x + "/" + s; }(); if (self.GetPathName() != ws2) VIOL("appendSelf", what() << ": " << jsonq(cut(self.GetPathName())));
    if (!p->IsNativeFormat()) VIOL("native", what());
    c.count(abs ? "absolute" : "relative"); c.nontrivial(s + "\1" + f); if (k < 3 * c.shards) c.sample(what() + " append " + jsonq(cut(f, 100)));
    if (k % 64 == 0) leakcheck("leak", what(), [&] { PathName x(s); x.Append(b); x.Tail(); x.DirectoryName(); x.Extension(); });
  });
  c.finish(); return 0;
}
