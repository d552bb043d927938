// C16: path lists are split and searched in order
#include "common.h"
#include "FileUtilities/FileUtilities.h"
using namespace vf; using namespace fileutil;
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  if (chdir(c.scratch.c_str())) return 3;
  const str S = c.scratch;
  cases([&](Rng &r, long k) {
    // ---- splitting
    { str v; int n = (int)r.below(12); std::vector<str> items; static const std::vector<str> it = {"", "a", "/usr/lib", ".", "..", "x y", "dir/", "/", "a;b", "very/long/" + str(200, 'p')};
      for (int i = 0; i < n; ++i) { str x = r.chance(80) ? r.pick(it) : printable(r, 12); x.erase(std::remove(x.begin(), x.end(), ':'), x.end()); items.push_back(x); v += (i ? ":" : "") + x; }
      if (v.empty()) items.clear();
      bool env = r.chance(50); PathList pl; 
      if (env) { setenv("VERIF_PATH", v.c_str(), 1); pl = GetPathFromEnviroment("VERIF_PATH"); str now = getenv("VERIF_PATH"); if (now != v) VIOL("envChanged", jsonq(now)); } else pl = GetPathListFromColonSeparatedList(v);
      std::vector<str> got; for (auto &p : pl) got.push_back(p.GetPathName());
      if (got != items) { str g; for (auto &x : got) g += jsonq(x) + " "; VIOL(env ? "splitEnv" : "split", jsonq(cut(v)) << " gives " << got.size() << " items: " << cut(g)); }
      if (r.chance(20)) { unsetenv("VERIF_PATH_NOT"); if (!GetPathFromEnviroment("VERIF_PATH_NOT").empty()) VIOL("unset", "items from an unset variable"); }
      c.count("items", items.size()); }
    // ---- searching
    str w = S + "/w"; rmtree(w); mkdir(w.c_str(), 0755); if (chdir(w.c_str())) _exit(3);
    std::vector<str> dirs = {"A", "B", "C", "A/sub", "D d"}, names = {"f", "g.txt", "h h", "f", "g.txt", "sub/f", "sub", "h h", "..", ".", "A/f"};
    for (auto &d : dirs) mkdir(d.c_str(), 0755);
    for (auto &d : dirs) for (auto &nm : {str("f"), str("g.txt"), str("h h"), str("sub")}) {
      str p = d + "/" + nm; if (exists(p) || r.chance(40)) continue;
      switch (r.below(8)) { case 0: mkdir(p.c_str(), 0755); if (r.chance(50)) writefile(p + "/f", "x"); break; case 1: if (symlink("nowhere", p.c_str())) {} break; case 2: writefile("target", "t"); if (symlink((w + "/target").c_str(), p.c_str())) {} break; case 3: if (symlink((w + "/A").c_str(), p.c_str())) {} break; case 4: mkfifo(p.c_str(), 0644); break; default: writefile(p, p); }
    }
    if (r.chance(30)) writefile("f", "in cwd");
    if (exists("A/sub") && !exists("A/sub/f") && r.chance(50)) writefile("A/sub/f", "deep");
    PathList pl; std::vector<str> l; int n = r.chance(5) ? 0 : r.range(1, 6);
    for (int i = 0; i < n; ++i) { str d = r.pick(dirs); switch (r.below(8)) { case 0: d = w + "/" + d; break; case 1: d += "/"; break; case 2: d = "missing"; break; case 3: d = ""; break; case 4: d = "A/f"; break; } l.push_back(d); pl.push_back(PathName(d)); }
    str nm = r.pick(names); if (r.chance(15)) nm = w + "/" + r.pick(std::vector<str>{"A/f", "B/g.txt", "missing", "A", "f"});
    str want; auto isreg = [](const str &p) { struct stat s; return !stat(p.c_str(), &s) && S_ISREG(s.st_mode); };
    for (auto &d : l) { str p; if (nm[0] == '/' || d.empty()) p = nm; else { str x = d; while (!x.empty() && x[x.size() - 1] == '/') x.resize(x.size() - 1); p = x + "/" + nm; } if (isreg(p)) { want = p; break; } }
    PathName q(nm); str got = q.SearchPathList(pl).GetPathName(), got2 = q.SearchPathList(pl).GetPathName();
    std::ostringstream what; what << jsonq(nm) << " in"; for (auto &d : l) what << " " << jsonq(d);
    if (got != want || got2 != got) VIOL(want.empty() ? "found" : got.empty() ? "notFound" : "wrongOne", what.str() << " is " << jsonq(got) << " and not " << jsonq(want));
    if (q.GetPathName() != nm) VIOL("nameChanged", what.str()); size_t i = 0; bool same = pl.size() == l.size(); for (auto &p : pl) if (same && p.GetPathName() != l[i++]) same = false; if (!same) VIOL("listChanged", what.str());
    c.count(want.empty() ? "not_found" : "found"); c.nontrivial(what.str() + want); if (k < 3 * c.shards) c.sample(what.str() + ": " + jsonq(want));
    if (k % 64 == 0) leakcheck("leak", what.str(), [&] { q.SearchPathList(pl); GetPathListFromColonSeparatedList("a:b::c"); GetPathFromEnviroment("VERIF_PATH"); });
    if (chdir(S.c_str())) _exit(3);
  });
  c.finish(); return 0;
}
