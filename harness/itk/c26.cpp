// C26: generated file names are unique, deterministic and where they should be
#include "itkx.h"
using namespace vf;
struct Call { str ext, root; };
static std::vector<str> names(const std::vector<str> &args, const std::vector<Call> &calls, bool again, std::vector<str> *second = 0) {
  R t; std::vector<str> n; t.body = [&](R &q, int, char **) { for (auto &x : calls) n.push_back(x.root.empty() ? q.GenerateFileName(x.ext) : q.GenerateFileName(x.ext, x.root)); return 0; };
  Capture a(std::cout), b(std::cerr); runMain(t, args); if (again) { std::vector<str> f = n; n.clear(); runMain(t, args); if (second) *second = n; return f; } return n;
}
static str lst(const std::vector<str> &v) { str s; for (auto &x : v) s += jsonq(cut(x, 80)) + " "; return s; }
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); if (chdir(c.scratch.c_str())) return 3; mkdir("d", 0755);
  cases([&](Rng &r, long k) {
    static const std::vector<str> progs = {"prog", "./prog", "/usr/bin/prog", "../a/prog", "bin/my prog", "prog.exe", "a_1_2", "/prog", "./a/b/../prog-x"};
    str prog = r.chance(70) ? r.pick(progs) : "dir/" + str(r.range(1, 20), 'a' + (char)r.below(26)); std::vector<str> args = {prog};
    // options of the framework count, too
    if (r.chance(30)) { args.push_back("-O"); args.push_back("out" + std::to_string(r.below(10)) + ".xml"); } if (r.chance(10)) { args.push_back("-P"); args.push_back("d"); }
    int na = (int)r.below(r.chance(10) ? 40 : 6); for (int i = 0; i < na; ++i) { str s; if (r.chance(50)) s = printable(r, r.chance(5) ? 200 : 15); else { int l = (int)r.below(25); for (int j = 0; j < l; ++j) s += (char)(r.chance(10) ? 128 + r.below(128) : 33 + r.below(94)); } if (i == 0 && args.size() == 1 && !s.empty() && s[0] == '-') s = "x" + s; args.push_back(s); }
    std::vector<Call> calls; int nc = r.chance(5) ? r.range(200, 700) : r.range(1, 20); static const std::vector<str> exts = {"mha", "png", "txt", "nii.gz", "", "x y", "MHA"}, roots = {"", "", "/tmp/x", "rel", "rel/sub", ".", "/", "..", "a b", "rel//"};
    for (int i = 0; i < nc; ++i) { Call x; x.ext = r.pick(exts); x.root = r.pick(roots); calls.push_back(x); }
    std::vector<str> second, n = names(args, calls, false); if (n.size() != calls.size()) { VIOL("notRun", "the test was not run with " << lst(args)); return; }
    std::vector<str> n2 = names(args, calls, false); if (n != n2) VIOL("notDeterministic", "the same command line gave " << lst(n) << " and " << lst(n2) << " with " << lst(args));
    str tail = prog.substr(prog.rfind('/') == str::npos ? 0 : prog.rfind('/') + 1);
    std::map<str, int> seen, seent;
    for (size_t i = 0; i < n.size(); ++i) {
      str nm = n[i], t = nm.substr(nm.rfind('/') == str::npos ? 0 : nm.rfind('/') + 1);
      if (seen.count(nm)) VIOL("notUnique", "calls " << seen[nm] << " and " << i << " gave " << jsonq(nm) << " with " << lst(args)); seen[nm] = (int)i;
      str want = "." + calls[i].ext; if (nm.size() < want.size() || nm.compare(nm.size() - want.size(), want.size(), want)) VIOL("extension", jsonq(nm) << " with extension " << jsonq(calls[i].ext));
      if (nm.find(tail) == str::npos) VIOL("program", jsonq(nm) << " of program " << jsonq(prog));
      if (!calls[i].root.empty()) { str root = calls[i].root; while (root.size() > 1 && root.back() == '/') root.pop_back(); str p = root == "/" ? "/" : root + "/"; if (nm.compare(0, p.size(), p) || nm.find('/', p.size()) != str::npos || nm.size() == p.size()) VIOL("root", jsonq(nm) << " with root " << jsonq(calls[i].root) << " of program " << jsonq(prog)); c.count("with_root"); }
      // without root, next to what the program was started as
      else { str dir = prog.substr(0, prog.size() - tail.size()); if (nm.compare(0, dir.size(), dir) || nm.find('/', dir.size()) != str::npos) VIOL("directory", jsonq(nm) << " of program " << jsonq(prog)); }
    }
    c.count("names", n.size());
    // one test object, several runs
    if (r.chance(25)) {
      R t; std::vector<str> all; std::set<str> known; t.body = [&](R &q, int, char **) { for (auto &x : calls) all.push_back(x.root.empty() ? q.GenerateFileName(x.ext) : q.GenerateFileName(x.ext, x.root)); return 0; };
      int runs = r.range(2, 4); str how; { Capture a(std::cout), b(std::cerr); for (int i = 0; i < runs; ++i) { std::vector<str> o = args; if (r.chance(40)) o.push_back("more" + std::to_string(r.below(3))); how += lst(o) + "; "; runMain(t, o); } }
      for (auto &x : all) if (!known.insert(x).second) { VIOL("notUniqueInObject", jsonq(x) << " twice in " << runs << " runs of one object: " << how); break; } c.count("runs_of_one_object", runs);
    }
    // exactly one character different
    for (int q = 0; q < 12; ++q) {
      std::vector<str> o = args; size_t w = r.below(o.size()); if (q && r.chance(50)) w = o.size() - 1; if (w == 0) { if (o.size() == 1) break; w = 1; } if (o[w].empty()) continue; if (w > 0 && w <= 4 && (o[w] == "-O" || o[w] == "-P" || o[w] == "d")) continue;
      size_t p = r.chance(50) ? o[w].size() - 1 - r.below(std::min<size_t>(o[w].size(), 8)) : r.below(o[w].size()); char old = o[w][p], nw; 
      switch (r.below(4)) { case 0: nw = old ^ (1 << r.below(8)); break; case 1: nw = (char)(old ^ 128); break; case 2: nw = old + 1; break; default: nw = (char)(33 + r.below(94)); }
      if (nw == old || nw == 0) continue; if (p == 0 && nw == '-') continue; if ((unsigned char)nw < 32 && o[w - 1] == "-O") continue; if (nw == '/' && o[w - 1] == "-O") continue; o[w][p] = nw;
      std::vector<Call> cc = {calls[0]}; std::vector<str> m = names(o, cc, false); if (m.empty()) continue;
      c.count("one_character"); if (m[0] == n[0]) VIOL("collision", jsonq(m[0]) << " for both " << lst(args) << " and " << lst(o));
    }
    for (int i = 0; i < 10; ++i) unlink(("out" + std::to_string(i) + ".xml").c_str());
    c.nontrivial(lst(args) + std::to_string(nc)); if (k < 3 * c.shards) c.sample(lst(args) + "-> " + n[0]);
  });
  c.finish(); return 0;
}
