// C29: runs do not influence each other
#include "tfx.h"
using namespace vf;
struct Spec { std::vector<str> args; std::vector<Meas> ms; int ret; int ex; bool cmpmode; str in, out; bool viaArgs; int expect; double tol; std::vector<str> path; int nest; };
struct Seen { int ret; bool entered, escaped; std::vector<int> results; str out; };
static str strip(str s) { size_t a; while ((a = s.find("<!-- created on ")) != str::npos) { size_t b = s.find("-->", a); if (b == str::npos) break; s.erase(a, b + 3 - a); } return s; }
static bool operator==(const Seen &a, const Seen &b) { return a.ret == b.ret && a.entered == b.entered && a.escaped == b.escaped && a.results == b.results && a.out == b.out; }
static str show(const Seen &s) { std::ostringstream o; o << "returned " << s.ret << (s.entered ? "" : ", not entered") << (s.escaped ? ", exception" : "") << ", results"; for (int x : s.results) o << " " << x; o << ", output " << jsonq(cut(s.out, 500)); return o.str(); }
struct Settings { str in, out; int expect; double tol; fileutil::PathList path; };
static Settings get(const T &t) { Settings s; s.in = t.GetInFileName(); s.out = t.GetOutFileName(); s.expect = t.GetExpectedReturn(); s.tol = t.GetRelativeTolerance(); s.path = t.GetInFileSearchPath(); return s; }
static void set(T &t, const Settings &s) { t.SetInFileName(s.in); t.SetOutFileName(s.out); t.SetExpectedReturn(s.expect); t.SetRelativeTolerance(s.tol); t.SetInFileSearchPath(s.path); }
static Seen one(T &t, const Spec &s, const std::function<void(int)> &inner) {
  t.entered = false; t.results.clear(); unlink("out.xml"); unlink("out2.xml");
  t.body = [&](T &x, int, char **) { for (size_t i = 0; i < s.ms.size(); ++i) { if (inner && i == s.ms.size() / 2) inner(1); x.make(s.ms[i]); } if (inner && s.ms.empty()) inner(1); if (s.ex == 1) throw std::runtime_error("x"); if (s.ex == 2) throw 5; return s.ret; };
  Seen v; v.escaped = false; v.ret = -99; Capture a(std::cout), b(std::cerr); try { v.ret = runMain(t, s.args); } catch (...) { v.escaped = true; }
  v.entered = t.entered; v.results = t.results; v.out = strip(a.text()) + "|" + strip(readfile("out.xml")) + "|" + strip(readfile("out2.xml")); return v;
}
static Spec anySpec(Rng &r, int id) {
  Spec s; s.ms = anySet(r, 5); s.ret = r.chance(70) ? 0 : r.range(-2, 5); s.ex = r.chance(15) ? r.range(1, 2) : 0; s.args = {"p"}; int n = (int)r.below(10); std::vector<Meas> base = s.ms; str f = "base" + std::to_string(id) + ".xml";
  if (n < 6) { for (auto &m : base) if (r.chance(20)) { m.name += "x"; m.text += "y"; } if (r.chance(25)) base.push_back(anyMeas(r)); if (!base.empty() && r.chance(20)) base.pop_back(); std::vector<Entry> es; for (auto &m : base) es.push_back(entryOf(m)); str d = plainXml(es); if (r.chance(15)) d.resize(r.below(d.size())); writefile(f, d); s.args.push_back("-I"); s.args.push_back(r.chance(5) ? "missing.xml" : f); }
  if (r.chance(35)) { s.args.push_back("-R"); s.args.push_back(std::to_string(r.chance(60) ? s.ret : r.range(-2, 3))); }
  if (r.chance(50)) { s.args.push_back("-O"); s.args.push_back(r.chance(8) ? "no/out.xml" : r.chance(4) ? "/dev/full" : r.chance(50) ? "out.xml" : "out2.xml"); }
  if (r.chance(15)) { s.args.push_back("-P"); s.args.push_back(r.chance(90) ? "dir" : "nodir"); }
  if (r.chance(4)) s.args.push_back("-I");
  return s;
}
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  if (chdir(c.scratch.c_str())) return 3;
  mkdir("dir", 0755);
  cases([&](Rng &r, long k) {
    int n = r.range(2, 8); std::vector<Spec> sp; for (int i = 0; i < n; ++i) sp.push_back(anySpec(r, i));
    T t, other; str log; int fd0 = openfds();
    for (int i = 0; i < n; ++i) {
      bool reset = r.chance(60); T &x = r.chance(20) ? other : t;
      if (reset) { Settings z; z.expect = r.chance(80) ? 0 : r.range(-1, 2); z.tol = r.chance(50) ? 1e-5 : 0; if (r.chance(20)) z.in = "base0.xml"; if (r.chance(20)) z.out = "out.xml"; set(x, z); }
      Settings before = get(x);
      Seen a = one(x, sp[i], nullptr); T fresh; set(fresh, before); Seen b = one(fresh, sp[i], nullptr);
      Settings after = get(x), af = get(fresh);
      // only the options of a run change settings
      { auto opt = [&](const char *o) { std::vector<str> v; for (size_t q = 1; q + 1 < sp[i].args.size(); ++q) if (sp[i].args[q] == o) v.push_back(sp[i].args[q + 1]); return v; };
        auto one_of = [](const std::vector<str> &v, const str &s) { return std::find(v.begin(), v.end(), s) != v.end(); };
        str what; if (after.in != before.in && !one_of(opt("-I"), after.in)) what = "input " + after.in + " was " + before.in;
        if (after.out != before.out && !one_of(opt("-O"), after.out)) what = "output " + after.out + " was " + before.out;
        if (after.expect != before.expect && !one_of(opt("-R"), std::to_string(after.expect))) what = "expected return";
        if (after.tol != before.tol) what = "tolerance"; if (after.path.size() < before.path.size() || after.path.size() > before.path.size() + opt("-P").size()) what = "search path";
        if (!what.empty()) VIOL("settingsLost", "a run changed a setting that is not in its options: " << what << ", arguments of run " << i << cut(log, 900)); }
      log += "[" + vf::show(sp[i].ms) + " returns " + std::to_string(sp[i].ret) + (sp[i].ex ? " throws" : "") + " args"; for (auto &q : sp[i].args) log += " " + q; log += "] ";
      if (!(a == b)) { VIOL("reuse", "run " << i << " of the object: " << show(a) << "; a fresh object: " << show(b) << " after " << cut(log, 1200)); break; }
      if (after.in != af.in || after.out != af.out || after.expect != af.expect || after.tol != af.tol || after.path.size() != af.path.size()) { VIOL("settings", "settings differ from a fresh object's after run " << i << ": " << cut(log, 1200)); break; }
      c.count(a.entered ? (a.ret ? "failures" : "successes") : "rejected"); c.count("runs");
    }
    // one within another
    { Spec A = anySpec(r, 20), B = anySpec(r, 21); for (Spec *s : {&A, &B}) { std::vector<str> v; for (size_t i = 0; i < s->args.size(); ++i) { if (s->args[i] == "-O" && i + 1 < s->args.size()) { ++i; continue; } v.push_back(s->args[i]); } s->args = v; }
      A.args.push_back("-O"); A.args.push_back("outA.xml"); B.args.push_back("-O"); B.args.push_back("outB.xml"); if (A.args[A.args.size() - 3] == "-I") A.args.erase(A.args.end() - 3); if (B.args[B.args.size() - 3] == "-I") B.args.erase(B.args.end() - 3);
      T a1, b1; Seen sa = one(a1, A, nullptr); str oa = strip(readfile("outA.xml")); unlink("outA.xml"); Seen sb = one(b1, B, nullptr); str ob = strip(readfile("outB.xml")); unlink("outB.xml");
      T a2, b2; Seen nb; bool ran = false; Seen na = one(a2, A, [&](int) { nb = one(b2, B, nullptr); ran = true; }); str oa2 = strip(readfile("outA.xml")), ob2 = strip(readfile("outB.xml"));
      if (!(sa == na) || oa != oa2) VIOL("nestedOuter", "alone: " << show(sa) << " " << jsonq(cut(oa)) << "; around another: " << show(na) << " " << jsonq(cut(oa2)));
      if (ran && (!(sb == nb) || ob != ob2)) VIOL("nestedInner", "alone: " << show(sb) << " " << jsonq(cut(ob)) << "; within another: " << show(nb) << " " << jsonq(cut(ob2)));
      if (ran) c.count("nested"); unlink("outA.xml"); unlink("outB.xml"); }
    if (openfds() != fd0) VIOL("openFiles", fd0 << " then " << openfds() << " open files after " << cut(log, 1500));
    if (k % 4 == 0) { T z; leakcheck("leak", cut(log, 1500), [&] { set(z, Settings{"", "", 0, 1e-5, fileutil::PathList()}); for (auto &s : sp) { one(z, s, nullptr); } }); }
    c.nontrivial(log); if (k < 3 * c.shards) c.sample(log);
  });
  c.finish(); return 0;
}
