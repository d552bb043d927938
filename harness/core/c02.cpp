// C02: comparing a test with its own recording succeeds and reports nothing
#include "tfx.h"
using namespace vf;
extern "C" int gethostname(char *b, size_t n) { strncpy(b, "host", n); return 0; }

int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  if (chdir(c.scratch.c_str())) return 3;
  const str rec = c.scratch + "/rec.xml", out = c.scratch + "/out.xml", fd = c.scratch + "/files";
  mkdirs(fd);
  cases([&](Rng &r, long k) {
    std::vector<Meas> ms = k % 50 == 49 ? sized(r, r.range(200, 1500), true) : anySet(r, 8, true);
    int nf = 0;
    for (auto &m : ms) if (m.isfile()) {
      str n = "f" + std::to_string(nf++ % 20) + (r.chance(30) ? " &<>'x.txt" : ".txt"); m.text = fd + "/" + n;
      str body = r.chance(20) ? str() : content(r, r.chance(10) ? 20000 : 200);
      if (r.chance(30)) for (auto &ch : body) if (r.chance(20)) ch = (char)r.below(256);
      writefile(m.text, body);
    }
    // make the recording end near a multiple of 1024 in some cases
    double tol = -1; if (r.chance(50)) { static const std::vector<double> tv = {0., 1e-12, 1e-6, .1, .5, 1e-300, -0.01, 3.}; tol = r.pick(tv); }
    int tret = r.chance(75) ? 0 : r.range(-2, 260);
    std::vector<str> a1 = {"p", "-R", std::to_string(tret), "-O", rec};
    auto setup = [&](T &t) { if (tol != -1) t.SetRelativeTolerance(tol); fileutil::PathList pl; pl.push_back(fileutil::PathName(fd)); t.SetInFileSearchPath(pl); };
    Outcome o1;
    if (r.chance(35)) {
      // a last measurement as long as needed
      Meas m; m.kind = Meas::PLAIN; m.name = "fill"; ms.push_back(m);
      runSet(ms, a1, tret, setup); struct stat st; if (stat(rec.c_str(), &st)) return;
      int want = (int)r.pick(std::vector<int>{0, 0, 0, 1, 1023, 2, 1022, 512});
      int add = ((want - (int)(st.st_size % 1024)) % 1024 + 1024) % 1024;
      ms.back().text = str(add, 'z');
    }
    o1 = runSet(ms, a1, tret, setup);
    struct stat st; if (stat(rec.c_str(), &st)) { VIOL("record", "nothing recorded for " << show(ms)); return; }
    str what = show(ms) + " tol=" + std::to_string(tol) + " size%1024=" + std::to_string(st.st_size % 1024);
    if (o1.ret != (0)) VIOL("record.return", "recording returned " << o1.ret << " for " << what);
    for (int x : o1.results) if (x) { VIOL("record.call", "a measurement returned " << x << " while recording: " << what); break; }
    bool tofile = r.chance(50);
    std::vector<str> a2 = {"p"};
    if (tret || r.chance(50)) { a2.push_back("-R"); a2.push_back(std::to_string(tret)); }
    a2.push_back("-I"); a2.push_back(rec);
    if (tofile) { a2.push_back("-O"); a2.push_back(out); unlink(out.c_str()); }
    Outcome o2 = runSet(ms, a2, tret, setup);
    if (o2.escaped) { VIOL("exception", what); return; }
    if (!o2.entered) { VIOL("notEntered", "the own recording is rejected: " << o2.cerr << " for " << what); return; }
    for (size_t i = 0; i < o2.results.size(); ++i) if (o2.results[i]) { VIOL(str("mismatch.") + ms[i].type(), "measurement " << i << " returned " << o2.results[i] << ": " << ms[i].show() << " in " << what << " output " << cut(tofile ? readfile(out) : o2.cout)); break; }
    if (o2.ret != 0) VIOL("return", "comparing with the own recording returned " << o2.ret << " for " << what);
    str rep = tofile ? readfile(out) : o2.cout;
    if (!rep.empty()) VIOL("output", "a report for matching measurements: " << jsonq(cut(rep)) << " for " << what);
    if (tofile && !exists(out)) VIOL("noOutputFile", what);
    if (k % 10 == 0) leakcheck("leak", what, [&] { Outcome x = runSet(ms, a2, tret, setup); });
    c.count("measurements", ms.size()); c.count("size_mod_1024_is_" + str(st.st_size % 1024 == 0 ? "0" : "other"));
    for (auto &m : ms) { c.count(str("kind.") + m.type()); c.nontrivial(m.show() + std::to_string(tol)); }
    if (k < 3 * c.shards) c.sample(what);
  });
  c.finish(); return 0;
}
