// C05: no failed allocation in a run makes it a success that it is not
// (VF_REPORTS: C08, nor drops anything of a report; VF_LEAKS: C29, nor does it leave memory or open files behind)
#include "tfx.h"
#include "allocfail.h"
using namespace vf;

struct Fixed : std::streambuf { char b[1 << 16]; std::streambuf *o; std::ostream &s; size_t n; explicit Fixed(std::ostream &x) : s(x), n(0) { o = s.rdbuf(this); } ~Fixed() { s.rdbuf(o); s.clear(); } int overflow(int c) { if (c != EOF && n < sizeof b) b[n++] = (char)c; return c == EOF ? 0 : c; } std::streamsize xsputn(const char *p, std::streamsize l) { for (std::streamsize i = 0; i < l && n < sizeof b; ++i) b[n++] = p[i]; return l; } };

struct Run { int ret; bool escaped, entered; std::vector<int> results; int done; str out; long allocations, hits, left; int fds; str err; };
// the lines that do not tell the time
static str timeless(const str &s) { size_t a = s.find("<!--"), b = s.find("-->"); return a == str::npos || b == str::npos ? s : s.substr(0, a) + s.substr(b); }

int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  if (chdir(c.scratch.c_str())) return 3;
  const str bl = c.scratch + "/base.xml", out = c.scratch + "/out.xml"; mkdir("dir", 0755);
  std::set_terminate([] { fprintf(stderr, "terminate\n"); abort(); });
  cases([&](Rng &r, long k) {
    int n = r.chance(10) ? r.range(5, 30) : r.range(0, 4); std::vector<Meas> ms = sized(r, n); for (auto &m : ms) if (m.isfile()) { writefile("dir/f" + std::to_string(r.below(3)), str(r.below(3000), (char)r.below(256))); m.text = c.scratch + "/dir/f" + std::to_string(r.below(3)); }
    bool compare = r.chance(60), tofile = r.chance(80); std::vector<Meas> base = ms;
    if (compare && r.chance(40)) for (auto &m : base) if (r.chance(40)) { if (r.chance(50)) m.name += "!"; else if (!m.isfile() && m.kind <= Meas::PLAIN) m.text += "\nx"; }
    if (compare) { std::vector<Entry> es; for (auto &m : base) es.push_back(entryOf(m)); writefile(bl, plainXml(es)); }
    std::vector<str> args = {"p"}; if (compare) { args.push_back("-P"); args.push_back(c.scratch + "/dir"); args.push_back("-I"); args.push_back(bl); } if (tofile) { args.push_back("-O"); args.push_back(out); } if (r.chance(20)) { args.push_back("-R"); args.push_back("0"); } while (r.chance(20)) args.push_back(r.chance(50) ? "an argument" : "another argument of more than fifteen characters");
    auto run = [&](long first, long count) {
      Run x; rmtree(out); int fds = openfds();
      std::vector<std::vector<char> > st; std::vector<char *> av; for (auto &a : args) { st.push_back(std::vector<char>(a.begin(), a.end())); st.back().push_back(0); } for (auto &s : st) av.push_back(s.data()); av.push_back(0);
      x.escaped = x.entered = false; x.done = 0; x.ret = -9999; x.results.reserve(ms.size() + 1); long live = A.live;
      {
        T t; t.results.reserve(ms.size() + 1); t.args.reserve(args.size() + 1);
        t.body = [&](T &q, int, char **) { x.entered = true; for (auto &m : ms) { x.results.push_back(q.make(m)); ++x.done; } return 0; };
        std::unique_ptr<Fixed> co(new Fixed(std::cout)), ce(new Fixed(std::cerr));
        A.n = 0; A.first = first; A.count = count; A.hits = 0; A.armed = true;
        try { x.ret = t.Main((int)args.size(), av.data()); } catch (...) { x.escaped = true; }
        A.armed = false; x.allocations = A.n; x.hits = A.hits; x.err.assign(ce->b, ce->n);
      }
      x.left = A.live - live - (long)(!x.err.empty() && x.err.capacity() > 15); x.fds = openfds() - fds; if (tofile) x.out = timeless(readfile(out)); return x;
    };
    run(LONG_MAX, 0); run(LONG_MAX, 0); Run ok = run(LONG_MAX, 0); // what is allocated once and for all is there by now
    int bad = 0; for (int v : ok.results) bad += v != 0;
    str what = str(compare ? "compare" : "record") + (tofile ? " to file " : " ") + show(ms);
    if (ok.escaped || !ok.entered || ok.ret != bad) { VIOL("clean", "returned " << ok.ret << " with " << bad << " mismatches without a failure: " << what); return; }
    long N = ok.allocations; long tries = N <= 60 || c.thorough ? N : 60; static long worst = 0; worst = std::max(worst, N);
    for (long j = 0; j < tries; ++j) {
      long first = tries == N ? j : (long)r.below(N), count = r.chance(60) ? 1 : r.chance(50) ? (long)r.range(2, 5) : LONG_MAX;
      Run x = run(first, count); std::ostringstream w; w << "allocation " << first << " of " << N << " failed (" << (count == LONG_MAX ? str("and all that follow") : "and " + std::to_string(count - 1) + " more") << "), returned " << x.ret << " after " << x.done << " of " << ms.size() << " measurements; " << what << "; stderr " << cut(x.err, 100);
      c.nontrivial(hash(what, 1469598103934665603ULL + (uint64_t)first * 31 + (uint64_t)count));       c.count(x.hits ? x.ret ? "failed" : "unharmed" : "nothing_failed");
#ifdef VF_LEAKS
      if (c.thorough && x.hits && x.left > 0) { Run y = run(first, count), z = run(first, count); if (y.left > 0 && z.left > 0) VIOL("memory", x.left << " blocks of memory left: " << w.str()); }
      if (x.fds > 0) VIOL("files", x.fds << " files left open: " << w.str());
      Run again = run(LONG_MAX, 0); if (again.ret != ok.ret || again.results != ok.results || (tofile && again.out != ok.out)) VIOL("later", "a later run returned " << again.ret << " and not " << ok.ret << ": " << w.str());
#elif defined VF_REPORTS
      if (x.hits && x.ret == ok.ret && x.results == ok.results && tofile && x.out != ok.out) VIOL("report", "the output is not the same: " << cut(x.out, 300) << " and not " << cut(ok.out, 300) << ": " << w.str());
      c.count("reported", x.hits && x.ret == ok.ret && bad);
#else
      if (x.escaped) VIOL("escaped", w.str());
      if (!x.hits && x.ret != ok.ret) VIOL("noFailure", w.str());
      if (x.ret == 0) {
        if (!x.entered || x.done != (int)ms.size() || bad) VIOL("success", "without memory " << w.str());
        else if (c.thorough && tofile && x.out != ok.out) VIOL("output", "the output is not the same: " << cut(x.out, 300) << " and not " << cut(ok.out, 300) << ": " << w.str());
      }
      c.count("entered", x.entered);
#endif
    }
    c.count("allocations_failed", tries);
  });
  c.finish(); return 0;
}
