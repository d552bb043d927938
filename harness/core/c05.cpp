// C05: a run that fails or is cut short is never reported as a success
#include "faults.h"
#include "tfx.h"
#include <new>
#include <system_error>
#include <future>
#include <sys/wait.h>
using namespace vf;
struct Own { int i; }; struct OwnEx : std::exception { const char *what() const noexcept { return "own <&> exception"; } };
static const int NEX = 24;
static void raiseEx(int e) {
  switch (e) {
    case 0: throw std::length_error("l"); case 1: throw std::domain_error("d"); case 2: throw std::out_of_range("o"); case 3: throw std::invalid_argument("i");
    case 4: throw std::bad_alloc(); case 5: throw std::bad_cast(); case 6: throw std::range_error("r"); case 7: throw std::overflow_error("o"); case 8: throw std::underflow_error("u");
    case 9: throw std::runtime_error("r"); case 10: throw std::logic_error("l"); case 11: throw std::exception(); case 12: throw OwnEx(); case 13: throw 42; case 14: throw 0; case 15: throw "text"; case 16: throw str("string");
    case 17: throw Own{3}; case 18: throw (const int *)0; case 19: throw std::ios_base::failure("f"); case 20: throw std::bad_typeid(); case 21: throw std::system_error(std::make_error_code(std::errc::io_error)); case 22: throw nullptr; case 23: str().at(3);
  }
}
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN);
  if (chdir(c.scratch.c_str())) return 3;
  const str bl = c.scratch + "/base.xml", out = c.scratch + "/out.xml";
  mkdir("dir", 0755); mkdir("dir2", 0755); writefile("other.xml", "<?xml version=\"1.0\"?><output></output>");
  cases([&](Rng &r, long k) {
    Fault &F = Fault::get(); F = Fault(); F.rng = &r; rmtree(out); unlink(bl.c_str()); if (chdir(c.scratch.c_str())) _exit(3);
    int n = r.chance(10) ? r.range(20, 200) : r.range(0, 6); std::vector<Meas> ms = sized(r, n);
    for (auto &m : ms) m.tol = 0;
    bool compare = r.chance(60), tofile = r.chance(65);
    std::vector<Meas> base = ms; int mismatches = 0;
    if (compare && r.chance(40)) { for (auto &m : base) if (r.chance(30)) { m.name += "!"; ++mismatches; } while (!base.empty() && r.chance(20)) { if (base.back().name == ms[base.size() - 1].name) ++mismatches; base.pop_back(); } if (r.chance(20)) base.push_back(anyMeas(r)); }
    std::vector<Entry> es; for (auto &m : base) es.push_back(entryOf(m)); str doc = plainXml(es);
    int tret = r.chance(60) ? 0 : r.pick(std::vector<int>{1, -1, 2, 255, 256, -2, INT_MAX, INT_MIN}), expect = r.chance(75) ? tret : r.pick(std::vector<int>{0, 1, -1, 3, INT_MAX});
    // one thing that goes wrong, or none
    str fault = "none"; bool fails = false, entered = true; int ex = -1, exat = 0; bool optin = compare, optout = tofile; str inarg = bl, outarg = out; int intest = 0; bool limited = false; long partial = -1;
    std::vector<str> extra; bool badarg = false; bool mustEnter = true, mayFail = false;
    switch (r.below(12)) {
      case 0: case 1: case 2: ex = (int)r.below(NEX); exat = (int)r.below(n + 1); fault = "exception" + std::to_string(ex); fails = true; break;
      case 3: case 4: if (compare) { fails = true; entered = false;
          switch (r.below(7)) {
            case 0: fault = "baselineMissing"; inarg = c.scratch + "/nothing.xml"; break;
            case 1: fault = "baselineDirectory"; inarg = c.scratch + "/dir"; break;
            case 2: fault = "baselineEmpty"; doc = ""; break;
            case 3: case 4: { fault = "baselineTruncated"; size_t cutat = r.below(doc.size()); doc.resize(cutat); if (parseXml(doc).ok) { fails = false; entered = true; fault = "none"; } break; }
            case 5: { fault = "baselineMalformed"; size_t p = r.below(doc.size()); switch (r.below(4)) { case 0: doc.insert(p, "<"); break; case 1: doc.insert(p, "&"); break; case 2: doc[p] = (char)r.below(256); break; default: doc += r.chance(50) ? "<x/>" : "text"; } if (parseXml(doc).ok) { return; } break; }
            default: fault = "baselineReadError"; F.path = bl; F.readLimit = (long)r.below(doc.size() + 1); F.err = r.chance(50) ? EIO : ESTALE; break;
          } } break;
      case 5: case 6: case 7: if (tofile) {
          switch (r.below(6)) {
            case 0: fault = "outputDirectory"; outarg = c.scratch + "/dir"; fails = true; entered = false; break;
            case 1: fault = "outputInMissingDirectory"; outarg = c.scratch + "/no/out.xml"; fails = true; entered = false; break;
            case 2: fault = "outputFull"; outarg = "/dev/full"; fails = true; if (compare && !mismatches) fails = false; break;
            case 3: { fault = "outputLimit"; limited = true; fails = true; partial = (long)r.below(200); break; }
            default: fault = "outputWriteError"; F.path = out; F.writeLimit = r.chance(50) ? (long)r.below(60) : (long)r.below(3000); F.err = r.chance(50) ? ENOSPC : EIO; fails = true; break;
          } } break;
      case 8: intest = r.range(1, 5); break; // the test changes what is around it
      case 9: fault = "slowIO"; F.path = compare && r.chance(50) ? bl : out; F.shorts = true; F.eintr = r.chance(50); break; // legal, no failure
      case 10: if (r.chance(50)) { fails = true; entered = false; badarg = true; switch (r.below(3)) { case 0: fault = "optionWithoutValue"; extra = {r.pick(std::vector<str>{"-I", "-O", "-R", "-P"})}; break; case 1: fault = "badSearchPath"; extra = {"-P", c.scratch + "/nothing"}; break; default: fault = "searchPathIsFile"; extra = {"-P", c.scratch + "/other.xml"}; } } break;
      default: break;
    }
    if (compare) writefile(bl, doc);
    std::vector<str> args = {"p"}; if (expect || r.chance(20)) { args.push_back("-R"); args.push_back(std::to_string(expect)); }
    if (optin) { args.push_back("-I"); args.push_back(inarg); } if (optout) { args.push_back("-O"); args.push_back(outarg); }
    for (auto &e : extra) args.push_back(e);
    int made = 0; bool ent = false; T t; bool direxc = false;
    t.body = [&](T &s, int, char **) {
      ent = true;
      for (int i = 0; i < n; ++i) {
        if (ex >= 0 && exat == i) raiseEx(ex);
        if (intest && i == n / 2) switch (intest) { case 1: if (chdir("dir2")) _exit(3); break; case 2: if (compare) unlink(bl.c_str()); break; case 3: if (compare) s.SetInFileName("no such file"); break; case 4: s.SetOutFileName(c.scratch + "/no/such"); break; case 5: s.SetRelativeTolerance(.5); break; }
        s.make(ms[i]); ++made;
      }
      if (ex >= 0 && exat == n) raiseEx(ex);
      return tret;
    };
    struct rlimit old; getrlimit(RLIMIT_FSIZE, &old);
    if (limited) { struct rlimit l = old; l.rlim_cur = partial; setrlimit(RLIMIT_FSIZE, &l); }
    if (!F.path.empty()) F.armed = true;
    int fds = openfds(); int ret = 0; bool escaped = false; str co, ce;
    { Capture a(std::cout), b(std::cerr); try { ret = runMain(t, args); } catch (...) { escaped = true; } co = a.text(); ce = b.text(); }
    F.armed = false; if (limited) setrlimit(RLIMIT_FSIZE, &old);
    int fds2 = openfds(); if (chdir(c.scratch.c_str())) _exit(3);
    str text = optout && outarg == out ? readfile(out) : co;
    // did the fault take place at all?
    if (fault == "outputWriteError" || fault == "outputLimit") { // what a run without the fault would write
      T t2; int made2 = 0; t2.body = [&](T &s, int, char **) { for (auto &m : ms) { s.make(m); ++made2; } return tret; };
      std::vector<str> a2 = args; for (auto &x : a2) if (x == out) x = c.scratch + "/out2.xml";
      { Capture a(std::cout), b(std::cerr); runMain(t2, a2); }
      size_t full = readfile("out2.xml").size(); long lim = limited ? partial : -1;
      if (fault == "outputWriteError") fails = F.hits > 0; else fails = (long)full > lim;
      unlink("out2.xml");
    }
    if (fault == "baselineReadError") { fails = F.hits > 0; entered = !fails; }
    bool success = !fails && tret == expect && mismatches == 0;
    std::ostringstream w; w << (compare ? "compare " : "record ") << (tofile ? "to file, " : "to stdout, ") << n << " measurements, " << mismatches << " mismatches, fault " << fault << ", test returns " << tret << ", expected " << expect << ", in the test " << intest << ": returned " << ret;
    if (escaped) VIOL("escaped", w.str());
    if (ent != entered) VIOL(ent ? "entered" : "notEntered", w.str() << " " << cut(ce));
    if (ret == 0 && !success) {
      if (ent && tret == 0 && expect != 0 && ex < 0) VIOL("testReturned0", w.str()); // a listed finding
      else VIOL("success." + fault, w.str());
    }
    if (ret != 0 && success) VIOL("failure." + fault, w.str() << " " << cut(ce));
    if (fds2 != fds) VIOL("openFiles", w.str() << ": " << fds << " then " << fds2 << " open files");
    // the output up to the point of failure
    if (ent && (!fails || ex >= 0) && (!optout || outarg == out)) {
      XmlDoc d;
      if (compare) { d = parseXml("<output>" + text + "</output>"); }
      else d = parseXml(ex >= 0 ? text + "</output>" : text);
      if (!d.ok) VIOL("outputNotReadable", w.str() << ": " << d.error << " in " << cut(text, 1200));
      else if (!compare && (int)d.root.kids.size() != made) VIOL("outputIncomplete", w.str() << ": " << d.root.kids.size() << " elements for " << made << " measurements");
      else if (compare) { int bad = 0; for (auto &x : t.results) bad += x != 0; int rep = 0; for (auto &x : d.root.kids) { str nm = x.a("name"); if (nm.compare(0, 9, "Baseline ") != 0) ++rep; } if (rep != bad) VIOL("reportIncomplete", w.str() << ": " << rep << " reports for " << bad << " mismatches in " << cut(text, 1000)); }
      c.count("outputs_read_back");
    }
    c.count("fault." + (ex >= 0 ? str("exception") : fault)); c.count(success ? "successes" : "failures"); if (intest) c.count("changed_in_test");
    c.nontrivial(w.str()); if (k < 3 * c.shards) c.sample(w.str());
    if (k % 16 == 0 && !limited && F.path.empty()) leakcheck("leak", w.str(), [&] { if (chdir(c.scratch.c_str())) _exit(3); if (compare && intest == 2) writefile(bl, doc); T t3; t3.body = t.body; Capture a(std::cout), b(std::cerr); try { runMain(t3, args); } catch (...) {} });
    // files that may not be opened: as a user without the permission
    if (k % 60 == 0 && !getuid()) {
      F = Fault(); str p = c.scratch + "/pub"; rmtree(p); mkdir(p.c_str(), 0777); chmod(p.c_str(), 0777); writefile(p + "/base.xml", doc = plainXml(es = std::vector<Entry>())); writefile(p + "/out.xml", "old"); writefile(p + "/ok.xml", "old"); chmod((p + "/ok.xml").c_str(), 0666);
      int how = (int)r.below(5); bool cmp = how == 1 || r.chance(50); if (how == 1) chmod((p + "/base.xml").c_str(), 0); if (how == 2) { mkdir((p + "/ro").c_str(), 0755); }
      std::vector<str> a = {"p"}; if (cmp) { a.push_back("-I"); a.push_back(p + "/base.xml"); } if (how != 1 || r.chance(50)) { a.push_back("-O"); a.push_back(how == 0 || how == 3 ? p + "/out.xml" : how == 2 ? p + "/ro/new.xml" : p + "/ok.xml"); } if (r.chance(50)) std::rotate(a.begin() + 1, a.begin() + 3 <= a.end() ? a.begin() + 3 : a.begin() + 1, a.end());
      pid_t pid = fork();
      if (!pid) { if (chdir("/") || setgid(65534) || setuid(65534) || access(p.c_str(), X_OK) || !access((p + "/out.xml").c_str(), W_OK)) _exit(9); T t5; bool en = false; t5.body = [&](T &, int, char **) { en = true; return 0; }; Capture x(std::cout), y(std::cerr); int rr = -99; try { rr = runMain(t5, a); } catch (...) { _exit(3); } _exit(rr == 0 ? 1 : en ? 2 : 0); }
      int st = 0; waitpid(pid, &st, 0); int x = WIFEXITED(st) ? WEXITSTATUS(st) : 99; static const char *what[] = {"an output file that may not be written", "a baseline that may not be read", "an output in a directory that may not be written", "an output file that may not be written", "nothing wrong"};
      if (x == 9) c.count("no_other_user"); else if (how == 4 ? x != 1 : x != 0) VIOL(str("permission") + std::to_string(how), what[how] << (cmp ? ", comparing" : ", recording") << ": " << (x == 1 ? "success" : x == 2 ? "failure, but the test was entered" : x == 0 ? "failure" : "escaped or crashed") << ", status " << st); else c.count("permissions");
      rmtree(p);
    }
    (void)mustEnter; (void)mayFail; (void)badarg; (void)direxc;
  });
  c.finish(); return 0;
}
