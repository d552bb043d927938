// C28: itktfImageCompare succeeds exactly if all images match their baselines
#include "imfile.h"
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
using namespace vf;
extern char **environ;
static int run(const std::vector<str> &a, str &out, str &err) {
  std::vector<char *> av; for (auto &s : a) av.push_back((char *)s.c_str()); av.push_back(0); pid_t p = fork();
  if (!p) { setpgid(0, 0); struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); int o = open("o.txt", O_CREAT | O_RDWR | O_TRUNC, 0666), e = open("e.txt", O_CREAT | O_RDWR | O_TRUNC, 0666), z = open("/dev/null", O_RDONLY); dup2(z, 0); dup2(o, 1); dup2(e, 2); execve(av[0], av.data(), environ); _exit(126); }
  int s = -1; for (int i = 0;; ++i) { pid_t q = waitpid(p, &s, WNOHANG); if (q == p) break; if (i > 120000) { kill(-p, SIGKILL); waitpid(p, &s, 0); s = -1; break; } usleep(1000); }
  out = readfile("o.txt"); err = readfile("e.txt"); return s;
}
struct File { str test, base; Seen st, sb; Gen g; str show; bool broken; };
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); if (chdir(c.scratch.c_str())) return 3; quietItk(); const str tool = c.data + "/itktfImageCompare", tag = "c28_" + std::to_string(c.shard);
  cases([&](Rng &r, long k) {
    if (k < 2 * c.shards) { // many pixels, or a large radius
      mkdir("base", 0755); mkdir("test", 0755); BigPair p = bigPair(r, k >= c.shards); str tn = tag + "_t.mha"; mhaFile("test/" + tn, p.w, p.h, p.test); mhaFile("base/b.mha", p.w, p.h, p.base); Tol t = bigTol(r, p); int n = r.range(1, 3); std::vector<Entry> es; std::vector<str> a = {tool, "-P", "base", "-I", "base.xml", "--intensityTolerance", std::to_string(t.i), "--numberOfPixelTolerance", std::to_string(t.n), "--radiusTolerance", std::to_string(t.r)}; for (int i = 0; i < n; ++i) { Entry e; e.tag = "DartMeasurementFile"; e.name = "ImageFile" + std::to_string(i); e.type = "image/itk"; e.content = "b.mha"; es.push_back(e); a.push_back("test/" + tn); } writefile("base.xml", plainXml(es));
      str out, err, what; for (auto &w : a) what += " " + w; what += ": " + p.show; int s = run(a, out, err); bool want = p.count(t) <= (long)t.n, exit0 = WIFEXITED(s) && WEXITSTATUS(s) == 0; if (want != exit0) VIOL(want ? "failsWithMatches" : "acceptsMismatch", "status " << s << ", " << p.count(t) << " pixels outside:" << what << cut(err)); if (want != (out.find("ImageFile0\"") == str::npos)) VIOL(want ? "reportsMatch" : "noReport", what << cut(out, 1500)); c.count("large_cases"); c.nontrivial(what); return;
    }
    for (auto d : {"base", "test"}) { rmtree(c.scratch + "/" + d); mkdir(d, 0755); } rmtree(c.scratch + "/out.xml");
    std::vector<File> fs; int n = r.range(1, 4); str all; std::set<str> tails;
    for (int i = 0; i < n; ++i) { File f; f.broken = false; Shot a = shot(r, f.g), b = r.chance(40) ? a : variant(r, a, f.g); str stem = tag + "_" + std::to_string(i); f.test = writeAny(r, b, "test", stem); f.base = writeAny(r, a, "base", stem + "b"); if (f.test.empty() || f.base.empty()) continue; f.test = "test/" + f.test; if (r.chance(7)) { f.broken = true; bool t = r.chance(50); f.show = " " + breakFile(r, t ? f.test : "base/" + f.base) + (t ? " test file" : " baseline file"); } f.st = readImage(f.test); f.sb = readImage("base/" + f.base); f.show = f.test + " " + show(b) + " baseline " + f.base + " " + show(a) + f.show; fs.push_back(f); all += f.show + "\n"; }
    if (fs.empty()) return;
    auto num = [](double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return str(b); };
    // the command line: words, and what is expected of them
    std::vector<str> words; std::vector<Entry> es; Tol now; int bad = 0, images = 0; bool fail = false, open = false; str why; std::vector<str> recorded;
    bool many = r.chance(4); int steps = many ? r.range(200, 520) : (int)r.below(9), force = many && r.chance(50) ? 256 : -1; long slow = 0; size_t same = r.below(fs.size());
    std::vector<int> judged; bool careful = !many && r.chance(60), hinge = r.chance(60); // few images, tolerances that accept or just do not, no other faults
    if (careful) {
      steps = r.range(1, 7); auto word = [&](const str &o, const str &v) { words.push_back(o); words.push_back(v); };
      for (int i = 0; i < steps && !fail; ++i) {
        const File &f = fs[r.chance(70) ? same : r.below(fs.size())]; if (f.broken || !f.st.ok || !f.sb.ok) continue; Tol t = r.chance(35) ? Tol() : anyTol(r, f.g, f.st, f.sb);
        for (int tries = 0; tries < 6 && r.chance(60) && expectMatch(f.st, f.sb, t) != 1; ++tries) t = anyTol(r, f.g, f.st, f.sb);
        int first = (int)r.below(3); for (int j = 0; j < 3; ++j) switch ((first + j) % 3) {
          case 0: if (t.i != now.i && r.chance(85)) { word("--intensityTolerance", num(t.i)); now.i = t.i; } break;
          case 1: if (t.n != now.n && r.chance(85)) { word("--numberOfPixelTolerance", std::to_string(t.n)); now.n = t.n; } break;
          default: if (t.r != now.r && r.chance(85)) { word("--radiusTolerance", std::to_string(t.r)); now.r = t.r; }
        }
        int e = expectMatch(f.st, f.sb, now); if (hinge && e != 1 && (bad || r.chance(50))) continue;
        words.push_back(f.test); Entry en; en.tag = "DartMeasurementFile"; en.name = "ImageFile" + std::to_string(images); en.type = "image/itk"; en.content = f.base; es.push_back(en); recorded.push_back(f.test.substr(f.test.rfind('/') + 1)); ++images; judged.push_back(e); if (e < 0) open = true; else if (!e) ++bad;
      }
      steps = 0; c.count("careful");
    }
    for (int i = 0; i < steps || (force > 0 && bad < force && !fail); ++i) {
      if (fail && r.chance(50)) break;
      if (i > 3000) break; int what = many ? (r.chance(97) ? 0 : 1) : (int)r.below(10);
      if (what < 6) { // an image
        const File &f = fs[many ? same : r.below(fs.size())]; int e = f.broken && f.st.ok && f.sb.ok ? -1 : expectMatch(f.st, f.sb, now); bool unread = !f.st.ok || !f.sb.ok;
        if (force > 0 && bad == force) break; words.push_back(f.test); if (unread && many && !fail && images > 2) { words.pop_back(); break; }
        std::ostringstream nm; nm << "ImageFile" << images; Entry en; en.tag = "DartMeasurementFile"; en.name = nm.str(); en.type = "image/itk"; en.content = f.base; recorded.push_back(f.test.substr(f.test.rfind('/') + 1));
        if (r.chance(many ? 0 : 2)) { en.name = "ImageFile" + std::to_string(images + 1); e = 0; unread = false; } es.push_back(en); ++images;
        if (!fail) judged.push_back(unread ? -1 : e);
        if (!fail) { if (e < 0) open = true; else if (unread) { fail = true; why = "unreadable"; } else if (e == 0) { ++bad; if (f.st.ok && f.sb.ok && f.st.img.size == f.sb.img.size && ++slow > 40 && force < 0) steps = i; } }
        if (force > 0 && e != 0 && bad == 0 && images > 5) break;
      } else if (what < 9) {
        const File &f = fs[r.below(fs.size())]; Tol t = anyTol(r, f.g, f.st, f.sb);
        switch (r.below(3)) { case 0: words.push_back("--intensityTolerance"); words.push_back(num(t.i)); if (!fail) now.i = t.i; break; case 1: words.push_back("--numberOfPixelTolerance"); words.push_back(std::to_string(t.n)); if (!fail) now.n = t.n; break; default: words.push_back("--radiusTolerance"); words.push_back(std::to_string(t.r)); if (!fail) now.r = t.r; }
      } else if (r.chance(50)) { // something wrong
        switch (r.below(4)) {
          case 0: words.push_back(r.pick(std::vector<str>{"-x", "--", "-", "--intensitytolerance", "--intensityTolerance=3", "--radius", "-radiusTolerance", "--help", "-h", "--intensityTolerances", "--numberOfPixelsTolerance", "-3"})); if (!fail) { fail = true; why = "unknown option"; } break;
          case 1: words.push_back("--intensityTolerance"); words.push_back(r.pick(std::vector<str>{"", "abc", "x1", "--radiusTolerance", "-", "e5", "nan", "test", "1,5", "1.5x", "3 4", "0x10", "1e", "--5"})); if (!fail) { fail = true; why = "malformed real"; } break;
          default: words.push_back(r.chance(50) ? "--numberOfPixelTolerance" : "--radiusTolerance"); words.push_back(r.pick(std::vector<str>{"", "abc", "x1", "--radiusTolerance", "-", "99999999999999999999", "4294967296", "-1", "-7", "1.5", "2x", "3 4", "1e3", "0x10", "1,000"})); if (!fail) { fail = true; why = "malformed number"; } break;
        }
      }
    }
    if (!many && r.chance(careful ? 2 : 8)) { words.push_back(r.pick(std::vector<str>{"--intensityTolerance", "--numberOfPixelTolerance", "--radiusTolerance"})); if (!fail) { fail = true; why = "missing value"; } }
    if (!many && r.chance(careful ? 1 : 3)) { words.push_back("test/no such file"); if (!fail) { fail = true; why = "missing file"; Entry en; en.tag = "DartMeasurementFile"; en.name = "ImageFile" + std::to_string(images); en.type = "image/itk"; en.content = fs[0].base; es.push_back(en); } }
    size_t used = es.size(); if (!many && r.chance(6) && !es.empty() && !fail) { es.pop_back(); judged.back() = 0; if (!open) { bad = -1; } } else if (r.chance(10)) es.push_back(es.empty() ? Entry() : es[0]);
    bool rec = !many && r.chance(15); std::ostringstream line; for (auto &w : words) { if (line.str().size() < 1500) line << " " << jsonq(w); } str what = line.str() + " (" + std::to_string(words.size()) + " words)\n" + all;
    std::vector<str> a = {tool}; str out, err; 
    if (rec) {
      a.push_back("-O"); a.push_back("out.xml"); a.insert(a.end(), words.begin(), words.end()); int s = run(a, out, err); bool exit0 = WIFEXITED(s) && WEXITSTATUS(s) == 0;
      bool usage = fail && why != "unreadable" && why != "missing file"; if (fail && !usage && r.chance(100)) { c.count("left_open"); c.nontrivial(what); return; } // recording does not need the files
      if (usage == exit0) VIOL("recordExit", "recording ended with " << s << (usage ? ", " + why : str()) << ": " << what << err);
      if (!usage) { XmlDoc d = parseXml(readfile("out.xml")); if (!d.ok || d.root.kids.size() != recorded.size()) VIOL("recording", d.error << " " << recorded.size() << " images, recorded " << jsonq(cut(readfile("out.xml"))) << ": " << what); else for (size_t i = 0; i < recorded.size(); ++i) { const Node &x = d.root.kids[i]; if (x.tag != "DartMeasurementFile" || x.a("name") != "ImageFile" + std::to_string(i) || x.a("type") != "image/itk" || x.text != recorded[i]) { VIOL("recording", "image " << i << " recorded as " << jsonq(x.a("name")) << " " << x.a("type") << " " << jsonq(x.text) << ": " << what); break; } } }
      c.count("recordings"); c.nontrivial(what + "rec"); return;
    }
    (void)used; writefile("base.xml", plainXml(es)); a.push_back("-P"); a.push_back("base"); a.push_back("-I"); a.push_back("base.xml"); a.insert(a.end(), words.begin(), words.end());
    int s = run(a, out, err); bool crash = !WIFEXITED(s) || err.find("Sanitizer") != str::npos || err.find("runtime error") != str::npos; if (crash) { VIOL("crash", "status " << s << ": " << what << cut(err, 2000)); return; }
    bool exit0 = WEXITSTATUS(s) == 0; if (open && !fail && bad == 0) { c.count("left_open"); return; }
    bool want = !fail && bad == 0; if (exit0 != want) VIOL(want ? "failsWithMatches" : fail ? "acceptsBadCommand" : "acceptsMismatch", "exit status " << WEXITSTATUS(s) << " with " << bad << " mismatches of " << images << " images" << (fail ? " and " + why : str()) << ": " << what << cut(err));
    // every image that does not match is reported
    for (size_t i = 0; i < judged.size(); ++i) if (judged[i] >= 0) { bool told = out.find("ImageFile" + std::to_string(i) + "\"") != str::npos; if (told == (judged[i] == 1)) { VIOL(told ? "reportsMatch" : "noReport", "image " << i << (told ? " is reported and matches: " : " does not match and is not reported: ") << what << cut(out, 1500)); break; } c.count(told ? "images_reported" : "images_matched"); }
    c.count(want ? images ? "success" : "no_images" : fail ? "refused_" + why : "mismatches"); if (bad >= 256) c.count(bad == 256 ? "with_256_mismatches" : "with_more_than_256_mismatches"); c.nontrivial(what + plainXml(es)); if (k < 3 * c.shards) c.sample(what);
  });
  DIR *d = opendir(reportDir()); if (d) { std::vector<str> fs; while (dirent *e = readdir(d)) fs.push_back(e->d_name); closedir(d); for (auto &f : fs) if (!f.compare(0, tag.size() + 1, tag + "_")) unlink((str(reportDir()) + "/" + f).c_str()); }
  c.finish(); return 0;
}
