// C14: file measurements compare the measured file with the right baseline file
#include "tfx.h"
#include "b64ref.h"
#include <sys/wait.h>
using namespace vf;
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  if (chdir(c.scratch.c_str())) return 3;
  const str S = c.scratch;
  cases([&](Rng &r, long k) {
    str w = S + "/w"; rmtree(w); mkdir(w.c_str(), 0755); if (chdir(w.c_str())) _exit(3);
    std::vector<str> dirs = {"A", "B", "C", "D"}, leaves = {"x.txt", "y", "z.dat", "name with space", "x"};
    for (auto &d : dirs) mkdir(d.c_str(), 0755); mkdir("T", 0755);
    std::vector<str> datas = {content(r, 50), "", bytes(r, r.below(300)), str("a\0b", 3), "line\n", "line"}; datas.push_back(datas[0] + "\n"); { str x; for (char ch : datas[0] + "\n") { if (ch == '\n') x += '\r'; x += ch; } datas.push_back(x); datas.push_back("line\r\n"); datas.push_back("\xef\xbb\xbfline"); datas.push_back("line\x1a"); } if (r.chance(10)) datas.push_back(bytes(r, r.below(200000))); if (r.chance(20)) { str x = datas[2]; if (!x.empty()) { x[x.size() - 1] ^= 1; datas.push_back(x); } }
    int nd = (int)datas.size(); int two[2] = {(int)r.below(nd), (int)r.below(nd)};
    auto some = [&] { return r.chance(75) ? datas[two[r.chance(85) ? 0 : 1]] : r.pick(datas); };
    // what lies around: files, directories, links, dangling links
    auto place = [&](const str &p) { switch (r.below(10)) { case 0: mkdir(p.c_str(), 0755); break; case 1: { if (symlink("nowhere", p.c_str())) {} break; } case 2: { str t = S + "/w/linked" + std::to_string(r.below(3)); writefile(t, some()); if (symlink(t.c_str(), p.c_str())) {} break; } default: writefile(p, some()); } };
    for (auto &d : dirs) for (auto &l : leaves) if (r.chance(35)) place(d + "/" + l);
    for (auto &l : leaves) { if (r.chance(85)) { str p = "T/" + l; r.chance(90) ? (void)writefile(p, some()) : (r.chance(30) ? (void)0 : r.chance(50) ? (void)mkdir(p.c_str(), 0755) : (void)!symlink("nowhere", p.c_str())); } if (r.chance(25)) { if (r.chance(10)) mkdir(l.c_str(), 0755); else writefile(l, some()); } }
    // a file that does not tell its size
    static const str odd = "/proc/version"; static const str oddData = readfile(odd); bool useOdd = !oddData.empty() && r.chance(25); if (useOdd) for (auto &l : leaves) for (auto &d : dirs) if (r.chance(15) && !exists(d + "/" + l)) { writefile(d + "/" + l, r.chance(70) ? oddData : oddData + "x"); }
    // search path
    std::vector<str> path, args = {"p"}; fileutil::PathList pl; int np = r.range(0, 3), ns = r.range(0, 2), nr = r.range(0, 2);
    auto dir = [&] { str d = r.pick(dirs); return r.chance(20) ? S + "/w/" + d : r.chance(10) ? d + "/" : d; };
    for (int i = 0; i < np; ++i) { str d = r.chance(10) ? "missing" : dir(); path.push_back(d); pl.push_back(fileutil::PathName(d)); }
    std::vector<str> opts; for (int i = 0; i < ns; ++i) { str d = dir(); opts.push_back(d); args.push_back("-P"); args.push_back(d); path.insert(path.begin(), d); }
    auto isreg = [](const str &p) { struct stat s; return !stat(p.c_str(), &s) && S_ISREG(s.st_mode); };
    struct F { str tpath, name, bname; Meas::Kind kind; bool same, twice; }; std::vector<F> fs; int n = r.range(1, 6);
    std::vector<Meas> ms; std::vector<Entry> es; std::vector<int> want; std::vector<str> desc;
    for (int i = 0; i < n; ++i) {
      Meas m; m.kind = (Meas::Kind)(r.chance(60) ? Meas::FTEXT : r.chance(50) ? Meas::FPNG : Meas::FJPEG); m.name = "f" + std::to_string(i); str l = r.pick(leaves); if (r.chance(8)) l = "missing"; m.text = r.chance(70) ? "T/" + l : r.chance(50) ? S + "/w/T/" + l : l;
      if (useOdd && r.chance(30)) m.text = odd; Entry e = entryOf(m); str rl = r.chance(85) ? l : r.pick(leaves); e.content = r.chance(85) ? rl : r.chance(50) ? "some/where/" + rl : S + "/w/T/" + rl;
      bool other = r.chance(6); if (other) e.type = r.pick(std::vector<str>{"text/plain", "image/png", "image/jpeg", "image/jpe", "text/string", "image/itk", "numeric/integer"});
      ms.push_back(m); es.push_back(e);
    }
    // recording needs no file, and stores the last component
    { Outcome o = runSet(ms, {"p", "-O", "rec.xml"}); XmlDoc d = parseXml(readfile("rec.xml")); if (o.ret || !d.ok || d.root.kids.size() != ms.size()) VIOL("record", show(ms) << " returned " << o.ret << " " << d.error); else for (size_t i = 0; i < ms.size(); ++i) { str l = ms[i].text.substr(ms[i].text.rfind('/') + 1); if (d.root.kids[i].text != l || d.root.kids[i].tag != "DartMeasurementFile" || d.root.kids[i].a("type") != ms[i].type()) VIOL("recordName", jsonq(d.root.kids[i].text) << " recorded for " << ms[i].show()); } }
    // directories that are put in front within the test
    std::vector<str> runtime; for (int i = 0; i < nr; ++i) runtime.push_back(dir());
    std::vector<str> cur = path; int at = (int)r.below(n + 1);
    for (int i = 0; i < n; ++i) {
      if (i == at) for (auto &d : runtime) cur.insert(cur.begin(), d);
      str l = es[i].content.substr(es[i].content.rfind('/') + 1), b = es[i].content; for (auto &d : cur) if (isreg(d + "/" + l)) { b = d + "/" + l; break; }
      bool ok = es[i].type == ms[i].type() && isreg(b) && isreg(ms[i].text) && readfile(b) == readfile(ms[i].text); want.push_back(!ok);
      desc.push_back(str(ms[i].type()) + " " + ms[i].text + " against " + es[i].content + " found as " + b + (isreg(b) ? "" : " (no file)") + (isreg(ms[i].text) ? "" : " (nothing measured)"));
    }
    writefile(S + "/base.xml", plainXml(es)); args.push_back("-I"); args.push_back(S + "/base.xml");
    auto go = [&](T &t) { t.SetInFileSearchPath(pl); t.body = [&](T &s, int, char **) { for (int i = 0; i < n; ++i) { if (i == at) for (auto &d : runtime) s.PrependInFileSearchPath(fileutil::PathName(d)); s.make(ms[i]); } return 0; }; };
    int ret = -9; bool esc = false; T t; go(t); int fd0 = openfds(); { Capture a(std::cout), b(std::cerr); try { ret = runMain(t, args); } catch (...) { esc = true; } }
    if (openfds() != fd0) VIOL("openFiles", desc[0]);
    std::ostringstream pa; for (auto &d : path) pa << " " << d; pa << " runtime at " << at << ":"; for (auto &d : runtime) pa << " " << d;
    if (esc || (int)t.results.size() != n) VIOL("aborted", "made " << t.results.size() << " of " << n << ": " << desc[0] << " path" << pa.str());
    int bad = 0;
    for (size_t i = 0; i < t.results.size(); ++i) {
      bad += want[i]; if ((t.results[i] != 0) != (want[i] != 0)) VIOL(want[i] ? "falseMatch" : "falseMismatch", desc[i] << ", path" << pa.str() << ": returned " << t.results[i]);
      c.count(str(want[i] ? "mismatch" : "match") + (ms[i].kind == Meas::FTEXT ? "" : "_of_images")); if (es[i].type != ms[i].type()) c.count("other_type"); c.nontrivial(desc[i] + pa.str() + (want[i] ? "1" : "0") + std::to_string(k % 64)); if (k < 2 * c.shards) c.sample(desc[i] + " path" + pa.str() + (want[i] ? ": mismatch" : ": match"));
    }
    if (t.results.size() == want.size() && ret != bad) VIOL("return", "returned " << ret << " and not " << bad);
    if (k % 8 == 0) leakcheck("leak", desc[0], [&] { T x; go(x); Capture a(std::cout), b(std::cerr); runMain(x, args); });
    // unreadable files: as a user who may not read them
    if (k % 50 == 0 && !getuid()) {
      str p = S + "/pub" + std::to_string(c.shard); rmtree(p); mkdir(p.c_str(), 0777); chmod(p.c_str(), 0777); mkdir((p + "/b").c_str(), 0777); writefile(p + "/t", "same"); writefile(p + "/b/t", "same"); writefile(p + "/u", "same"); writefile(p + "/b/u", "same"); chmod((p + (r.chance(50) ? "/t" : "/b/t")).c_str(), 0); 
      Meas m1, m2; m1.kind = m2.kind = r.chance(50) ? Meas::FTEXT : Meas::FPNG; m1.name = "t"; m1.text = p + "/t"; m2.name = "u"; m2.text = p + "/u"; writefile(p + "/base.xml", plainXml({entryOf(m1), entryOf(m2)}));
      pid_t pid = fork();
      if (!pid) { if (chdir("/") || setgid(65534) || setuid(65534) || access((p + "/u").c_str(), R_OK) || access((p + "/base.xml").c_str(), R_OK)) _exit(9); Outcome o = runSet({m1, m2}, {"p", "-P", p + "/b", "-I", p + "/base.xml"}); _exit(o.results.size() == 2 && o.results[0] && !o.results[1] && o.ret == 1 ? 0 : 1); }
      int st = 0; waitpid(pid, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 9) c.count("no_other_user"); else if (st) VIOL("unreadable", "an unreadable file is not just a mismatch, status " << st); else c.count("unreadable_files");
    }
    if (chdir(S.c_str())) _exit(3);
  });
  c.finish(); return 0;
}
