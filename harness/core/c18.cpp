// C18: the current directory is changed and reported truthfully
#include "common.h"
#include "FileUtilities/FileUtilities.h"
#include <sys/wait.h>
using namespace vf; using namespace fileutil;
static str kernelCwd() { // what the operating system says, in a buffer large enough
  std::vector<char> b(1 << 18); return getcwd(b.data(), b.size()) ? str(b.data()) : ""; }
struct Where { dev_t d; ino_t i; bool operator==(const Where &o) const { return d == o.d && i == o.i; } };
static Where here() { struct stat s; Where w; if (stat(".", &s)) { w.d = 0; w.i = 0; } else { w.d = s.st_dev; w.i = s.st_ino; } return w; }
static Where at(const str &p) { struct stat s; Where w; if (stat(p.c_str(), &s)) { w.d = 0; w.i = 0; } else { w.d = s.st_dev; w.i = s.st_ino; } return w; }
static str step(Rng &r, const str &S, std::vector<str> &key, bool other) {
  static const std::vector<str> P = {"a", "a/b", "..", ".", "file", "missing", "link", "dangling", "linkfile", "noexec", "noread", "", "a/", "./a/../a", "fifo", "c d"};
  str p = r.pick(P); if (r.chance(50)) p = S + "/w/" + p; 
  static const std::vector<str> W = {"", "/a", "/link", "/link/b", "/none", "/a/../a"}; // and what a shell said is not asked
  switch (r.below(6)) { case 0: unsetenv("PWD"); break; case 1: setenv("PWD", kernelCwd().c_str(), 1); break; case 2: setenv("PWD", "", 1); break; default: setenv("PWD", (S + "/w" + r.pick(W)).c_str(), 1); if (r.chance(50)) setenv("OLDPWD", (S + "/w" + r.pick(W)).c_str(), 1); }
  if (r.chance(25)) { static const std::vector<str> V = {"/a", "/link", "/link/b", "/a/b"}; str q = S + "/w" + r.pick(V); if (!chdir(q.c_str())) { setenv("PWD", q.c_str(), 1); if (GetCurrentDirectory().GetPathName() != kernelCwd()) key.push_back("reported"); } }
  struct stat s; bool dir = !stat(p.c_str(), &s) && S_ISDIR(s.st_mode); bool may = dir && !access(p.c_str(), X_OK);
  Where before = here(), target = at(p); bool ret = false, threw = false;
  try { ret = SetCurrentDirectory(PathName(p)); } catch (std::runtime_error &) { threw = true; } catch (...) { key.push_back("otherException"); return "set " + p; }
  Where after = here();
  if (threw == dir) key.push_back(dir ? "throws" : "doesNotThrow");
  else if (dir && ret != may) key.push_back("result");
  if (dir && may ? !(after == target) : !(after == before)) key.push_back(dir && may ? "notChanged" : "changed");
  str rep = GetCurrentDirectory().GetPathName(), k = kernelCwd(); if (rep != k) key.push_back("reported"); (void)other;
  return "set " + jsonq(p) + (threw ? " threw" : ret ? " true" : " false") + ", reported " + jsonq(cut(rep, 200)) + " and the system says " + jsonq(cut(k, 200));
}
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); umask(0);
  if (chdir(c.scratch.c_str())) return 3;
  const str S = c.scratch;
  auto prepare = [&] { if (chdir(S.c_str())) _exit(3); rmtree(S + "/w"); mkdir((S + "/w").c_str(), 0777); if (chdir((S + "/w").c_str())) _exit(3); mkdir("a", 0777); mkdir("a/b", 0777); mkdir("c d", 0777); writefile("file", "x"); mkdir("noexec", 0666); mkdir("noread", 0333); mkfifo("fifo", 0666); if (symlink("a", "link") || symlink("none", "dangling") || symlink("file", "linkfile")) {} };
  cases([&](Rng &r, long k) {
    prepare();
    int kind = (int)(k % 12);
    if (kind < 6 || getuid()) { int n = r.range(3, 25); str log; for (int i = 0; i < n; ++i) { std::vector<str> key; str d = step(r, S, key, false); log += d.substr(0, 60) + "; "; for (auto &x : key) VIOL(x, d); c.count("changes"); } c.nontrivial(log); c.sample(log); }
    else if (kind < 8) { // as a user who may not enter everything
      int pp[2]; if (pipe(pp)) _exit(3); pid_t pid = fork();
      if (!pid) { if (setgid(65534) || setuid(65534) || access(".", W_OK | X_OK)) _exit(9); int n = r.range(5, 20); str log; for (int i = 0; i < n; ++i) { std::vector<str> key; str d = step(r, S, key, true); log += d.substr(0, 60) + "; "; if (!key.empty()) { str m = key[0] + "\1" + d; if (write(pp[1], m.data(), m.size()) < 0) {} _exit(1); } } str m = "\3" + log; if (write(pp[1], m.data(), m.size()) < 0) {} _exit(0); }
      close(pp[1]); str m; char b[4096]; long g; while ((g = read(pp[0], b, sizeof b)) > 0) m.append(b, g); close(pp[0]); int st = 0; waitpid(pid, &st, 0);
      if (m[0] == '\3') { c.nontrivial(m); c.count("as_other_user"); } else if (WIFEXITED(st) && WEXITSTATUS(st) == 9) c.count("no_other_user"); else { size_t x = m.find('\1'); VIOL(x == str::npos ? "childDied" : m.substr(0, x), "as another user: " + m); }
    } else if (kind < 10) { // long directory names
      int comp = r.range(1, 250), depth = r.range(1, r.chance(30) ? c.thorough ? 200 : 70 : 30); std::vector<int> near = {1022, 1023, 1024, 1025, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 16384}; int target = r.chance(60) ? r.pick(near) : 0; 
      while (true) { int have = (int)kernelCwd().size(); int l = comp; if (target) { int left = target - have - 1; if (left < 1) break; l = std::min(left, 200); if (left - l == 1) --l; if (l < 1) break; } else if (depth-- <= 0) break; str d(l, (char)('a' + r.below(26))); if (mkdir(d.c_str(), 0777) || chdir(d.c_str())) break; }
      str kc = kernelCwd(), rep = GetCurrentDirectory().GetPathName(); if (rep != kc) VIOL("longReported", "reported " << rep.size() << " characters " << jsonq(cut(rep, 100)) << ", the system says " << kc.size()); c.count(kc.size() >= 4096 ? "directories_over_4095" : kc.size() >= 1024 ? "directories_over_1023" : "directories_short"); c.nontrivial("long" + std::to_string(kc.size()) + kc);
      if (kc.size() < 4000) { bool ok = false; try { ok = SetCurrentDirectory(PathName("..")) && SetCurrentDirectory(PathName(kc)); } catch (...) {} if (!ok || kernelCwd() != kc) VIOL("longBack", "could not come back to a directory of " << kc.size() << " characters"); }
      leakcheck("leak", "current directory", [&] { GetCurrentDirectory(); });
      // remove from the inside, rmtree takes full paths
      for (str x = kernelCwd(); x.size() > S.size() + 2; x = kernelCwd()) { size_t sl = x.rfind('/'); str leaf = x.substr(sl + 1); if (chdir("..")) break; if (rmdir(leaf.c_str())) break; }
    } else { // a current directory that is gone
      mkdir("gone", 0777); if (chdir("gone")) _exit(3); if (rmdir((S + "/w/gone").c_str())) _exit(3); str rep = GetCurrentDirectory().GetPathName(); if (!rep.empty()) VIOL("gone", "reports " << jsonq(rep) << " after the current directory was removed");
      bool threw = false, ok = false; try { ok = SetCurrentDirectory(PathName(S + "/w/a")); } catch (...) { threw = true; } if (threw || !ok || kernelCwd() != S + "/w/a") VIOL("fromGone", "cannot leave a removed directory"); rep = GetCurrentDirectory().GetPathName(); if (rep != S + "/w/a") VIOL("afterGone", jsonq(rep)); c.count("removed"); c.nontrivial("gone");
      // and renamed
      if (rename((S + "/w/a").c_str(), (S + "/w/renamed").c_str())) _exit(3); rep = GetCurrentDirectory().GetPathName(); if (rep != S + "/w/renamed") VIOL("renamed", jsonq(rep));
    }
    if (chdir(S.c_str())) _exit(3);
  });
  c.finish(); return 0;
}
