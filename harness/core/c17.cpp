// C17: file system queries always tell the current state
#include "common.h"
#include "FileUtilities/FileUtilities.h"
#include <sys/wait.h>
#include <sys/socket.h>
#include <sys/un.h>
using namespace vf; using fileutil::PathName; using fileutil::PathList;
static str sig(const str &p) { struct stat s; if (lstat(p.c_str(), &s)) return "-"; char b[200]; snprintf(b, sizeof b, "%o %ld %ld %lu %ld.%ld", s.st_mode, (long)s.st_size, (long)s.st_nlink, (unsigned long)s.st_ino, (long)s.st_mtim.tv_sec, s.st_mtim.tv_nsec); return b; }
typedef std::function<void(const str &, const str &)> Report;
static void query(const PathName &p, const str &n, const str &log, const Report &rep, bool list, bool root) {
  struct stat s; bool ex = !stat(n.c_str(), &s), file = ex && S_ISREG(s.st_mode), dir = ex && S_ISDIR(s.st_mode);
  str before = sig(n); 
  auto bad = [&](const char *w, bool got) { rep(w, jsonq(n) + " " + w + " is " + (got ? "true" : "false") + " after " + log); };
  if (p.Exists() != ex) bad("Exists", !ex);
  if (p.IsFile() != file) bad("IsFile", !file);
  if (p.IsDirectory() != dir) bad("IsDirectory", !dir);
  bool rd = !access(n.c_str(), R_OK | (dir ? X_OK : 0)), wr = !access(n.c_str(), W_OK | (dir ? X_OK : 0)), xe = !access(n.c_str(), X_OK);
  if (p.IsReadable() != rd) bad("IsReadable", !rd); if (p.IsWritable() != wr) bad("IsWritable", !wr); if (p.IsExecutable() != xe) bad("IsExecutable", !xe);
  if (list) {
    std::multiset<str> got, want; PathList l = p.SearchDirectory(); for (auto &q : l) got.insert(q.GetPathName());
    DIR *d = dir ? opendir(n.c_str()) : 0; if (d) { while (dirent *e = readdir(d)) want.insert(e->d_name); closedir(d); }
    if (got != want) rep("SearchDirectory", jsonq(n) + " lists " + std::to_string(got.size()) + " entries and not " + std::to_string(want.size()) + " after " + log);
  }
  if (p.GetPathName() != n) rep("nameChanged", jsonq(n)); if (sig(n) != before) rep("stateChanged", jsonq(n) + " was changed by a query: " + before + " then " + sig(n)); (void)root;
}
static void history(uint64_t seed, int steps, const Report &rep, const str &base, std::map<str, long> *cnt, std::vector<str> *logs) {
  Rng r(seed); str log; std::vector<str> N = {"a", "b", "c", "d", "a/x", "a/y", "b/x", "d/z", ".h", "a/.hidden", "c/..", "./a", "a/", "", "a/x/q", "..", ".", "b//x"};
  N.push_back(str(260, 'n')); N.push_back(base + "/a"); std::vector<std::unique_ptr<PathName> > obj; for (auto &n : N) obj.push_back(std::unique_ptr<PathName>(new PathName(n)));
  PathName moving;
  for (int st = 0; st < steps; ++st) {
    str p = N[r.below(10)], q = N[r.below(10)]; int rc = 0; const char *op = "";
    switch (r.below(12)) {
      case 0: case 1: op = "mkdir"; rc = mkdir(p.c_str(), 0755); break; case 2: case 3: op = "write"; { int f = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_NONBLOCK, 0644); rc = f; if (f >= 0) { if (write(f, p.data(), p.size()) < 0) {} close(f); } } break;
      case 4: op = "unlink"; rc = unlink(p.c_str()); break; case 5: op = "rmdir"; rc = rmdir(p.c_str()); break; case 6: op = "symlink"; { str t = r.chance(60) ? base + "/" + q : q; rc = symlink(t.c_str(), p.c_str()); break; } case 7: op = "rename"; rc = rename(p.c_str(), q.c_str()); break; case 8: op = "link"; rc = link(p.c_str(), q.c_str()); break;
      case 9: case 10: { static const int md[] = {0755, 0644, 0444, 0222, 0111, 0, 0700, 0600, 0500, 0300}; int m = md[r.below(10)]; op = "chmod"; rc = chmod(p.c_str(), m); break; }
      default: op = "mkfifo"; rc = mkfifo(p.c_str(), 0644);
    }
    if (rc >= 0) { log += str(op) + " " + p + (strcmp(op, "symlink") && strcmp(op, "rename") && strcmp(op, "link") ? "" : " " + q) + "; "; if (cnt) (*cnt)[op]++; }
    str l = log.size() > 900 ? "..." + log.substr(log.size() - 900) : log;
    for (size_t i = 0; i < N.size(); ++i) if (r.chance(50)) { query(*obj[i], N[i], l, rep, r.chance(40), false); if (cnt) (*cnt)["queries"]++; }
    size_t i = r.below(N.size()); moving.SetPathName(N[i]); query(moving, N[i], l, rep, true, false); PathName as(N[r.below(N.size())]); as.IsFile(); as = moving; query(as, N[i], l, rep, false, false);
    if (cnt && logs && st + 1 == steps) logs->push_back(log);
  }
}
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); umask(0);
  if (chdir(c.scratch.c_str())) return 3;
  const str S = c.scratch; 
  cases([&](Rng &r, long k) {
    str w = S + "/w"; rmtree(w); mkdir(w.c_str(), 0777); chmod(w.c_str(), 0777); if (chdir(w.c_str())) _exit(3);
    uint64_t s = r.next(); int steps = r.range(5, 60), fd0 = openfds(); std::map<str, long> cnt; std::vector<str> logs;
    bool child = !getuid() && k % 4 == 0;
    if (!child) history(s, steps, [](const str &a, const str &b) { VIOL(a, b); }, w, &cnt, &logs);
    else { // permissions decide something only for other users
      int pp[2]; if (pipe(pp)) _exit(3); pid_t pid = fork();
      if (!pid) { close(pp[0]); if (setgid(65534) || setuid(65534) || chdir(w.c_str()) || access(w.c_str(), W_OK | R_OK | X_OK)) _exit(9);
        history(s, steps, [&](const str &a, const str &b) { str m = a + "\1" + b.substr(0, 1500) + "\2"; if (write(pp[1], m.data(), m.size()) < 0) {} _exit(1); }, w, &cnt, &logs); str m = "\3" + std::to_string(cnt["queries"]) + " " + (logs.empty() ? "" : logs[0].substr(0, 2000)); if (write(pp[1], m.data(), m.size()) < 0) {} _exit(0); }
      close(pp[1]); str m; char b[4096]; long g; while ((g = read(pp[0], b, sizeof b)) > 0) m.append(b, g); close(pp[0]); int st = 0; waitpid(pid, &st, 0);
      if (m[0] == '\3') { c.count("queries_as_other_user", atol(m.c_str() + 1)); logs.push_back("as other user: " + m); c.count("histories_as_other_user"); }
      else { size_t x = m.find('\1'); if (x != str::npos) VIOL(m.substr(0, x), "as another user: " + m.substr(x + 1, m.find('\2') - x - 1)); else if (WIFEXITED(st) && WEXITSTATUS(st) == 9) c.count("no_other_user"); else VIOL("childDied", "status " << st); }
    }
    if (openfds() != fd0) VIOL("openFiles", "queries leave files open");
    for (auto &x : cnt) c.count(x.first, x.second); for (auto &l : logs) { c.nontrivial(l); c.sample(l); }
    if (k % 32 == 0) { PathName p(w); leakcheck("leak", "directory listing", [&] { p.SearchDirectory(); p.IsFile(); p.IsReadable(); PathName("nothing").SearchDirectory(); }); }
    if (k % 97 == 0) { // a large directory
      for (int i = 0; i < 1500; ++i) writefile(w + "/big" + std::to_string(i), ""); PathList l = PathName(w).SearchDirectory(); std::set<str> q; for (auto &x : l) q.insert(x.GetPathName()); DIR *d = opendir(w.c_str()); size_t n = 0; while (readdir(d)) ++n; closedir(d); if (q.size() != l.size() || l.size() != n) VIOL("largeDirectory", l.size() << " entries, " << q.size() << " different, instead of " << n); }
    if (chdir(S.c_str())) _exit(3);
  });
  c.finish(); return 0;
}
