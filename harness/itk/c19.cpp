// C19: tfPipeToXML records exactly the standard output and exit value of a command
#include "tfx.h"
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
using namespace vf;
struct Ran { int status; str out, err; bool timeout; };
static Ran run(const std::vector<str> &a, const std::vector<str> &env, int stdoutMode) {
  Ran x; x.timeout = false; x.status = -1;
  std::vector<char *> av, ev; for (auto &s : a) av.push_back((char *)s.c_str()); av.push_back(0); for (auto &s : env) ev.push_back((char *)s.c_str()); ev.push_back(0);
  unlink("o.txt"); unlink("e.txt");
  pid_t p = fork();
  if (!p) {
    setpgid(0, 0); struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    int o = open("o.txt", O_CREAT | O_RDWR | O_TRUNC | O_APPEND, 0666), e = open("e.txt", O_CREAT | O_RDWR | O_TRUNC | O_APPEND, 0666); dup2(o, 1); dup2(e, 2); if (stdoutMode == 1) dup2(1, 2);
    execve(av[0], av.data(), ev.data()); _exit(126);
  }
  for (int i = 0;; ++i) { int s; pid_t q = waitpid(p, &s, WNOHANG); if (q == p) { x.status = s; break; } if (i > 60000) { kill(-p, SIGKILL); waitpid(p, &s, 0); x.timeout = true; break; } usleep(i < 200 ? 200 : 1000); }
  x.out = readfile("o.txt"); x.err = readfile("e.txt"); return x;
}
static str text(Rng &r, size_t n) { str s(n, ' '); int m = (int)r.below(3); for (size_t i = 0; i < n; ++i) s[i] = r.chance(3) ? r.pick(std::vector<char>{'\n', '\n', '\n', '\t', '\r'}) : m == 0 ? (char)('a' + r.below(26)) : m == 1 ? "&<>\"']]>x "[r.below(10)] : (char)(32 + r.below(95)); return s; }
static size_t anySize(Rng &r, bool thorough) { switch (r.below(12)) { case 0: return 0; case 1: return 1; case 2: return r.range(4090, 4100); case 3: return r.range(1020, 1030); case 4: return 65536 + r.range(-2, 2); case 5: return r.below(thorough ? 4000000 : 400000); default: return r.below(300); } }
static str hexargs(const std::vector<str> &a) { str s; char b[8]; for (auto &x : a) { s += "["; for (unsigned char ch : x) { snprintf(b, sizeof b, "%02x", ch); s += b; } s += "]"; } return s + "\n"; }
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); if (chdir(c.scratch.c_str())) return 3;
  str tool = c.data + "/tfPipeToXML", helper = c.data + "/c19helper"; char cwd[5000]; if (!getcwd(cwd, sizeof cwd)) return 3;
  mkdir("adir", 0755); writefile("noexec", "x"); chmod("noexec", 0644); writefile("notbinary", "hello\n"); chmod("notbinary", 0755); writefile("sh1", "#!/bin/sh\necho \"$#:$1:$2\"\nexit 7\n"); chmod("sh1", 0755);
  std::vector<str> base; for (char **e = environ; *e; ++e) base.push_back(*e);
  cases([&](Rng &r, long k) {
    // what the command does
    str script, expect; int exitv = r.chance(55) ? 0 : r.chance(30) ? 255 : r.chance(30) ? (int)r.pick(std::vector<int>{1, 2, 126, 127, 128, 129, 137, 139, 254}) : (int)r.below(256); int sig = 0; std::vector<str> cmd, cargs; bool ok = true; str kind;
    int what = (int)r.below(100);
    if (k < c.shards) {  // a command that takes its time: one silence a process, so that a limit in the program is met
      static const long wait[] = {1, 2, 3, 5, 6, 8, 11, 13, 16, 18}; long sec = wait[k % 10]; if (c.thorough) sec = sec * 5 / 2; kind = "slow"; cmd.push_back(helper); str t = text(r, 50), u = text(r, 50); std::ostringstream s;
      s << "W 50\n" << t << "\nS " << sec * 1000000 << "\nW 50\n" << u << "\nX " << exitv << "\n"; script = s.str(); expect = t + u;
    } else if (k < 2 * c.shards) {  // a very large output, one a process
      static const long mb[] = {1, 9, 3, 17, 5, 2, 33, 7}; long n = mb[k % 8] * 1000000 + r.below(200000); if (c.thorough) n *= 2; kind = "large"; cmd.push_back(helper); std::ostringstream s; int pieces = r.chance(50) ? 1 : r.range(2, 9);
      for (int q = 0; q < pieces; ++q) { str t(n / pieces, (char)('a' + q)); for (size_t i = r.below(70); i < t.size(); i += 1 + r.below(200)) t[i] = r.chance(80) ? '\n' : (char)('A' + r.below(26)); s << "W " << t.size() << "\n" << t << "\n"; expect += t; }
      s << "X " << exitv << "\n"; script = s.str();
    } else if (what < 82) {
      kind = "helper"; cmd.push_back(helper);
      int na = r.chance(40) ? 0 : (int)r.below(r.chance(5) ? 200 : 6); static const std::vector<str> odd = {"", "-I", "-O", "-R", "-P", "--help", "a b", "  ", "\"q\"", "'", "\\", "$HOME", "*", ">x", "|cat", ";", "\xc3\xa9", "\xff", "%s%n", "-I base.xml", "&amp;", "a\nb", "\t"};
      for (int i = 0; i < na; ++i) cargs.push_back(r.chance(50) ? r.pick(odd) : r.chance(3) ? str(r.below(20000), 'x') : printable(r, 20));
      int ops = (int)r.below(8); bool open1 = true; long slept = 0; std::ostringstream s;
      for (int i = 0; i < ops; ++i) switch (r.below(9)) {
        case 0: if (open1) { s << "A 0\n"; expect += hexargs(cargs); } break;
        case 1: if (slept < 60000) { long us = r.below(r.chance(10) ? 50000 : 3000); slept += us; s << "S " << us << "\n"; } break;
        case 2: { str t = text(r, anySize(r, c.thorough) / 2); s << "E " << t.size() << "\n" << t << "\n"; break; }
        case 3: if (r.chance(15)) { s << "C 1\n"; open1 = false; } else if (r.chance(20)) s << "C 2\n"; break;
        case 4: if (open1 && r.chance(30)) { s << "D 0\n"; expect += str(cwd) + "\n"; } break;
        default: { int pieces = r.chance(15) ? r.range(2, 40) : 1; for (int q = 0; q < pieces && open1; ++q) { str t = text(r, anySize(r, c.thorough) / pieces); s << "W " << t.size() << "\n" << t << "\n"; expect += t; } }
      }
      if (r.chance(15)) { static const std::vector<int> sg = {SIGKILL, SIGTERM, SIGSEGV, SIGABRT, SIGINT, SIGPIPE, SIGFPE, SIGHUP, SIGALRM, SIGUSR1, SIGBUS, SIGILL}; sig = r.pick(sg); s << "K " << sig << "\n"; kind = "signal"; } else s << "X " << exitv << "\n";
      script = s.str();
    } else if (what < 85) { kind = "missing"; cmd.push_back("no-such-command-" + std::to_string(k)); ok = false; }
    else if (what < 87) { kind = "directory"; cmd.push_back("./adir"); ok = false; }
    else if (what < 89) { kind = "notexec"; cmd.push_back("./noexec"); ok = false; }
    else if (what < 91) { kind = "none"; ok = false; }
    else if (what < 93) { kind = "empty"; cmd.push_back(""); ok = false; }
    else if (what < 97) { kind = "shell"; cmd.push_back("./sh1"); cargs = {"a b", "c"}; expect = "2:a b:c\n"; exitv = 7; }
    else { kind = "path"; cmd.push_back("echo"); cargs = {"-n", "x y"}; expect = "x y"; exitv = 0; }
    writefile("script", script);
    // options
    bool rec = r.chance(55), toFile = true; int exp = 0; std::vector<str> a = {tool};
    if (r.chance(60)) { exp = r.chance(75) ? exitv : (int)r.below(256); a.push_back("-R"); a.push_back(std::to_string(exp)); }
    bool same = r.chance(60); str bcontent = expect, bname = "stdout", btype = "text/plain"; unlink("base.xml"); unlink("out.xml");
    if (!rec) {
      if (!same) switch (r.below(7)) { case 0: bcontent += "x"; break; case 1: if (!bcontent.empty()) bcontent[r.below(bcontent.size())] ^= 1; else bcontent = "y"; for (char &ch : bcontent) if (ch != '\n' && ch != '\t' && ch != '\r' && ((unsigned char)ch < 32 || ch == 127)) ch = '~'; break; case 2: if (!bcontent.empty()) bcontent.erase(r.below(bcontent.size()), 1); break; case 3: bcontent += "\n"; break; case 4: bname = "stderr"; break; case 5: btype = "text/string"; break; case 6: if (bcontent.size() > 1) bcontent.resize(bcontent.size() / 2); break; }
      Entry e; e.name = bname; e.type = btype; e.content = bcontent; writefile("base.xml", plainXml({e})); a.push_back("-I"); a.push_back("base.xml");
    }
    { bool special = false; for (auto &x : cargs) if (x.find_first_of("&<>") != str::npos) special = true; for (auto &x : cargs) for (unsigned char ch : x) if (ch > 126 || (ch < 32 && ch != '\n' && ch != '\t')) special = true; if (rec && !special && r.chance(25)) toFile = false; }
    if (toFile) { a.push_back("-O"); a.push_back("out.xml"); }
    a.insert(a.end(), cmd.begin(), cmd.end()); a.insert(a.end(), cargs.begin(), cargs.end());
    std::vector<str> env = base; env.push_back(str("VF_SCRIPT=") + cwd + "/script");
    Ran x = run(a, env, 0); str show = kind + " exit " + std::to_string(exitv) + (sig ? " signal " + std::to_string(sig) : "") + " -R " + std::to_string(exp) + (rec ? " record" : same ? " compare same" : " compare other") + " output of " + std::to_string(expect.size()) + " bytes; args " + cut(hexargs(cargs), 200) + " script " + jsonq(cut(script, 500)) + " stderr " + jsonq(cut(x.err, 800));
    if (x.timeout) { VIOL("hang", "tfPipeToXML did not end in 60 s: " << show); return; }
    if (WIFSIGNALED(x.status) || x.err.find("AddressSanitizer") != str::npos || x.err.find("runtime error:") != str::npos) { VIOL("crash:tfPipeToXML", "status " << x.status << ": " << show); return; }
    int st = WEXITSTATUS(x.status); bool matched = rec || (bcontent == expect && bname == "stdout" && btype == "text/plain");
    bool success = ok && !sig && exitv == exp && matched;
    if (success != (st == 0)) {
      if (st == 0 && ok && !sig && exitv == 0 && exp != 0) VIOL("testReturned0", "the command exited with 0 and not with " << exp << ", exit status 0: " << show);
      else VIOL(success ? "failed" : "succeeded", "exit status " << st << ": " << show);
    }
    if (rec && ok) {
      str doc = toFile ? readfile("out.xml") : x.out; XmlDoc d = parseXml(doc); std::vector<Node> m; if (d.ok) for (auto &n : d.root.kids) if (n.tag == "DartMeasurement" || n.tag == "DartMeasurementFile") m.push_back(n);
      if (!d.ok) VIOL("malformed", d.error << ": " << jsonq(cut(doc, 600)) << " " << show);
      else if (m.size() != 1 || m[0].tag != "DartMeasurement" || m[0].a("name") != "stdout" || m[0].a("type") != "text/plain") VIOL("measurement", jsonq(cut(doc, 600)) << " " << show);
      else if (m[0].text != expect) { size_t p = 0; while (p < expect.size() && p < m[0].text.size() && expect[p] == m[0].text[p]) ++p; VIOL("output", "recorded " << m[0].text.size() << " bytes, expected " << expect.size() << ", first difference at " << p << ": " << show); }
      c.count("bytes", expect.size());
    }
    c.count(kind); c.count(success ? "success" : "failure"); c.count(rec ? toFile ? "recorded" : "recorded_stdout" : "compared");
    c.nontrivial(script + hexargs(cargs) + kind + std::to_string(exp) + bcontent + bname); if (k < 3 * c.shards) c.sample(show);
  });
  c.finish(); return 0;
}
