// Shared parts of the monitors: case loop, random numbers, reporting.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <locale>
#include <map>
#include <set>
#include <list>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <iostream>
#include <fstream>
#include <stdexcept>
#include <limits>
#include <algorithm>
#include <numeric>
#include <chrono>
#include <memory>
#include <mutex>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/types.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#define VERIF_HAVE_ALLOC 1
#else
#include <malloc.h>
#endif

namespace vf {

typedef std::string str;

inline size_t allocated() {
#ifdef VERIF_HAVE_ALLOC
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t &x) { uint64_t z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  explicit Rng(uint64_t seed = 1) { s[0] = mix(seed); s[1] = mix(seed); }
  uint64_t next() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b; }
  // 0..n-1
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
  bool chance(int percent) { return below(100) < (uint64_t)percent; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

inline uint64_t hash(const str &s, uint64_t h = 1469598103934665603ULL) {
  for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char)s[i]; h *= 1099511628211ULL; }
  return h ^ (h >> 29);
}

inline str jsonq(const str &s) {
  str r = "\"";
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i]; char b[8];
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
inline str cut(const str &s, size_t n = 400) { return s.size() <= n ? s : s.substr(0, n) + "...(" + std::to_string(s.size()) + " bytes)"; }

struct Ctx {
  uint64_t seed; long shard, shards, cases, only; bool thorough; double secs; str scratch, out, data;
  std::map<str, long> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<str> samples;
  long evaluations, judged, violations, caseno; int curfd; FILE *of;
  std::chrono::steady_clock::time_point t0;
  std::map<str, int> perkey;
  std::mutex mu;
  Ctx() : seed(1), shard(0), shards(1), cases(100), only(-1), thorough(false), secs(1e9), evaluations(0), judged(0), violations(0), caseno(-1), curfd(-1), of(0) {}
  static Ctx &get() { static Ctx c; return c; }

  void parse(int argc, char **argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
      str a = argv[i], v = argv[i + 1];
      if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
      else if (a == "--shard") shard = atol(v.c_str());
      else if (a == "--shards") shards = atol(v.c_str());
      else if (a == "--cases") cases = atol(v.c_str());
      else if (a == "--only") only = atol(v.c_str());
      else if (a == "--thorough") thorough = v == "1";
      else if (a == "--secs") secs = atof(v.c_str());
      else if (a == "--scratch") scratch = v;
      else if (a == "--out") out = v;
      else if (a == "--data") data = v;
    }
    if (scratch.empty() || out.empty()) { fprintf(stderr, "usage: --scratch DIR --out FILE\n"); _exit(3); }
    of = fopen(out.c_str(), "w");
    curfd = open((out + ".cur").c_str(), O_CREAT | O_RDWR | O_TRUNC, 0666);
    if (!of || curfd < 0) { perror("out"); _exit(3); }
    fcntl(fileno(of), F_SETFD, FD_CLOEXEC); fcntl(curfd, F_SETFD, FD_CLOEXEC);
    t0 = std::chrono::steady_clock::now();
  }
  double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
  void mark(long k) { char b[32]; snprintf(b, sizeof b, "%-20ld\n", k); if (pwrite(curfd, b, strlen(b), 0) < 0) {} caseno = k; }
  void count(const str &k, long n = 1) { std::lock_guard<std::mutex> l(mu); counters[k] += n; }
  void nontrivial(uint64_t h) { std::lock_guard<std::mutex> l(mu); ++judged; distinct.insert(h); }
  void nontrivial(const str &s) { nontrivial(hash(s)); }
  void sample(const str &s) { std::lock_guard<std::mutex> l(mu); if (samples.size() < 3) samples.push_back(cut(s)); }
  void violation(const str &key, const str &detail) {
    std::lock_guard<std::mutex> l(mu);
    ++violations;
    if (++perkey[key] > 3) return;
    fprintf(of, "{\"violation\":%s,\"case\":%ld,\"detail\":%s}\n", jsonq(key).c_str(), caseno, jsonq(cut(detail, 3000)).c_str());
    fflush(of);
  }
  void finish() {
    mark(-2);
    fprintf(of, "{\"done\":1,\"cases\":%ld,\"evaluations\":%ld,\"violations\":%ld,\"counters\":{", evaluations, std::max(evaluations, judged), violations);
    bool f = true;
    for (auto &c : counters) { fprintf(of, "%s%s:%ld", f ? "" : ",", jsonq(c.first).c_str(), c.second); f = false; }
    fprintf(of, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); ++i) fprintf(of, "%s%s", i ? "," : "", jsonq(samples[i]).c_str());
    fprintf(of, "]}\n"); fflush(of); fclose(of); of = 0;
    FILE *h = fopen((out + ".hash").c_str(), "wb");
    size_t n = 0;
    for (uint64_t v : distinct) { if (++n > 400000) break; fwrite(&v, 8, 1, h); }
    fclose(h);
  }
};

#define VIOL(key, detail) do { std::ostringstream _o; _o << detail; vf::Ctx::get().violation(key, _o.str()); } while (0)

// run all cases of this shard; f(rng, k)
// what a global locale does to numbers in some countries
struct OddNumbers : std::numpunct<char> {
  char do_decimal_point() const { return ','; }
  char do_thousands_sep() const { return '.'; }
  std::string do_grouping() const { return "\3"; }
};
struct LocaleGuard {
  std::locale old; bool on;
  explicit LocaleGuard(bool o) : on(o) { if (on) old = std::locale::global(std::locale(std::locale::classic(), new OddNumbers)); }
  ~LocaleGuard() { if (on) std::locale::global(old); }
};

inline void cases(const std::function<void(Rng &, long)> &f0) {
  Ctx &c = Ctx::get();
#if defined(VF_LOCALES) && !defined(__SANITIZE_THREAD__) // libstdc++ fills the caches of such a locale in a way that looks like a race
  auto f = [&](Rng &r, long k) { LocaleGuard g(k % 7 == 5); if (g.on) c.counters["cases_in_another_locale"]++; f0(r, k); };
#else
  auto &f = f0;
#endif
  if (c.only >= 0) { c.mark(c.only); Rng r(c.seed * 1000003ULL + (uint64_t)c.only * 7919ULL + 17); f(r, c.only); c.evaluations++; return; }
  for (long k = c.shard; k < c.cases; k += c.shards) {
    if (c.elapsed() > c.secs) { c.counters["stopped_by_time"]++; break; }
    c.mark(k);
    Rng r(c.seed * 1000003ULL + (uint64_t)k * 7919ULL + 17);
    f(r, k);
    c.evaluations++;
    if (c.perkey.size() > 20) break;
  }
}

// A case must have the same memory balance every time; f is deterministic.
// Reports growth that goes on over six repetitions.
inline void leakcheck(const str &key, const str &what, const std::function<void()> &f) {
  f();
  size_t b0 = allocated(); f(); size_t b1 = allocated();
  if (b1 <= b0) return;
  int grew = 0; size_t last = b1, first = b1;
  for (int i = 0; i < 6; ++i) { f(); size_t b = allocated(); if (b > last) ++grew; last = b; }
  if (grew >= 5) VIOL(key, "memory grows with every repetition (" << (last - first) << " bytes in 6): " << what);
}

inline int openfds() {
  int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1;
  while (readdir(d)) ++n;
  closedir(d); return n;
}

// capture of std::cout / std::cerr
struct Capture {
  std::ostream &s; std::stringbuf b; std::streambuf *old;
  explicit Capture(std::ostream &os) : s(os), old(os.rdbuf(&b)) {}
  ~Capture() { s.rdbuf(old); s.clear(); }
  str text() const { return b.str(); }
};

inline bool writefile(const str &p, const str &s) { std::ofstream o(p.c_str(), std::ios::binary); o.write(s.data(), s.size()); o.close(); return !!o; }
inline str readfile(const str &p, bool *ok = 0) {
  std::ifstream i(p.c_str(), std::ios::binary); if (ok) *ok = !!i;
  std::ostringstream o; if (i) o << i.rdbuf(); return o.str();
}
inline bool exists(const str &p) { struct stat s; return !stat(p.c_str(), &s); }

// ---- text generators
inline str printable(Rng &r, int maxlen) {
  int n = (int)r.below(maxlen + 1); str s;
  int mode = (int)r.below(4);
  static const str mark = "&<>\"'&&<<]]>;#/=!-? %\\";
  for (int i = 0; i < n; ++i) {
    if (mode == 0) s += (char)('a' + r.below(26));
    else if (mode == 1) s += mark[r.below(mark.size())];
    else s += (char)(32 + r.below(95));
  }
  static const std::vector<str> special = {"", "&amp;", "&lt;x&gt;", "]]>", "<![CDATA[x]]>", "<!-- c -->", "\"quoted\"", "a&b<c>d\"e'f", "&#65;", "Test x", "Baseline x", "<?xml version=\"1.0\"?>", "</DartMeasurement>", "</output>", " lead", "trail ", " ", "--", "&", "<", ">", "\"", "'", "&quot;", "0", "name=\"x\""};
  if (r.chance(25)) { const str &x = r.pick(special); s = r.chance(50) ? x : s + x + s; }
  return s;
}
// contents: also tabs, line feeds and carriage returns
inline str content(Rng &r, int maxlen) {
  str s = printable(r, maxlen);
  int m = (int)r.below(4);
  if (m == 1) for (size_t i = 0; i < s.size(); ++i) if (r.chance(12)) s[i] = r.chance(75) ? '\n' : '\t';
  if (m == 2) { int n = (int)r.below(6); for (int i = 0; i < n; ++i) s += str(1, r.chance(80) ? '\n' : '\t') + printable(r, maxlen / 3); }
  if (r.chance(4)) s = str(r.below(4), '\n') + s + str(r.below(3), '\n');
  if (r.chance(8)) { int n = (int)r.range(1, 4); for (int i = 0; i < n; ++i) s.insert(r.below(s.size() + 1), r.chance(50) ? "\r" : "\r\n"); }
  return s;
}

// names: rarely with white space other than a space
inline str anyname(Rng &r, int maxlen) {
  str s = printable(r, maxlen);
  if (r.chance(6)) { int n = (int)r.range(1, 3); for (int i = 0; i < n; ++i) s.insert(r.below(s.size() + 1), 1, r.pick(std::vector<char>{'\t', '\n', '\r'})); }
  return s;
}

inline void rmtree(const str &p) {
  struct stat s; if (lstat(p.c_str(), &s)) return;
  // only ever below the scratch directory of this run
  if (p.compare(0, Ctx::get().scratch.size(), Ctx::get().scratch) != 0 || p.find("/../") != str::npos) { fprintf(stderr, "rmtree outside of scratch\n"); _exit(3); }
  if (S_ISDIR(s.st_mode)) {
    chmod(p.c_str(), 0700);
    DIR *d = opendir(p.c_str());
    if (d) { std::vector<str> n; while (dirent *e = readdir(d)) { str x = e->d_name; if (x != "." && x != "..") n.push_back(x); } closedir(d); for (auto &x : n) rmtree(p + "/" + x); }
    rmdir(p.c_str());
  } else unlink(p.c_str());
}
inline void mkdirs(const str &p) { mkdir(p.c_str(), 0777); }
}
#endif
