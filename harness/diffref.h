// Reads an edit script strictly and applies it
#ifndef DIFFREF_H
#define DIFFREF_H
#include "common.h"
namespace vf {
typedef std::vector<str> Lines;
inline Lines splitLines(const str &s) { Lines l; size_t b = 0; while (1) { size_t e = s.find('\n', b); if (e == str::npos) { l.push_back(s.substr(b)); return l; } l.push_back(s.substr(b, e - b)); b = e + 1; } }
struct Script { str error; long edits, commands; Script() : edits(0), commands(0) {} };
inline bool rangeOf(const str &s, long &x, long &y) {
  size_t i = 0; auto num = [&](long &v) { size_t b = i; v = 0; while (i < s.size() && isdigit((unsigned char)s[i]) && i - b < 15) v = v * 10 + (s[i++] - '0'); return i > b && !(s[b] == '0' && i - b > 1); };
  if (!num(x)) return false;
  if (i == s.size()) { y = x; return true; }
  if (s[i++] != ',') return false;
  return num(y) && i == s.size() && y > x;
}
inline Script applyScript(const str &A, const str &B, const str &script) {
  Script R; Lines a = splitLines(A), b = splitLines(B), out, cmd;
  if (script.empty()) { if (A != B) R.error = "no script for different texts"; return R; }
  if (script[script.size() - 1] != '\n') { R.error = "last line of the script is not ended"; return R; }
  cmd = splitLines(script.substr(0, script.size() - 1));
  size_t p = 0, i = 0;
  auto fail = [&](const str &e) { R.error = e + " at line " + std::to_string(i) + " of the script"; return R; };
  while (i < cmd.size()) {
    str h = cmd[i++]; size_t q = h.find_first_of("acd"); if (q == str::npos) return fail("not a command: " + jsonq(h));
    char op = h[q]; long f1, f2, t1, t2; if (!rangeOf(h.substr(0, q), f1, f2) || !rangeOf(h.substr(q + 1), t1, t2)) return fail("not a command: " + jsonq(h));
    ++R.commands;
    if (op == 'a') { if (f1 != f2 || f1 < (long)p || f1 > (long)a.size()) return fail("line number of an addition"); while ((long)p < f1) out.push_back(a[p++]); }
    else {
      if (f1 < (long)p + 1 || f2 > (long)a.size() || f1 < 1) return fail("line numbers of the first text");
      while ((long)p < f1 - 1) out.push_back(a[p++]);
      for (long k = f1; k <= f2; ++k) { if (i >= cmd.size() || cmd[i] != "< " + a[k - 1]) return fail("deleted line is not " + jsonq(cut(a[k - 1], 80))); ++i; ++p; ++R.edits; }
    }
    if (op == 'c') { if (i >= cmd.size() || cmd[i] != "----") return fail("no ---- in a change"); ++i; }
    if (op == 'd') { if (t1 != t2 || t1 != (long)out.size() + 1) return fail("line number of a deletion"); }
    else {
      if (t1 != (long)out.size() + 1 || t2 > (long)b.size()) return fail("line numbers of the second text");
      for (long k = t1; k <= t2; ++k) { if (i >= cmd.size() || cmd[i].compare(0, 2, "> ") != 0) return fail("no added line"); out.push_back(cmd[i].substr(2)); ++i; ++R.edits; }
    }
  }
  while (p < a.size()) out.push_back(a[p++]);
  if (out != b) { R.error = "applying the script does not give the second text"; return R; }
  return R;
}
// the least number of deleted and added lines
inline long minimalEdits(const str &A, const str &B) {
  Lines a = splitLines(A), b = splitLines(B); std::map<str, int> id; std::vector<int> x, y; 
  for (auto &s : a) x.push_back(id.insert(std::make_pair(s, (int)id.size())).first->second);
  for (auto &s : b) y.push_back(id.insert(std::make_pair(s, (int)id.size())).first->second);
  if (x.size() + y.size() > 4000) { // in a band around the diagonal, which is exact if the result is not larger than the band
    for (long w = 16; w < (long)(x.size() + y.size()); w *= 4) {
      const long n = (long)x.size(), m = (long)y.size(), BIG = 1L << 40; if (std::labs(n - m) > w) continue;
      std::vector<long> p(2 * w + 3, BIG), q; // index j - i + w + 1
      for (long j = 0; j <= w && j <= m; ++j) p[j + w + 1] = j;
      for (long i = 1; i <= n; ++i) {
        q.assign(2 * w + 3, BIG);
        for (long j = std::max(0L, i - w); j <= std::min(m, i + w); ++j) { long t = j - i + w + 1, b = std::min(p[t + 1], j > 0 ? q[t - 1] : BIG) + 1; if (j > 0 && x[i - 1] == y[j - 1]) b = std::min(b, p[t]); q[t] = b; }
        p.swap(q);
      }
      if (p[m - n + w + 1] <= w) return p[m - n + w + 1];
    }
  }
  std::vector<int> prev(y.size() + 1, 0), cur(y.size() + 1, 0);
  for (size_t i = 1; i <= x.size(); ++i) { for (size_t j = 1; j <= y.size(); ++j) cur[j] = x[i - 1] == y[j - 1] ? prev[j - 1] + 1 : std::max(prev[j], cur[j - 1]); prev.swap(cur); }
  return (long)(x.size() + y.size()) - 2 * prev[y.size()];
}
}
#endif
