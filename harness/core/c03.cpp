// C03: the result counts exactly the measurements that differ from the baseline
#include "tolref.h"
using namespace vf;
static str b64(const str &s, Rng &r) {
  static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; str o;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned v = (unsigned char)s[i] << 16 | (i + 1 < s.size() ? (unsigned char)s[i + 1] << 8 : 0) | (i + 2 < s.size() ? (unsigned char)s[i + 2] : 0);
    o += A[v >> 18]; o += A[v >> 12 & 63]; o += i + 1 < s.size() ? A[v >> 6 & 63] : '='; o += i + 2 < s.size() ? A[v & 63] : '=';
    if (r.chance(5)) o += '\n';
  }
  return o;
}
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  if (chdir(c.scratch.c_str())) return 3;
  const str bl = c.scratch + "/base.xml", out = c.scratch + "/out.xml";
  cases([&](Rng &r, long k) {
    std::vector<Meas> base = k % 40 == 39 ? sized(r, r.range(250, 1200)) : anySet(r, 8), test;
    if (r.chance(10)) for (auto &m : base) if (r.chance(50)) m.name = base[0].name;   // names that repeat
    // the test: the baseline with edits
    int rate = (int)r.pick(std::vector<int>{0, 5, 20, 50, 100});
    str edits;
    for (size_t i = 0; i < base.size(); ++i) {
      Meas m = base[i];
      if (!r.chance(rate)) { test.push_back(m); continue; }
      switch (r.below(9)) {
        case 0: edits += "del "; break;
        case 1: edits += "ins "; test.push_back(anyMeas(r)); test.push_back(m); break;
        case 2: edits += "ren "; m.name += r.chance(50) ? "x" : " "; test.push_back(m); break;
        case 3: edits += "ren2 "; if (!m.name.empty()) m.name.erase(m.name.size() - 1); test.push_back(m); break;
        case 4: { edits += "kind "; Meas::Kind kk = (Meas::Kind)r.below(Meas::FTEXT); m.kind = kk; test.push_back(m); break; }
        case 5: edits += "case "; if (!m.name.empty()) m.name[0] = isupper((unsigned char)m.name[0]) ? tolower(m.name[0]) : toupper(m.name[0]); test.push_back(m); break;
        default:
          edits += "val ";
          if (m.kind == Meas::STRING || m.kind == Meas::PLAIN) {
            int w = (int)r.below(6); size_t p = r.below(m.text.size() + 1);
            if (w == 0) m.text += (r.chance(50) ? " " : "\n"); else if (w == 1 && p < m.text.size()) m.text[p] = m.text[p] == 'q' ? 'Q' : 'q'; else if (w == 2) m.text.insert(p, "z"); else if (w == 3 && p < m.text.size()) m.text.erase(p, 1); else if (w == 4) m.text = ""; else m.text = content(r, 40);
          } else { m.l ^= 1L << r.below(63); m.f = anyfloat(r); m.d = anydouble(r); m.b = !m.b; if (r.chance(30)) { m.l = (long)((unsigned long)base[i].l + (r.chance(50) ? 1UL : -1UL) * (r.chance(50) ? 1UL : 4294967296UL)); m.f = std::nextafter(base[i].f, r.chance(50) ? 1e30f : -1e30f); m.d = std::nextafter(base[i].d, r.chance(50) ? 1e300 : -1e300); } }
          test.push_back(m);
      }
    }
    if (r.chance(20) && test.size() > 1) { edits += "swap "; size_t a = r.below(test.size()), b = r.below(test.size()); std::swap(test[a], test[b]); }
    if (r.chance(20)) { edits += "more "; int n = r.range(1, 4); for (int i = 0; i < n; ++i) test.push_back(r.chance(50) && !base.empty() ? base[r.below(base.size())] : anyMeas(r)); }
    if (r.chance(10)) { edits += "cut "; test.resize(r.below(test.size() + 1)); }
    for (auto &m : test) if (r.chance(50)) m.tol = 0;
    std::vector<Entry> es; bool enc = r.chance(25);
    for (auto &m : base) { Entry e = entryOf(m); if (enc && (m.kind == Meas::STRING || m.kind == Meas::PLAIN) && r.chance(60)) { e.encoding = "base64"; e.content = b64(e.content, r); } es.push_back(e); }
    // an entry of a file in place of data
    std::vector<int> asfile(base.size(), 0); if (r.chance(20)) for (size_t i = 0; i < base.size(); ++i) if (r.chance(30)) { asfile[i] = 1; es[i].tag = "DartMeasurementFile"; es[i].encoding = ""; es[i].content = r.chance(50) ? "no such file" : base[i].content().substr(0, 20); if (base[i].kind == Meas::PLAIN && r.chance(50)) { asfile[i] = 2; es[i].content = c.scratch + "/f" + std::to_string(i); writefile(es[i].content, base[i].text); } else if (exists(es[i].content)) es[i].content = "missing"; c.count("file_entries"); }
    writefile(bl, plainXml(es));
    double tol = r.chance(50) ? 1e-9 : 1e-5; // what is not clear is left open
    // the model
    std::vector<int> want; int bad = 0; bool open = false;
    for (size_t i = 0; i < test.size(); ++i) {
      int v;
      if (i >= base.size() || base[i].name != test[i].name || str(base[i].type()) != test[i].type()) v = 1;
      else if (asfile[i] == 1) v = 1;
      else { Verdict q = test[i].isnum() ? accepts(test[i].kind, base[i].content(), test[i].content(), test[i].tolerant(), tol) : base[i].text == test[i].text ? YES : NO; v = q == OPEN ? 2 : q == YES ? 0 : 1; }
      want.push_back(v); if (v == 1) ++bad; if (v == 2) open = true;
    }
    int tret = r.chance(70) ? 0 : r.range(-3, 300), expect = r.chance(85) ? tret : r.range(-3, 3);
    bool tofile = r.chance(50);
    std::vector<str> args = {"p"}; if (expect || r.chance(30)) { args.push_back("-R"); args.push_back(std::to_string(expect)); }
    args.push_back("-I"); args.push_back(bl); if (tofile) { args.push_back("-O"); args.push_back(out); }
    auto setup = [&](T &t) { t.SetRelativeTolerance(tol); };
    Outcome o = runSet(test, args, tret, setup);
    str what = "baseline " + show(base) + " test " + show(test) + " edits " + cut(edits, 100);
    if (o.escaped || !o.entered) { VIOL("notEntered", o.cerr << what); return; }
    for (size_t i = 0; i < want.size(); ++i) {
      if (want[i] == 2) { if (o.results[i]) ++bad; continue; }
      if ((o.results[i] != 0) != (want[i] != 0)) { VIOL(want[i] ? str("falseMatch.") + test[i].type() : str("falseMismatch.") + test[i].type(), "measurement " << i << " returned " << o.results[i] << " for " << test[i].show() << (i < base.size() ? " against " + base[i].show() : str(" after the end")) << " in " << what); break; }
    }
    int wret = tret != expect ? tret : bad;
    if (o.ret != wret) VIOL("return", "Main returned " << o.ret << " and not " << wret << " (" << bad << " mismatches, test returned " << tret << ", expected " << expect << "): " << what);
    if (k % 10 == 0) leakcheck("leak", what, [&] { Outcome x = runSet(test, args, tret, setup); });
    c.count("measurements", test.size()); c.count("mismatches", bad); c.count("open", open); if (bad > 255) c.count("runs_with_more_than_255_mismatches");
    c.count("unused_baseline_entries", base.size() > test.size() ? base.size() - test.size() : 0);
    c.nontrivial(what); if (k < 3 * c.shards) c.sample(what);
  });
  c.finish(); return 0;
}
