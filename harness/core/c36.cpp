// C36: a run goes through the steps and streams that a test class replaces, once each and in order
#include "tfx.h"
using namespace vf;
enum { P = 1, B = 2, S = 4, R = 8, E = 16, F = 32, X = 64, O = 128, I = 256, C = 512 };
struct Stop : std::runtime_error { Stop() : std::runtime_error("stop") {} };
static str g_log; static char g_throw = 0; static int g_kind = 0;
static std::vector<str> g_seen; // the arguments a replaced parser was given
static str g_in, g_out; static bool g_strip = false, g_cmp = false; static std::ostringstream *g_os = 0; static std::istringstream *g_is = 0;
static void hit(char c) { g_log += c; if (c == g_throw) { if (g_kind == 0) throw Stop(); if (g_kind == 1) throw 7; if (g_kind == 2) throw std::bad_alloc(); throw std::logic_error("step"); } }
template <class U> struct WP : U { void ParseAndRemoveArguments(int &argc, char *argv[]) { g_seen.assign(argv, argv + argc); if (!g_in.empty()) this->SetInFileName(g_in); if (!g_out.empty()) this->SetOutFileName(g_out); if (g_strip && argc > 1) { for (int i = 1; i + 1 < argc; ++i) argv[i] = argv[i + 1]; --argc; } hit('P'); } };
template <class U> struct WB : U { void BeginMeasurement() { hit('B'); } };
template <class U> struct WE : U { void EndMeasurement() { hit('E'); } };
template <class U> struct WS : U { void WriteXMLOutputStart() { this->GetOutStream() << "<output>\n<!--start of the user-->\n"; hit('S'); } };
template <class U> struct WF : U { void WriteXMLOutputEnd() { this->GetOutStream() << "<!--end of the user--></output>\n"; hit('F'); } };
template <class U> struct WR : U { void ReadXMLInput() { hit('R'); } };
template <class U> struct WX : U { void ReadXMLInputFree() { hit('X'); } };
template <class U> struct WO : U { std::ostream &GetOutStream() const { return *g_os; } };
template <class U> struct WI : U { std::istream &GetInStream() const { return *g_is; } };
template <class U> struct WC : U { bool GetCompareMode() const { return g_cmp; } };
template <bool on, class U, template <class> class W> using If = typename std::conditional<on, W<U>, U>::type;
template <unsigned M> using Run = If<(M & C) != 0, If<(M & I) != 0, If<(M & O) != 0, If<(M & X) != 0, If<(M & F) != 0, If<(M & E) != 0, If<(M & R) != 0, If<(M & S) != 0, If<(M & B) != 0, If<(M & P) != 0, T, WP>, WB>, WS>, WR>, WE>, WF>, WX>, WO>, WI>, WC>;
struct Make { unsigned mask; T *(*make)(); };
template <unsigned M> T *mk() { return new Run<M>; }
#define M_(x) {(x), mk<(x)>}
static const Make makes[] = {M_(0), M_(P), M_(B), M_(S), M_(R), M_(E), M_(F), M_(X), M_(O), M_(I), M_(C | I), M_(C), M_(S | F), M_(B | E), M_(B | E | O), M_(O | S | F), M_(P | O), M_(P | O | I | C), M_(O | I | C), M_(O | I), M_(P | S | F | R | X), M_(B | F), M_(B | X), M_(E | S | R), M_(P | B | S | R | E | F | X), M_(P | B | S | R | E | F | X | O | I | C), M_(S | F | R | X | O | I), M_(R | X), M_(P | C), M_(B | C), M_(F | C | I), M_(S | F | C | O), M_(P | S), M_(P | F | X), M_(E | O | I | C), M_(R | O)};
static str names(unsigned m) { static const char *n[] = {"ParseAndRemoveArguments", "BeginMeasurement", "WriteXMLOutputStart", "ReadXMLInput", "EndMeasurement", "WriteXMLOutputEnd", "ReadXMLInputFree", "GetOutStream", "GetInStream", "GetCompareMode"}; str s; for (int i = 0; i < 10; ++i) if (m & (1u << i)) s += (s.empty() ? "" : ",") + str(n[i]); return s; }
static Meas simple(Rng &r) {
  Meas m; do m = anyMeas(r); while ((m.kind == Meas::DOUBLE && !(m.d == m.d)) || (m.kind == Meas::FLOAT && !(m.f == m.f))); m.tol = 0;
  if (r.chance(25)) { m.kind = (Meas::Kind)r.range(Meas::FTEXT, Meas::FJPEG); m.text = r.pick(std::vector<str>{"f0", "f1", "d/f0", "d/f1", "missing"}); }
  return m;
}
static std::vector<Entry> edited(Rng &r, const std::vector<Meas> &ms) {
  std::vector<Entry> es; for (auto &m : ms) es.push_back(entryOf(m));
  for (int q = (int)r.below(4); q > 0 && !es.empty(); --q) {
    size_t i = r.below(es.size()); bool file = es[i].tag == "DartMeasurementFile";
    switch (r.below(5)) { case 0: case 1: es[i].name += "x"; break; case 2: es[i].type = es[i].type == "text/string" ? "numeric/integer" : "text/string"; break; case 3: es[i].content = file ? r.pick(std::vector<str>{"f0", "f1", "gone"}) : es[i].content + "1"; break; default: es.erase(es.begin() + i, es.end()); }
  }
  return es;
}
// what an exact comparison says
static bool equal(const Meas &m, const Entry &e) { return m.isfile() ? exists(m.text) && exists(e.content) && readfile(m.text) == readfile(e.content) : m.content() == e.content; }
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); if (chdir(c.scratch.c_str())) return 3;
  mkdir("d", 0755); writefile("f0", "zero"); writefile("f1", "one"); writefile("d/f0", "zero"); writefile("d/f1", "another");
  cases([&](Rng &r, long k) {
    const Make &mk = makes[r.below(sizeof makes / sizeof *makes)]; unsigned M = mk.mask; std::unique_ptr<T> t(mk.make()); int runs = (M & X) ? 1 : r.range(1, 3); str hist;
    g_in.clear(); g_out.clear(); str in, out; // what the object has got
    for (int run = 0; run < runs; ++run) {
      std::vector<Meas> ms; int n = (int)r.below(6); for (int i = 0; i < n; ++i) ms.push_back(simple(r));
      std::vector<Entry> file = edited(r, ms), alt = edited(r, ms); writefile("b.xml", plainXml(file)); std::istringstream is(plainXml(alt)); std::ostringstream os; g_is = &is; g_os = &os; unlink("o.xml");
      g_cmp = r.chance(50); g_strip = r.chance(50); g_kind = (int)r.below(4); g_log.clear(); g_seen.clear(); bool wantIn = r.chance(60) && !((M & C) && !(M & P) && !g_cmp), wantOut = r.chance(50); std::vector<str> args = {"prog"}, rest = {"prog"};
      if (M & P) { if (wantIn) g_in = in = "b.xml"; if (wantOut) g_out = out = "o.xml"; } else { if (wantIn) { args.push_back("-I"); args.push_back("b.xml"); } if (wantOut) { args.push_back("-O"); args.push_back("o.xml"); } }
      for (int q = (int)r.below(3); q > 0; --q) { str a = printable(r, 6); if (a.empty() || a[0] == '-') a = "a"; args.push_back(a); rest.push_back(a); }
      if (wantIn) in = "b.xml"; if (wantOut) out = "o.xml";
      if ((M & P) && g_strip && rest.size() > 1) rest.erase(rest.begin() + 1);
      if ((M & C) && !(M & R) && !(M & I) && in.empty()) g_cmp = false; // would read from standard input
      str can; for (char s : str("PBSREF")) { unsigned bit = s == 'P' ? P : s == 'B' ? B : s == 'S' ? S : s == 'R' ? R : s == 'E' ? E : F; if (M & bit) can += s; } can += "T"; g_throw = r.chance(25) ? can[r.below(can.size())] : 0; size_t at = r.below(ms.size() + 1); int tret = r.chance(85) ? 0 : r.range(1, 200);
      hist += "\n  replaced " + names(M) + " run " + std::to_string(run) + " args "; for (auto &a : args) hist += jsonq(a) + " "; hist += "files " + in + " " + out + " measurements " + show(ms) + (g_throw ? str(" step ") + g_throw + " throws" : str()) + ((M & C) ? g_cmp ? " comparing" : " recording" : "") + " returns " + std::to_string(tret);
      // the model
      bool cmp = (M & C) ? g_cmp : !in.empty(); str want; bool stop = false, entered = false, ended = false, header = false, own = false, trailer = false, ownEnd = false; auto step = [&](char s) { if (stop) return; want += s; if (g_throw == s) stop = true; };
      if (M & P) step('P'); 
      bool opened = false; if (!stop) { if (M & B) step('B'); else { opened = true; if (!cmp) { header = true; if (M & S) { own = true; step('S'); } } else if (M & R) step('R'); } }
      const std::vector<Entry> none, &base = (M & B) || (M & R) ? none : (M & I) ? alt : file; int bad = 0; std::vector<int> exp; size_t made = 0; size_t reports = 0; std::vector<str> rep;
      if (!stop) { entered = true; want += 'T'; for (size_t i = 0; i < ms.size(); ++i) { if (g_throw == 'T' && i == at) break; ++made; if (!cmp) { exp.push_back(0); continue; } if (i >= base.size() || base[i].name != ms[i].name || base[i].type != ms[i].type()) { ++bad; exp.push_back(1); rep.push_back("Unmatched " + ms[i].name); } else if (!equal(ms[i], base[i])) { ++bad; exp.push_back(1); c.count("differences"); if (ms[i].kind == Meas::PLAIN) rep.push_back("Difference " + ms[i].name); else { rep.push_back("Test " + ms[i].name); rep.push_back("Baseline " + ms[i].name); } } else exp.push_back(0); } reports = rep.size(); if (g_throw == 'T') stop = true; }
      if (!stop) { if (M & E) step('E'); else if (!cmp) { trailer = true; if (M & F) { ownEnd = true; step('F'); } } else if (M & X) step('X'); }
      ended = !stop;
      bool toFile = opened && !out.empty(); (void)reports;
      // the run
      bool threwT = g_throw == 'T'; t->entered = false; t->results.clear();
      t->body = [&](T &s, int, char **) { g_log += 'T'; for (size_t i = 0; i < ms.size(); ++i) { if (threwT && i == at) throw Stop(); s.make(ms[i]); } if (threwT) throw Stop(); return tret; };
      int ret = -9; bool esc = false; str co; { Capture a(std::cout), b(std::cerr); try { ret = runMain(*t, args); } catch (...) { esc = true; } co = a.text(); }
      if (esc) { VIOL("escaped", "an exception left Main: " << hist); return; }
      str log = g_log; if (M & X) { size_t p = want.find('X'); str a, b; for (char x : log) if (x != 'X') a += x; for (char x : want) if (x != 'X') b += x; if (p != str::npos && log.find('X') == str::npos) VIOL("notFreed", "ReadXMLInputFree is not called, " << log << ": " << hist); log = a; want = b; }
      if (log != want) { VIOL("steps", "the steps are " << log << " and not " << want << ": " << hist); return; }
      if (entered != t->entered) { VIOL("entered", hist); return; }
      if ((M & P) && g_seen != args) VIOL("parserArguments", hist);
      if (entered && t->args != rest) VIOL("arguments", "the test got other arguments: " << hist);
      if (entered && t->results != exp) { VIOL("results", "the results of the measurements are others: " << hist); return; }
      int w = !ended ? -1 : tret ? tret : bad; if (w < 0 ? ret == 0 : ret != w) { VIOL("return", "Main returned " << ret << " and not " << w << ": " << hist); return; }
      str text = (M & O) ? os.str() : toFile ? readfile("o.xml") : co;
      if ((M & O) && (!co.empty() || (exists("o.xml") && !readfile("o.xml").empty()))) VIOL("elsewhere", "output besides the replaced stream, " << jsonq(cut(co)) << jsonq(cut(readfile("o.xml"))) << ": " << hist);
      if (!(M & O) && toFile && !co.empty()) VIOL("elsewhere", "output besides the file, " << jsonq(cut(co)) << ": " << hist);
      if (!(M & O) && !toFile && exists("o.xml")) VIOL("elsewhere", "a file was written: " << hist);
      if (own != (text.find("<!--start of the user-->") != str::npos) || ownEnd != (text.find("<!--end of the user-->") != str::npos)) VIOL("ownText", jsonq(cut(text, 900)) << ": " << hist);
      if (header && trailer) {} str doc = text; if (!header) doc = "<output>" + doc; if (!trailer) doc += "</output>";
      XmlDoc d = parseXml(doc); if (!d.ok) { VIOL("malformed", d.error << " in " << jsonq(cut(text, 900)) << ": " << hist); return; }
      if (!blank(d.root.text)) VIOL("strayText", jsonq(cut(text, 900)) << ": " << hist);
      std::vector<str> got; for (auto &x : d.root.kids) got.push_back(x.a("name")); std::vector<str> wantNames; if (cmp) wantNames = rep; else for (size_t i = 0; i < made; ++i) wantNames.push_back(ms[i].name);
      bool same = got == wantNames; 
      if (cmp && !same) { VIOL("reports", "the reports are " << jsonq(cut(text, 900)) << ": " << hist); return; }
      if (!cmp) { if (!same) { VIOL("recording", "recorded " << jsonq(cut(text, 900)) << ": " << hist); return; } for (size_t i = 0; i < made; ++i) if (d.root.kids[i].text != ms[i].content() || d.root.kids[i].a("type") != ms[i].type()) VIOL("recording", "recorded " << jsonq(cut(text, 900)) << ": " << hist); }
      c.count(!ended ? "stopped" : cmp ? "compared" : "recorded"); if (M & O) c.count("own_out_stream"); if ((M & I) && cmp && !(M & (B | R))) c.count("own_in_stream"); c.count("steps", want.size());
    }
    c.nontrivial(hist); if (k < 3 * c.shards) c.sample(hist);
  });
  c.finish(); return 0;
}
