// C34: the framework asks the replaceable steps of a test what they decide, once for each measurement
#include "tfx.h"
using namespace vf; using namespace testutil;
struct Ev { char what; str name, type, content, bname, btype, bcontent; double tol; bool said; const void *os; const char *kind; };
static int g_live = 0, g_throw = -1;
struct Stop : std::runtime_error { Stop() : std::runtime_error("stop") {} }; static std::vector<Ev> g_log;
static Ev ev(char w, Measurement &m, Measurement *b) { Ev e; e.what = w; e.name = m.GetAttributeName(); e.type = m.GetAttributeType(); e.content = m.GetContent(); if (b) { e.bname = b->GetAttributeName(); e.btype = b->GetAttributeType(); e.bcontent = b->GetContent(); } e.tol = 0; e.said = false; e.os = 0; e.kind = ""; return e; }
class CV : public CompareVisitor {
public:
  int verdict; CV(int v) : verdict(v) { ++g_live; } ~CV() { --g_live; }
  bool in = false;
  void Visit(Measurement &m) { hit(m, "Measurement", [&] { CompareVisitor::Visit(m); }); }
  void Visit(NumericData &m) { hit(m, "NumericData", [&] { CompareVisitor::Visit(m); }); }
  void Visit(MeasurementFile &m) { hit(m, "MeasurementFile", [&] { CompareVisitor::Visit(m); }); } void Visit(DataMeasurement &m) { hit(m, "DataMeasurement", [&] { CompareVisitor::Visit(m); }); } void Visit(TextData &m) { hit(m, "TextData", [&] { CompareVisitor::Visit(m); }); }
  void Visit(PlainText &m) { hit(m, "PlainText", [&] { CompareVisitor::Visit(m); }); } void Visit(StringText &m) { hit(m, "StringText", [&] { CompareVisitor::Visit(m); }); } void Visit(IntegerNumeric &m) { hit(m, "IntegerNumeric", [&] { CompareVisitor::Visit(m); }); }
  void Visit(FloatNumeric &m) { hit(m, "FloatNumeric", [&] { CompareVisitor::Visit(m); }); } void Visit(DoubleNumeric &m) { hit(m, "DoubleNumeric", [&] { CompareVisitor::Visit(m); }); } void Visit(BooleanNumeric &m) { hit(m, "BooleanNumeric", [&] { CompareVisitor::Visit(m); }); }
  template <class M, class F> void hit(M &m, const char *kind, F f) { if (in) { f(); return; } in = true; Ev e = ev('C', m, this->_baseline); e.tol = this->GetTolerance(); e.kind = kind; if (verdict < 0) f(); else this->compareResults = verdict; in = false; e.said = this->GetResult(); g_log.push_back(e); if (g_throw == 0) { g_throw = -1; if (verdict == 0) throw 7; throw Stop(); } if (g_throw > 0) --g_throw; }
};
class DV : public DifferenceVisitor {
public:
  bool own, in; DV(bool o) : own(o), in(false) { ++g_live; } ~DV() { --g_live; }
  template <class M, class F> void hit(M &m, const char *kind, F f) { if (in) { f(); return; } in = true; Ev e = ev('D', m, this->_baseline); e.os = &this->GetOutStream(); e.kind = kind; g_log.push_back(e); if (g_throw == 0) { g_throw = -1; throw Stop(); } if (g_throw > 0) --g_throw; if (own) this->GetOutStream() << "own report\n"; else f(); in = false; }
#define H(X) void Visit(X &m) { hit(m, #X, [&] { DifferenceVisitor::Visit(m); }); }
  H(Measurement) H(MeasurementFile) H(DataMeasurement) H(TextData) H(PlainText) H(StringText) H(NumericData) H(IntegerNumeric) H(FloatNumeric) H(DoubleNumeric) H(BooleanNumeric)
#undef H
};
// replaces the makers of visitors, and perhaps more
class P1 : public T { public: Rng *r; int mode; P1() : r(0), mode(0) {} std::vector<int> said; const std::ostream *osAt; 
  CompareVisitor *CreateCompareVisitor() const { int v = mode == 0 ? -1 : (int)r->below(2); return new CV(v); }
  DifferenceVisitor *CreateDifferenceVisitor() const { return new DV(mode == 2); } };
class P2 : public P1 { public: void MatchedMeasurement(Measurement &m) { g_log.push_back(ev('M', m, 0)); } };
class P3 : public P2 { public: void UnmatchedMeasurement(Measurement &m) { g_log.push_back(ev('U', m, 0)); } void DifferenceMeasurement(Measurement &m, Measurement &b) { g_log.push_back(ev('F', m, &b)); } };
static const char *kindOf(const Meas &m) { switch (m.kind) { case Meas::STRING: return "StringText"; case Meas::PLAIN: return "PlainText"; case Meas::INT: return "IntegerNumeric"; case Meas::FLOAT: return "FloatNumeric"; case Meas::DOUBLE: return "DoubleNumeric"; case Meas::BOOL: return "BooleanNumeric"; default: return "MeasurementFile"; } }
static str log() { str s; for (auto &e : g_log) { s += e.what; s += "(" + jsonq(cut(e.name, 40)) + "," + e.type + "," + jsonq(cut(e.content, 40)) + (e.bname.empty() && e.btype.empty() ? "" : "/" + jsonq(cut(e.bname, 40)) + "," + e.btype + "," + jsonq(cut(e.bcontent, 40))) + " " + e.kind + (e.what == 'C' ? e.said ? " equal" : " unequal" : "") + ") "; } return s; }
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); if (chdir(c.scratch.c_str())) return 3;
  cases([&](Rng &r, long k) {
    std::vector<Meas> ms = anySet(r, 10, true); std::vector<Entry> es; for (auto &m : ms) if (!m.isfile()) es.push_back(entryOf(m)); else { Entry e = entryOf(m); es.push_back(e); }
    // edits of the baseline
    int edits = (int)r.below(4); for (int q = 0; q < edits && !es.empty(); ++q) { size_t i = r.below(es.size()); switch (r.below(6)) { case 0: es[i].name += "x"; break; case 1: es[i].content += "1"; break; case 2: es.erase(es.begin() + i); break; case 3: if (es[i].tag == "DartMeasurement") es[i].type = r.chance(50) ? "text/string" : "numeric/double"; break; case 4: es.insert(es.begin() + i, es[r.below(es.size())]); break; default: es[i].content = es[i].content.empty() ? "y" : es[i].content.substr(1); } }
    bool rec = r.chance(15); writefile("b.xml", plainXml(es)); std::vector<str> args = {"p"}; if (!rec) { args.push_back("-I"); args.push_back("b.xml"); } bool tofile = r.chance(40); if (tofile) { args.push_back("-O"); args.push_back("o.xml"); }
    std::unique_ptr<P1> t; int cls = r.range(1, 3); t.reset(cls == 1 ? new P1 : cls == 2 ? new P2 : new P3); t->mode = (int)r.below(3); t->r = &r; auto anyTol = [&] { return r.chance(30) ? r.pick(std::vector<double>{0., 1., 1.5, 2., 100., 1e300, 1e-300, -0.25, -3.}) : r.unit(); }; double tol = r.chance(50) ? t->GetRelativeTolerance() : anyTol(); t->SetRelativeTolerance(tol);
    str head = show(ms) + " baseline " + cut(plainXml(es), 1200) + " class " + std::to_string(cls) + " mode " + std::to_string(t->mode); int bad = 0; bool okAll = true;
    t->body = [&](T &s, int, char **) {
      for (size_t i = 0; i < ms.size(); ++i) {
        const Meas &m = ms[i]; g_log.clear(); if (r.chance(15)) { tol = anyTol(); s.SetRelativeTolerance(tol); } const void *os = &s.out(); int got = s.make(m); str what = "measurement " + std::to_string(i) + " " + m.show() + " calls " + log() + ": " + head; std::map<char, int> n; for (auto &e : g_log) ++n[e.what];
        if (rec) { if (!g_log.empty()) VIOL("recording", "a step of the comparison is called: " << what); c.count("recorded"); continue; }
        bool same = i < es.size() && es[i].name == m.name && es[i].type == m.type(); if (g_live) { VIOL("released", g_live << " visitors are left after " << what); g_live = 0; }
        if (!same) { if (n['C'] || n['D'] || n['M'] || n['F']) VIOL("unmatched", "a measurement without counterpart is compared: " << what); if (cls == 3 && n['U'] != 1) VIOL("unmatchedCalls", "UnmatchedMeasurement was called " << n['U'] << " times: " << what); if (!got) VIOL("unmatchedReturn", what); for (auto &e : g_log) if (e.what == 'U' && (e.name != m.name || e.type != m.type())) VIOL("unmatchedObject", what); ++bad; c.count("unmatched"); okAll = false; continue; }
        if (n['U']) VIOL("unmatchedCalls", "UnmatchedMeasurement was called for a counterpart: " << what);
        if (n['C'] != 1) { VIOL("compareCalls", "compared " << n['C'] << " times: " << what); continue; }
        bool said = false; str bc = es[i].content; for (auto &e : g_log) if (e.what == 'C') { said = e.said; if (e.name != m.name || e.type != m.type() || e.bname != es[i].name || e.btype != es[i].type || (m.isfile() ? e.content != m.text : e.content != m.content())) VIOL("compareObjects", what); if (!m.isfile() && e.bcontent != bc) VIOL("baselineContent", what); if (str(e.kind) != kindOf(m)) VIOL("kind", e.kind << ": " << what); double w = m.tolerant() && !m.isfile() && m.isnum() ? tol : 0; if (m.isnum() && e.tol != w) VIOL("tolerance", "the tolerance is " << e.tol << " and not " << w << ": " << what); }
        if ((got == 0) != said) VIOL("verdict", "the visitor said " << (said ? "equal" : "unequal") << ", the call returned " << got << ": " << what);
        if (cls >= 2 && n['M'] != (said ? 1 : 0)) VIOL("matchedCalls", "MatchedMeasurement was called " << n['M'] << " times: " << what);
        if (cls == 3) { if (n['F'] != (said ? 0 : 1)) VIOL("differenceCalls", "DifferenceMeasurement was called " << n['F'] << " times: " << what); }
        else if (n['D'] != (said ? 0 : 1)) VIOL("reportCalls", "the difference visitor was called " << n['D'] << " times: " << what);
        for (auto &e : g_log) { if (e.what == 'M' && (e.name != m.name || e.type != m.type())) VIOL("matchedObject", what); if (e.what == 'D' || e.what == 'F') { if (e.name != m.name || e.bname != es[i].name || e.type != m.type() || e.btype != es[i].type || (!m.isfile() && (e.content != m.content() || e.bcontent != bc))) VIOL("differenceObjects", what); if (e.what == 'D' && e.os != os) VIOL("stream", "the report goes elsewhere: " << what); if (e.what == 'D' && str(e.kind) != kindOf(m)) VIOL("kind", e.kind << ": " << what); } }
        if (!said) { ++bad; okAll = false; } c.count(said ? "equal" : "unequal"); if (t->mode) c.count("verdicts_of_the_user");
      }
      return 0; };
    bool throws = !rec && r.chance(12); g_throw = throws ? (int)r.below(6) : -1; uint64_t again = r.next(); (void)again; int ret; str out; { Capture x(std::cout), y(std::cerr); ret = runMain(*t, args); out = x.text(); } bool thrown = throws && g_throw == -1; g_throw = -1; if (thrown) { c.count("thrown"); if (!ret) VIOL("thrownReturn", "Main returned 0 although a visitor threw: " << head); if (g_live) VIOL("released", g_live << " visitors are left after an exception: " << head); g_live = 0; c.nontrivial(head); return; } if (tofile) out = readfile("o.xml");
    if (!t->entered) { VIOL("notEntered", head); return; } if (g_live) { VIOL("released", g_live << " visitors are left: " << head); g_live = 0; }
    if (!rec && cls < 3 && ret != bad) VIOL("main", "Main returned " << ret << " and not " << bad << ": " << head); if (rec && ret) VIOL("main", "recording returned " << ret << ": " << head);
    if (!rec && cls < 3 && t->mode == 2) { size_t own = 0, p = 0; while ((p = out.find("own report\n", p)) != str::npos) ++own, ++p; long d = 0; for (int q : t->results) d += q != 0; if (okAll && !out.empty()) VIOL("silent", jsonq(cut(out)) << ": " << head); (void)d; }
    if (k % 16 == 0) { int th = r.chance(60) ? (int)r.below(4) : -1, md = (int)r.below(3); leakcheck("leak", head + (th < 0 ? "" : " with an exception"), [&] { Rng q(5); P1 x; x.r = &q; x.mode = md; x.body = [&](T &s, int, char **) { for (auto &m : ms) s.make(m); return 0; }; g_throw = th; { Capture a(std::cout), b(std::cerr); runMain(x, args); } g_throw = -1; g_live = 0; g_log.clear(); }); }
    c.nontrivial(head); if (k < 3 * c.shards) c.sample(head);
  });
  c.finish(); return 0;
}
