// A test whose measurements are given as data, and the XML oracle.
#ifndef VERIF_TFX_H
#define VERIF_TFX_H
#include "common.h"
#include "TestingFramework/tfRegressionTest.h"
#include "TestingFramework/tfMeasurement.h"
#include "TestingFramework/tfMeasurementVisitor.h"
#include "FileUtilities/PathName.h"
#include "FileUtilities/FileUtilities.h"
#include <expat.h>
#include <cfloat>
#include <climits>

namespace vf {

struct Meas {
  enum Kind { STRING, PLAIN, INT, FLOAT, DOUBLE, BOOL, FTEXT, FPNG, FJPEG, NKINDS };
  Kind kind; str name, text; long l; float f; double d; bool b; int tol; // tol: -1 default, 0, 1
  Meas() : kind(STRING), l(0), f(0), d(0), b(false), tol(-1) {}
  const char *type() const {
    switch (kind) { case STRING: return "text/string"; case PLAIN: return "text/plain"; case INT: return "numeric/integer"; case FLOAT: return "numeric/float"; case DOUBLE: return "numeric/double"; case BOOL: return "numeric/boolean"; case FTEXT: return "text/plain"; case FPNG: return "image/png"; case FJPEG: return "image/jpeg"; default: return "?"; }
  }
  bool isfile() const { return kind >= FTEXT; }
  bool isnum() const { return kind >= INT && kind <= BOOL; }
  const char *tag() const { return isfile() ? "DartMeasurementFile" : "DartMeasurement"; }
  // the content as an independent printer writes it
  str content() const {
    char b_[400];
    switch (kind) {
      case STRING: case PLAIN: return text;
      case INT: snprintf(b_, sizeof b_, "%ld", l); return b_;
      case FLOAT: snprintf(b_, sizeof b_, "%.7g", (double)f); return b_;
      case DOUBLE: snprintf(b_, sizeof b_, "%.16g", d); return b_;
      case BOOL: return b ? "1" : "0";
      default: { size_t i = text.rfind('/'); return i == str::npos ? text : text.substr(i + 1); }
    }
  }
  bool tolerant() const { return tol == -1 ? (kind == FLOAT || kind == DOUBLE) : tol == 1; }
  str show() const { return str(type()) + "(" + jsonq(cut(name, 60)) + "," + jsonq(cut(isfile() ? text : content(), 80)) + ")" + (tol < 0 ? "" : tol ? "~" : "="); }
};
inline str show(const std::vector<Meas> &v) { str s; for (size_t i = 0; i < v.size() && i < 12; ++i) s += (i ? " " : "") + v[i].show(); if (v.size() > 12) s += " ...(" + std::to_string(v.size()) + ")"; return s; }

// the test under the control of the monitor
#ifndef VF_BASE
#define VF_BASE testutil::RegressionTest
#endif
#ifndef VF_SETUP
#define VF_SETUP
#endif
class T : public VF_BASE {
public:
  std::function<int(T &, int, char **)> body;
  bool entered; int rets; std::vector<int> results; std::vector<str> args;
  T() : entered(false), rets(0) { VF_SETUP }
  int Test(int argc, char *argv[]) { VF_SETUP entered = true; args.assign(argv, argv + argc); return body ? body(*this, argc, argv) : 0; }
  int make(const Meas &m) {
    VF_SETUP
    int r = 0; bool dflt = m.tol < 0, t = m.tol == 1;
    switch (m.kind) {
      case Meas::STRING: r = MeasurementTextString(m.text, m.name); break;
      case Meas::PLAIN: r = MeasurementTextPlain(m.text, m.name); break;
      case Meas::INT: r = dflt ? MeasurementNumericInteger(m.l, m.name) : MeasurementNumericInteger(m.l, m.name, t); break;
      case Meas::FLOAT: r = dflt ? MeasurementNumericFloat(m.f, m.name) : MeasurementNumericFloat(m.f, m.name, t); break;
      case Meas::DOUBLE: r = dflt ? MeasurementNumericDouble(m.d, m.name) : MeasurementNumericDouble(m.d, m.name, t); break;
      case Meas::BOOL: r = dflt ? MeasurementNumericBoolean(m.b, m.name) : MeasurementNumericBoolean(m.b, m.name, t); break;
      case Meas::FTEXT: r = MeasurementFileTextPlain(m.text, m.name); break;
      case Meas::FPNG: r = MeasurementFileImagePNG(m.text, m.name); break;
      case Meas::FJPEG: r = MeasurementFileImageJPEG(m.text, m.name); break;
      default: break;
    }
    results.push_back(r);
    return r;
  }
  std::ostream &out() { return GetOutStream(); }
  int compare(testutil::Measurement &m, bool tol) { int r = CompareMeasurement(m, tol); results.push_back(r); return r; }
};

// run Main with an argument vector; argv is on the heap with exact bounds, so
// that reads outside of it are seen
inline int runMain(testutil::RegressionTest &t, const std::vector<str> &args) {
  std::vector<std::vector<char> > st; std::unique_ptr<char *[]> av(new char *[args.size() + 1]);
  for (auto &a : args) { st.push_back(std::vector<char>(a.begin(), a.end())); st.back().push_back(0); }
  for (size_t i = 0; i < args.size(); ++i) av[i] = st[i].data();
  av[args.size()] = 0;
  return t.Main((int)args.size(), av.get());
}

struct Outcome { int ret; bool entered; std::vector<int> results; str out, cout, cerr; bool escaped; };

inline Outcome runSet(const std::vector<Meas> &ms, const std::vector<str> &args, int testret = 0, const std::function<void(T &)> &setup = nullptr) {
  T t; Outcome o; o.escaped = false;
  t.body = [&](T &s, int, char **) { for (auto &m : ms) s.make(m); return testret; };
  if (setup) setup(t);
  Capture co(std::cout), ce(std::cerr);
  try { o.ret = runMain(t, args); } catch (...) { o.escaped = true; o.ret = -9999; }
  o.entered = t.entered; o.results = t.results; o.cout = co.text(); o.cerr = ce.text();
  return o;
}

// ---- XML
struct Node { str tag, text; std::vector<std::pair<str, str> > attr; std::vector<Node> kids;
  str a(const str &n, bool *has = 0) const { for (auto &p : attr) if (p.first == n) { if (has) *has = true; return p.second; } if (has) *has = false; return ""; } };
struct XmlDoc { bool ok; str error; Node root; };
namespace xmlp {
struct St { Node top; std::vector<Node *> stack; };
inline void s(void *u, const char *el, const char **at) { St *t = (St *)u; Node n; n.tag = el; for (; *at; at += 2) n.attr.push_back(std::make_pair(str(at[0]), str(at[1]))); Node *p = t->stack.back(); p->kids.push_back(n); t->stack.push_back(&p->kids.back()); }
inline void e(void *u, const char *) { ((St *)u)->stack.pop_back(); }
inline void d(void *u, const char *c, int n) { ((St *)u)->stack.back()->text.append(c, n); }
}
inline XmlDoc parseXml(const str &x) {
  XmlDoc doc; doc.ok = true; xmlp::St st; st.stack.push_back(&st.top);
  XML_Parser p = XML_ParserCreate("US-ASCII");
  XML_SetElementHandler(p, xmlp::s, xmlp::e); XML_SetCharacterDataHandler(p, xmlp::d); XML_SetUserData(p, &st);
  if (!XML_Parse(p, x.data(), (int)x.size(), 1)) { doc.ok = false; doc.error = str(XML_ErrorString(XML_GetErrorCode(p))) + " at line " + std::to_string(XML_GetCurrentLineNumber(p)); }
  XML_ParserFree(p);
  if (doc.ok) doc.root = st.top.kids[0];
  return doc;
}
inline bool blank(const str &s) { return s.find_first_not_of(" \t\r\n") == str::npos; }

// an independent writer of baselines: picks one of the spellings XML allows
inline str esc(Rng &r, const str &s, bool attr) {
  str o;
  for (size_t i = 0; i < s.size(); ++i) {
    char c = s[i]; char b[16];
    bool must = c == '&' || c == '<' || (attr && c == '"') || (c == '>' && i >= 2 && s[i - 1] == ']') || c == '\r' || (attr && (c == '\n' || c == '\t'));
    if (must || r.chance(3)) {
      int k = (int)r.below(3);
      if (k == 0 && c == '&') o += "&amp;"; else if (k == 0 && c == '<') o += "&lt;"; else if (k == 0 && c == '>') o += "&gt;"; else if (k == 0 && c == '"') o += "&quot;"; else if (k == 0 && c == '\'') o += "&apos;";
      else if (k == 1) { snprintf(b, sizeof b, "&#x%x;", (unsigned)c); o += b; }
      else { snprintf(b, sizeof b, "&#%d;", c); o += b; }
    } else o += c;
  }
  return o;
}
inline str plainEsc(const str &s, bool attr) {
  str o;
  for (char c : s) { if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (attr && c == '"') o += "&quot;"; else if (c == '\r') o += "&#13;"; else if (attr && (c == '\n' || c == '\t')) o += c == '\n' ? "&#10;" : "&#9;"; else o += c; }
  return o;
}
struct Entry { str tag, name, type, content, encoding, compression; Entry() : tag("DartMeasurement") {} };
inline Entry entryOf(const Meas &m) { Entry e; e.tag = m.tag(); e.name = m.name; e.type = m.type(); e.content = m.content(); return e; }
inline str plainXml(const std::vector<Entry> &es) {
  str o = "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>\n<output>\n";
  for (auto &e : es) {
    o += "<" + e.tag + " name=\"" + plainEsc(e.name, true) + "\" type=\"" + plainEsc(e.type, true) + "\"";
    if (!e.encoding.empty()) o += " encoding=\"" + e.encoding + "\"";
    if (!e.compression.empty()) o += " compression=\"" + plainEsc(e.compression, true) + "\"";
    o += ">" + plainEsc(e.content, false) + "</" + e.tag + ">\n";
  }
  return o + "</output>\n";
}

// ---- measurement generators
inline float anyfloat(Rng &r) {
  switch (r.below(8)) {
    case 0: { static const std::vector<float> v = {0.f, -0.f, 1.f, -1.f, FLT_MIN, FLT_MAX, -FLT_MAX, FLT_EPSILON, 1e-45f, INFINITY, -INFINITY, NAN, 0.1f, 1e7f, 16777217.f, 123456.78f, 9999999.f, 99999996.f}; return r.pick(v); }
    case 1: { uint32_t b = (uint32_t)r.next(); float f; memcpy(&f, &b, 4); return f; }
    case 2: return (float)r.range(-1000, 1000);
    case 3: return (float)(r.unit() - .5) * std::pow(10.f, (float)r.range(-30, 30));
    default: return (float)((r.unit() - .5) * 2000);
  }
}
inline double anydouble(Rng &r) {
  switch (r.below(8)) {
    case 0: { static const std::vector<double> v = {0., -0., 1., -1., DBL_MIN, DBL_MAX, -DBL_MAX, DBL_EPSILON, 5e-324, HUGE_VAL, -HUGE_VAL, NAN, 0.1, 1e16, 9007199254740993., 3.141592653589793, 1e15 + .5, 2.5e-310, 1e308, FLT_MAX}; return r.pick(v); }
    case 1: { uint64_t b = r.next(); double f; memcpy(&f, &b, 8); return f; }
    case 2: return r.range(-1000, 1000);
    case 3: return (r.unit() - .5) * std::pow(10., r.range(-300, 300));
    default: return (r.unit() - .5) * 2000;
  }
}
inline long anylong(Rng &r) {
  switch (r.below(6)) {
    case 0: { static const std::vector<long> v = {0, 1, -1, INT_MAX, INT_MIN, (long)INT_MAX + 1, (long)INT_MIN - 1, LONG_MAX, LONG_MIN, LONG_MAX - 1, 4294967296L, 4294967295L, -4294967296L, 65536, 32768, 255, 256}; return r.pick(v); }
    case 1: return (long)r.next();
    case 2: return (long)r.next() >> r.below(64);
    default: return r.range(-1000, 1000);
  }
}
inline Meas anyMeas(Rng &r, bool files = false, int maxlen = 40) {
  Meas m; m.kind = (Meas::Kind)r.below(files ? Meas::NKINDS : Meas::FTEXT);
  m.name = anyname(r, 14);
  m.text = content(r, r.chance(3) ? maxlen * 60 : maxlen);
  if ((m.kind == Meas::STRING || m.kind == Meas::PLAIN) && r.below(500) == 0) { str big; size_t n = r.below(150000); int line = (int)r.below(400) + 1; for (size_t i = 0; big.size() < n; ++i) big += str(r.below(line), (char)('a' + i % 26)) + (r.chance(90) ? "\n" : "<&\r"); m.text = big; }
  m.l = anylong(r); m.f = anyfloat(r); m.d = anydouble(r); m.b = r.chance(50);
  if (r.chance(30)) m.tol = (int)r.below(2);
  return m;
}
inline std::vector<Meas> anySet(Rng &r, int maxn, bool files = false) {
  std::vector<Meas> v; int n = r.chance(4) ? (int)r.below(maxn * 12 + 1) : (int)r.below(maxn + 1);
  for (int i = 0; i < n; ++i) v.push_back(anyMeas(r, files));
  return v;
}
inline std::vector<Meas> sized(Rng &r, int n, bool files = false) { std::vector<Meas> v; for (int i = 0; i < n; ++i) v.push_back(anyMeas(r, files)); return v; }
}
#endif
