// C07: any baseline file is read as XML prescribes, or rejected, and nothing worse
#include "tfx.h"
#include "tolref.h"
using namespace vf;
static str ws(Rng &r, int pct) { str s; if (!r.chance(pct)) return s; int n = r.range(1, 4); for (int i = 0; i < n; ++i) s += r.pick(std::vector<str>{" ", "\n", "\t", "\r\n", "  ", "\r"}); return s; }
static str misc(Rng &r) {
  switch (r.below(7)) {
    case 0: return "<!-- " + r.pick(std::vector<str>{"c", "<x>", "a - b", "&", "]]>", "<DartMeasurement name=\"c\" type=\"text/plain\">c</DartMeasurement>"}) + " -->";
    case 1: return "<?pi " + r.pick(std::vector<str>{"x", "<y>", "a=\"b\"", ""}) + "?>";
    default: return ws(r, 70);
  }
}
static str text(Rng &r, const str &s) { // spellings of a text
  str o; size_t i = 0;
  while (i < s.size()) {
    size_t n = 1 + r.below(20); str p = s.substr(i, n); i += p.size();
    int k = (int)r.below(10);
    if (k == 0 && p.find("]]>") == str::npos && p[p.size() - 1] != ']' && p.find('\r') == str::npos && !(i < s.size() && p[p.size() - 1] == ']')) o += "<![CDATA[" + p + "]]>";
    else { o += esc(r, p, false); }
    if (k == 1) o += misc(r).find_first_not_of(" \t\r\n") == str::npos ? "" : "<!-- in between -->";
    if (k == 2) o += "<?pi in?>";
    if (k == 3 && r.chance(30)) o += "<![CDATA[]]>";
  }
  // ]]> must not appear outside of CDATA; esc sees pieces only
  size_t p = 0; str q; bool cd = false;
  while (p < o.size()) { if (!cd && o.compare(p, 9, "<![CDATA[") == 0) { cd = true; q += "<![CDATA["; p += 9; continue; } if (cd && o.compare(p, 3, "]]>") == 0) { cd = false; q += "]]>"; p += 3; continue; } if (!cd && o[p] == '>' && q.size() >= 2 && q.compare(q.size() - 2, 2, "]]") == 0 && (q.size() < 3 || true)) { q += "&gt;"; ++p; continue; } q += o[p++]; }
  return cd ? plainEsc(s, false) : q;
}
static str attrs(Rng &r, std::vector<std::pair<str, str> > a) {
  for (size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[r.below(i)]);
  str o;
  for (auto &p : a) {
    str w = ws(r, 30); o += w.empty() ? " " : w; o += p.first + ws(r, 10) + "=" + ws(r, 10);
    str v = esc(r, p.second, true); bool apos = r.chance(30) && v.find('\'') == str::npos; o += apos ? "'" + v + "'" : "\"" + v + "\"";
  }
  return o + ws(r, 10);
}
static const std::vector<str> types = {"text/plain", "text/string", "numeric/integer", "numeric/float", "numeric/double", "numeric/boolean"};
static const std::vector<str> files = {"f0.txt", "f1.txt", "f2.txt"};
static const std::vector<str> words = {"type", "name", "encoding", "compression", "output", "DartMeasurement", "DartMeasurementFile", "base64", "none", "text/string", "unknown"};
static str element(Rng &r, int depth);
static str measurement(Rng &r) {
  bool file = r.chance(15); std::vector<std::pair<str, str> > a; str name = printable(r, 12);
  if (r.chance(10)) name += r.pick(std::vector<str>{"\n", "\t", "a  b", ""});
  if (r.chance(10)) name = r.pick(words);
  if (r.chance(file ? 80 : 95)) a.push_back(std::make_pair("name", name));
  str ty = r.chance(85) ? r.pick(types) : r.pick(std::vector<str>{"text/html", "", "numeric/int", "TEXT/PLAIN", "link/url", "text/plain ", "type", "name", "encoding"});
  if (file) ty = r.pick(types);
  if (r.chance(90)) a.push_back(std::make_pair("type", ty));
  if (r.chance(8)) a.push_back(std::make_pair(r.pick(std::vector<str>{"unknown", "typ", "Type", "types", "xml:space", "names", "encodin"}), r.chance(70) ? r.pick(words) : str("x"))); 
  if (!file && r.chance(8)) a.push_back(std::make_pair("compression", r.chance(50) ? str("none") : r.chance(50) ? r.pick(words) : str("gzip")));
  if (!file && r.chance(8)) a.push_back(std::make_pair("encoding", r.pick(std::vector<str>{"none", "none", "base64", "base64", "base64", "other", "Base64", "", "hex", "type", "name", "compression"})));
  str tag = file ? "DartMeasurementFile" : "DartMeasurement", body;
  if (file) body = text(r, r.pick(files)); else if (a.size() && a.back().first == "encoding" && a.back().second == "base64") body = r.pick(std::vector<str>{"YWJj", "YQ==", "YWI=", "QUJDREVG\nR0g="}); else body = text(r, content(r, r.chance(5) ? 3000 : 40)); 
  if (r.chance(4)) body.insert(r.chance(50) ? 0 : body.size(), element(r, 1));
  if (!file && r.chance(5)) body += "&#233;&#x20AC;";
  if (!file && r.chance(3)) body += "&ent;";
  if (body.empty() && r.chance(50)) return "<" + tag + attrs(r, a) + "/>";
  return "<" + tag + attrs(r, a) + ">" + body + "</" + tag + ws(r, 10) + ">";
}
static str element(Rng &r, int depth) {
  str tag = r.pick(std::vector<str>{"other", "Dartmeasurement", "DartMeasurements", "output", "x", "a:b", "DartMeasurementfile", "m.-_1"});
  str b; int n = r.range(0, 3); for (int i = 0; i < n; ++i) { if (depth > 0 && r.chance(40)) b += element(r, depth - 1); else if (r.chance(20)) b += measurement(r); else b += text(r, content(r, 20)); }
  return "<" + tag + (r.chance(40) ? attrs(r, {{"name", "n"}, {"k", "v"}}) : str()) + (b.empty() && r.chance(50) ? "/>" : ">" + b + "</" + tag + ">");
}
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  if (chdir(c.scratch.c_str())) return 3;
  for (auto &f : files) writefile(f, "contents of " + f);
  const str bl = c.scratch + "/base.xml";
  cases([&](Rng &r, long k) {
    str doc; int style = (int)r.below(20);
    if (style == 0) { int n = r.range(0, 3000); for (int i = 0; i < n; ++i) doc += (char)r.next(); }
    else {
      if (r.chance(80)) doc += "<?xml version=\"1.0\"" + (r.chance(60) ? str(" encoding=\"") + r.pick(std::vector<str>{"US-ASCII", "UTF-8", "ISO-8859-1"}) + "\"" : str()) + "?>";
      if (r.chance(30)) doc += misc(r);
      bool dtd = r.chance(15); if (dtd) doc += "<!DOCTYPE output [ <!ENTITY ent \"entity &#60;&amp; text\"> <!ATTLIST DartMeasurement extra CDATA #IMPLIED" + (r.chance(30) ? str(" type CDATA \"text/string\"") : str()) + "> ]>";
      doc += "<output" + (r.chance(10) ? attrs(r, {{"a", "b"}}) : str()) + ">";
      int n = r.chance(5) ? r.range(50, 400) : r.range(0, 8);
      for (int i = 0; i < n; ++i) {
        if (r.chance(10)) doc += element(r, 3);
        if (r.chance(30)) doc += misc(r);
        if (r.chance(4)) doc += "stray text &amp; more";
        str m = measurement(r); if (!dtd) { size_t p = m.find("&ent;"); if (p != str::npos) m.erase(p, 5); } doc += m;
      }
      if (r.chance(1)) { int d = r.range(100, 2000); for (int i = 0; i < d; ++i) doc += "<n>"; doc += "x"; for (int i = 0; i < d; ++i) doc += "</n>"; }
      // the length, in relation to the pieces it is read in
      str tail = str("</output>") + ws(r, 40) + (r.chance(10) ? "<!-- end -->" : "");
      if (r.chance(40)) { size_t l = doc.size() + tail.size(); size_t target = (l / 1024 + r.below(3) + 1) * 1024 + (size_t)r.pick(std::vector<int>{0, 0, 0, 1, -1, 2, 3}); if (target > l) doc += r.chance(50) || target - l < 8 ? str(target - l, ' ') : "<!--" + str(target - l - 7, 'c') + "-->"; }
      doc += tail;
      if (style <= 6) { // mutations
        int e = r.range(1, 4);
        for (int i = 0; i < e && !doc.empty(); ++i) {
          size_t p = r.below(doc.size());
          switch (r.below(9)) {
            case 0: doc.resize(p); break; case 1: doc.erase(p, 1 + r.below(20)); break; case 2: doc.insert(p, r.pick(std::vector<str>{"<", ">", "&", "\"", "]]>", "<!--", "-->", "<a>", "</output>", "&#0;", "&#x110000;", "&x;", str(1, '\0'), "\xff", "\xc3\xa9", "<output>", "<![CDATA[", "</DartMeasurement>", "<?xml version=\"1.0\"?>"})); break;
            case 3: doc[p] = (char)r.next(); break; case 4: doc.insert(p, doc.substr(p, r.below(300))); break; case 5: doc += (char)r.next(); break; case 6: doc = "\xef\xbb\xbf" + doc; break; case 7: if (r.chance(20)) doc += str(r.below(3000), r.chance(50) ? ' ' : '\0'); break; default: { size_t q = r.below(doc.size()); std::swap(doc[p], doc[q]); }
          }
        }
      }
    }
    writefile(bl, doc);
    XmlDoc x = parseXml(doc); bool simple = x.ok && x.root.tag == "output";
    struct Want { bool file; str name, type, content, enc, comp; };
    std::vector<Want> want;
    if (x.ok) for (auto &n : x.root.kids) if (n.tag == "DartMeasurement" || n.tag == "DartMeasurementFile") {
      if (!n.kids.empty()) c.count("nested_in_measurement");
      Want w; w.file = n.tag == "DartMeasurementFile"; bool hn, ht; w.name = n.a("name", &hn); w.type = n.a("type", &ht); w.content = n.text; w.enc = n.a("encoding"); w.comp = n.a("compression");
      if (!hn && w.file) w.name = "unknown"; if (!ht) w.type = "text/plain"; if (!w.file && std::find(types.begin(), types.end(), w.type) == types.end()) w.type = "text/plain";
      want.push_back(w);
    }
    std::vector<int> expect; T t; int bad = 0; std::vector<str> texts;
    t.body = [&](T &s, int, char **) {
      if (!simple) { Meas m; m.name = "x"; s.make(m); return 0; }
      Rng q(c.seed + k);
      for (auto &w : want) {
        bool same = q.chance(70); int how = (int)q.below(3); str name = w.name, ty = w.type, ct = w.content;
        if (w.file && std::find(files.begin(), files.end(), ct) == files.end()) same = false, how = 0;
        if (w.file && std::find(types.begin(), types.end(), ty) == types.end()) same = false, how = 0;
        if (!w.file && w.enc == "base64") { static const std::map<str, str> dec = {{"YWJj", "abc"}, {"YQ==", "a"}, {"YWI=", "ab"}, {"QUJDREVG\nR0g=", "ABCDEFGH"}}; auto it = dec.find(ct); if (it == dec.end()) { same = false; how = 0; } else ct = it->second; }
        if (!same) { if (how == 0) name += "x"; else if (how == 1) { if (w.file) ct = ct == "f0.txt" ? "f1.txt" : "f0.txt"; else ct += "x"; } else { ty = ty == "text/string" ? "text/plain" : "text/string"; } }
        int got;
        if (w.file) { testutil::MeasurementFile f; f.SetAttributeName(name); f.SetAttributeType(ty); f.SetFileName(ct); got = s.compare(f, false); }
        else { std::unique_ptr<testutil::DataMeasurement> d(testutil::CreateDataMeasurement(ty)); d->SetAttributeName(name); d->SetContent(ct); got = s.compare(*d, false); }
        expect.push_back(same ? 0 : 1); bad += !same; texts.push_back(name + "|" + ty + "|" + ct);
      }
      testutil::PlainText p; p.SetAttributeName("after"); s.compare(p, false); expect.push_back(1); ++bad; texts.push_back("after the end");
      return 0;
    };
    int ret = -9; bool esc = false; str co, ce; { Capture a(std::cout), b(std::cerr); try { ret = runMain(t, {"p", "-I", bl}); } catch (...) { esc = true; } co = a.text(); ce = b.text(); }
    str what = "baseline of " + std::to_string(doc.size()) + " bytes: " + cut(doc, 1500);
    if (esc) VIOL("escaped", what);
    if (!x.ok) { if (t.entered) VIOL("malformedEntered", x.error << ": " << what); if (ret == 0) VIOL("malformedAccepted", x.error << ": " << what); c.count("malformed"); }
    else {
      if (!t.entered) VIOL("rejected", "well-formed, but rejected with " << cut(ce) << ": " << what);
      else if (simple) {
        for (size_t i = 0; i < expect.size() && i < t.results.size(); ++i) if ((t.results[i] != 0) != (expect[i] != 0)) { VIOL(expect[i] ? "falseMatch" : "falseMismatch", "measurement " << i << " " << jsonq(cut(texts[i])) << " returned " << t.results[i] << ", messages " << cut(ce) << ", " << what); break; }
        if (ret != bad) VIOL("return", "returned " << ret << " and not " << bad << ": " << what);
        c.count("measurements", want.size());
      } else c.count("robustness_only");
      c.count("wellformed");
    }
    c.nontrivial(doc); if (k < 3 * c.shards) c.sample(what);
    if (k % 8 == 0) leakcheck("leak", what, [&] { T t2; t2.body = [](T &s, int, char **) { Meas m; m.name = "x"; s.make(m); return 0; }; Capture a(std::cout), b(std::cerr); try { runMain(t2, {"p", "-I", bl}); } catch (...) {} });
  });
  c.finish(); return 0;
}
