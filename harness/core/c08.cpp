// C08: every mismatch is reported completely and matches are silent
#include "diffref.h"
#include "tolref.h"
using namespace vf;
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  if (chdir(c.scratch.c_str())) return 3;
  mkdir("base", 0755); mkdir("test", 0755); mkdir("second", 0755);
  for (auto f : {"f0", "f1", "f2"}) { writefile(str("base/") + f, str("contents ") + f); writefile(str("test/") + f, str("contents ") + (str(f) == "f1" ? "changed" : f)); writefile(str("test/other") + f, "x"); }
  writefile("second/f3", "3"); writefile("test/f3", "4"); writefile("f4", "44"); writefile("test/f4", "55");
  const str bl = c.scratch + "/base.xml", out = c.scratch + "/out.xml";
  cases([&](Rng &r, long k) {
    int n = r.chance(5) ? r.range(30, 150) : r.range(1, 8); std::vector<Meas> test, base; std::vector<Entry> es; std::vector<str> enc;
    for (int i = 0; i < n; ++i) {
      Meas m = anyMeas(r), b; 
      if (r.chance(15)) { m.kind = (Meas::Kind)r.range(Meas::FTEXT, Meas::FJPEG); m.text = r.pick(std::vector<str>{"test/f0", "test/f1", "test/f2", c.scratch + "/test/f1", "test/f3", "test/f4", "test/missing", "test/otherf0"}); }
      b = m; int how = (int)r.below(10);
      if (how == 0) b.name += r.chance(50) ? "x" : "<"; else if (how == 1) { b.kind = (Meas::Kind)((b.kind + 1) % Meas::FTEXT); }
      else if (how < 6) {
        if (m.isfile()) b.text = r.pick(std::vector<str>{"f0", "f1", "f2", "f3", "f4", "missing file", "some/where/f1"});
        else { b.text = r.chance(50) ? content(r, 60) : m.text + (r.chance(50) ? "\nmore" : " "); if (r.chance(30)) { Lines l = splitLines(m.text); l.insert(l.begin() + r.below(l.size() + 1), "inserted"); b.text = ""; for (size_t j = 0; j < l.size(); ++j) b.text += (j ? "\n" : "") + l[j]; } b.l = anylong(r); b.f = anyfloat(r); b.d = anydouble(r); b.b = !m.b; }
      } else if (m.isfile()) { str t = m.text.substr(m.text.rfind('/') + 1); b.text = t; }
      test.push_back(m); base.push_back(b);
    }
    if (r.chance(30)) base.resize(r.below(base.size() + 1)); else if (r.chance(30)) base.push_back(anyMeas(r));
    for (auto &b : base) { Entry e = entryOf(b); if (b.isfile()) e.content = b.text; str E; if (b.kind == Meas::STRING && e.content.empty() == false && r.chance(6)) { e.encoding = "base64"; e.content = "QUJD"; } if (!b.isfile() && r.chance(4)) e.compression = r.pick(std::vector<str>{"gzip", "none", "<&>\"", "type"}); es.push_back(e); }
    writefile(bl, plainXml(es));
    bool tofile = r.chance(50); std::vector<str> args = {"p", "-P", "second", "-P", "base", "-I", bl}; if (tofile) { args.push_back("-O"); args.push_back(out); }
    Outcome o = runSet(test, args, 0, nullptr);
    str what = "baseline " + show(base) + " test " + show(test); str text = tofile ? readfile(out) : o.cout;
    if (!o.entered) { VIOL("notEntered", o.cerr << what); return; }
    if (tofile && !o.cout.empty()) VIOL("stdout", jsonq(cut(o.cout)) << " on standard output: " << what);
    // which were mismatches, is the matter of other properties: what was returned
    XmlDoc d = parseXml("<o>" + text + "</o>");
    if (!d.ok) { VIOL("malformed", d.error << " in " << jsonq(cut(text, 1500)) << ": " << what); return; }
    if (!blank(d.root.text)) VIOL("strayText", jsonq(cut(d.root.text)) << ": " << what);
    size_t p = 0; bool stop = false; const std::vector<Node> &N = d.root.kids;
    auto want = [&](const char *kind, const str &tag, const str &name, const str &type, const str &ct, const str &encoding, const str &compression = "") {
      if (stop) return;
      if (p >= N.size()) { VIOL(str("missing.") + kind, "no report " << jsonq(name) << ": " << what); stop = true; return; }
      const Node &x = N[p++];
      if (x.tag != tag || x.a("name") != name || x.a("type") != type || x.a("encoding") != encoding || x.a("compression") != (compression == "none" ? "" : compression) || !x.kids.empty()) { VIOL(str("report.") + kind, "report is <" << x.tag << " name=" << jsonq(x.a("name")) << " type=" << jsonq(x.a("type")) << " encoding=" << x.a("encoding") << " compression=" << x.a("compression") << "> and not " << jsonq(name) << " " << type << " " << encoding << ": " << what); stop = true; return; }
      if (x.text != ct) { VIOL(str("content.") + kind, "content of " << jsonq(name) << " is " << jsonq(cut(x.text)) << " and not " << jsonq(cut(ct)) << ": " << what); stop = true; }
    };
    int bad = 0;
    for (size_t i = 0; i < test.size() && !stop; ++i) {
      const Meas &m = test[i]; str ct = m.isfile() ? m.text : m.content();
      bool paired = i < base.size() && base[i].name == m.name && str(base[i].type()) == m.type();
      bool failed = o.results[i] != 0; bad += failed;
      if (!paired && !failed) VIOL("unpairedMatched", "measurement " << i << " returned 0: " << what);
      if (!failed) { c.count("silent"); continue; }
      if (!paired) { want("unmatched", m.tag(), "Unmatched " + m.name, m.type(), ct, ""); c.count("unmatched"); continue; }
      const Entry &e = es[i];
      if (m.kind == Meas::PLAIN && base[i].kind == Meas::PLAIN) {
        if (p >= N.size()) { VIOL("missing.difference", "no report of " << m.show() << ": " << what); break; }
        const Node &x = N[p++];
        if (x.tag != "DartMeasurement" || x.a("name") != "Difference " + m.name || x.a("type") != "text/plain" || !x.kids.empty()) { VIOL("report.difference", "report " << jsonq(x.a("name")) << " of type " << x.a("type") << ": " << what); break; }
        Script R = applyScript(base[i].text, m.text, x.text);
        if (!R.error.empty() || x.text.empty()) { VIOL("content.difference", R.error << ": script " << jsonq(cut(x.text)) << " from " << jsonq(cut(base[i].text)) << " to " << jsonq(cut(m.text))); break; }
        c.count("difference");
      } else if (m.isfile() && base[i].isfile()) {
        // where the baseline file is
        str t = base[i].text.substr(base[i].text.rfind('/') + 1), where = base[i].text; for (auto dd : {"base", "second"}) { if (exists(str(dd) + "/" + t)) { where = str(dd) + "/" + t; break; } }
        want("test", m.tag(), "Test " + m.name, m.type(), ct, ""); want("baseline", "DartMeasurementFile", "Baseline " + m.name, m.type(), where, ""); c.count("files");
      } else if (m.isfile() || base[i].isfile()) { want("mixedTest", m.isfile() ? "DartMeasurementFile" : "DartMeasurement", (m.kind == Meas::PLAIN ? "Difference " : "Test ") + m.name, m.type(), m.kind == Meas::PLAIN ? N[p < N.size() ? p : 0].text : ct, ""); if (m.kind != Meas::PLAIN) want("mixedBaseline", e.tag, "Baseline " + m.name, e.type, e.content, e.encoding, e.compression); c.count("mixed");
      } else { want("test", "DartMeasurement", "Test " + m.name, m.type(), ct, ""); want("baseline", "DartMeasurement", "Baseline " + m.name, e.type, e.content, e.encoding, e.compression); c.count("test_and_baseline"); }
    }
    if (!stop && p < N.size()) VIOL("more", "more reports than mismatches, " << jsonq(N[p].a("name")) << ": " << what);
    c.nontrivial(what); if (k < 3 * c.shards) c.sample(what);
    if (k % 16 == 0) leakcheck("leak", what, [&] { runSet(test, args, 0); });
  });
  c.finish(); return 0;
}
