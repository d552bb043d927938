// C06: the framework takes its own leading options and passes on everything else
#include "tfx.h"
using namespace vf;
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  if (chdir(c.scratch.c_str())) return 3;
  for (auto d : {"d1", "d2", "d3", "d1/sub", "-I", "-P", "d with space"}) mkdir(d, 0755);
  for (auto f : {"b0.xml", "d1/b1.xml", "d2/b2.xml", "d1/both.xml", "d2/both.xml", "d3/b0.xml", "d1/sub/deep.xml", "-O", "-R", "d2/-I"}) writefile(f, "<output><DartMeasurement name=\"w\" type=\"text/string\">" + str(f) + "</DartMeasurement></output>");
  mkdir("d1/isdir.xml", 0755); writefile("d2/isdir.xml", "<output><DartMeasurement name=\"w\" type=\"text/string\">d2/isdir.xml</DartMeasurement></output>");
  const std::vector<str> ins = {"b0.xml", "b1.xml", "b2.xml", "both.xml", "sub/deep.xml", "missing.xml", "", "d1", "d1/b1.xml", c.scratch + "/b0.xml", c.scratch + "/d2/b2.xml", c.scratch + "/none", "-O", "-R", "-I", "isdir.xml", "./b0.xml", "deep.xml"};
  const std::vector<str> outs = {"o1.xml", "o2.xml", "d1/o3.xml", c.scratch + "/o4.xml", "no/o.xml", "", "d1", "-X", "o 5.xml"};
  const std::vector<str> dirs = {"d1", "d2", "d3", "d1/sub", "-P", "-I", "d with space", c.scratch + "/d1", "missing", "b0.xml", "", "."};
  const std::vector<str> plain = {"a", "", "--", "-i", "-I x", "-IO", "-", "-h", "--help", "x y", "-I=b0.xml", "-o", "-r", "-p", "I", "-Rx", "7", "-1", "-II"};
  cases([&](Rng &r, long k) {
    auto opt = [&]() { return r.pick(std::vector<str>{"-I", "-O", "-R", "-P"}); };
    std::vector<str> args; int lead = r.chance(3) ? r.range(20, 120) : r.range(0, 5);
    bool noargs = r.chance(1);
    if (!noargs) {
      args.push_back(r.chance(90) ? "prog" : r.pick(std::vector<str>{"-I", "", "-P", "/x/y"}));
      for (int i = 0; i < lead; ++i) {
        str o = opt(); if (lead > 10 && o == "-P" && r.chance(50)) o = "-R"; args.push_back(o);
        bool good = r.chance(lead > 10 ? 99 : 80);
        if (o == "-I") { str x = good ? r.pick(std::vector<str>{"b0.xml", "b1.xml", "b2.xml", "both.xml", "sub/deep.xml", "-O", "-R", "isdir.xml", c.scratch + "/b0.xml"}) : r.pick(ins); args.push_back(x); }
        else if (o == "-O") args.push_back(good ? outs[r.below(4)] : r.pick(outs));
        else if (o == "-R") { int v = r.chance(70) ? r.range(-300, 300) : (int)r.next(); str n = std::to_string(v); if (r.chance(20)) n.insert(v < 0 ? 1 : 0, r.range(1, 3), '0'); if (v >= 0 && r.chance(10)) n = "+" + n; args.push_back(n); }
        else args.push_back(good ? dirs[r.below(8)] : r.pick(dirs));
      }
      int tail = r.chance(3) ? r.range(10, 80) : r.range(0, 5); bool first = true;
      for (int i = 0; i < tail; ++i) { if (first) args.push_back(r.chance(25) ? r.chance(70) ? opt() + r.pick(std::vector<str>{"x", "P", "=", " ", "0", "retty", "-", "\xe9"}) : r.pick(std::vector<str>{"-", " ", "x", "/"}) + opt() : r.pick(plain)); else args.push_back(r.chance(40) ? opt() : r.chance(50) ? r.pick(plain) : printable(r, 20)); first = false; }
      if (r.chance(10)) args.push_back(opt());
    }
    // what is set beforehand
    fileutil::PathList preset; std::vector<str> path; int np = r.chance(50) ? 0 : r.range(1, 3);
    for (int i = 0; i < np; ++i) { str d = r.pick(std::vector<str>{"d1", "d2", "d3", "missing", "d1/sub"}); path.push_back(d); preset.push_back(fileutil::PathName(d)); }
    str in = r.chance(15) ? r.pick(ins) : "", outn = r.chance(15) ? r.pick(outs) : ""; int er = r.chance(20) ? r.range(-5, 5) : 0;
    const str presetIn = in;
    // the model
    bool error = false; str why; bool hasI = false, hasO = false; size_t i = 1; std::vector<str> rest; str newin, newout; int nopts = 0;
    if (!args.empty()) {
      while (i < args.size() && (args[i] == "-I" || args[i] == "-O" || args[i] == "-R" || args[i] == "-P")) {
        if (i + 1 >= args.size()) { error = true; why = "no value"; break; }
        const str &v = args[i + 1]; ++nopts;
        if (args[i] == "-I") { hasI = true; newin = v; } else if (args[i] == "-O") { hasO = true; newout = v; }
        else if (args[i] == "-R") er = (int)strtol(v.c_str(), 0, 10);
        else { struct stat s; if (stat(v.c_str(), &s) || !S_ISDIR(s.st_mode)) { error = true; why = "search path"; break; } path.insert(path.begin(), v); }
        i += 2;
      }
      rest.push_back(args[0]); for (size_t j = i; j < args.size(); ++j) rest.push_back(args[j]);
    }
    auto isfile = [](const str &p) { struct stat s; return !stat(p.c_str(), &s) && S_ISREG(s.st_mode); };
    auto find = [&](const str &n) -> str { for (auto &d : path) { str p = n[0] == '/' ? n : d + "/" + n; if (isfile(p)) return p; } return isfile(n) ? n : ""; };
    if (!error) {
      if (hasI) { in = newin; if (in.empty() || find(in).empty()) { error = true; why = "baseline"; } }
      else if (!in.empty() && find(in).empty()) { error = true; why = "preset baseline"; }
      if (hasO) outn = newout;
      if (!error && !outn.empty() && (outn == "d1" || outn == "no/o.xml")) { error = true; why = "output"; }
    }
    for (auto &o : outs) if (!o.empty() && isfile(o)) unlink(o.c_str());
    T t; t.SetInFileSearchPath(preset); if (!presetIn.empty()) t.SetInFileName(presetIn); if (!hasO && !outn.empty()) t.SetOutFileName(outn); 
    str gi, go; std::vector<str> gp; int ge = 0; bool cm = false;
    if (er && !nopts) t.SetExpectedReturn(er); else if (nopts) { /* a preset that may be replaced */ bool hasR = false; for (size_t j = 1; j + 1 < i + 1 && j + 1 < args.size(); j += 2) if (args[j] == "-R") hasR = true; t.SetExpectedReturn(hasR ? 99 : er); }
    t.body = [&](T &s, int, char **) { gi = s.GetInFileName(); go = s.GetOutFileName(); ge = s.GetExpectedReturn(); cm = s.GetCompareMode(); for (auto &p : s.GetInFileSearchPath()) gp.push_back(p.GetPathName()); Meas m; m.name = "w"; m.text = "?"; s.make(m); return er; };
    int ret; bool esc = false; str co; { Capture a(std::cout), b(std::cerr); try { ret = runMain(t, args); } catch (...) { esc = true; ret = -9; } co = a.text(); }
    std::ostringstream w; w << "arguments"; for (auto &a : args) w << " " << jsonq(a); w << ", preset input " << jsonq(presetIn) << ", preset path"; for (auto &p : preset) w << " " << p.GetPathName(); w << ", expected outcome: " << (error ? why : "run");
    auto list = [](const std::vector<str> &v) { str s; for (auto &x : v) s += " " + jsonq(x); return s; };
    if (esc) VIOL("escaped", w.str());
    if (error) { if (t.entered) VIOL("entered." + why, w.str()); if (ret == 0) VIOL("success." + why, w.str()); }
    else if (!t.entered) VIOL("notEntered", w.str());
    else {
      if (t.args != rest) VIOL("arguments", w.str() << ": the test received" << list(t.args) << " and not" << list(rest));
      if (gi != in) VIOL("input", w.str() << ": input " << jsonq(gi) << " and not " << jsonq(in));
      if (go != outn) VIOL("output", w.str() << ": output " << jsonq(go) << " and not " << jsonq(outn));
      if (ge != er) VIOL("expected", w.str() << ": expected return " << ge << " and not " << er);
      if (gp != path) VIOL("path", w.str() << ": search path" << list(gp) << " and not" << list(path));
      if (cm != !in.empty()) VIOL("mode", w.str() << ": compare mode " << cm);
      if (ret != (cm ? 1 : 0)) VIOL("return", w.str() << ": returned " << ret);
      if (cm) { // the baseline that was read is the one found first
        str got = outn.empty() ? co : readfile(outn), f = find(in), real = f; if (real.compare(0, c.scratch.size() + 1, c.scratch + "/") == 0) real = real.substr(c.scratch.size() + 1);
        XmlDoc d = parseXml("<o>" + got + "</o>"); str which; if (d.ok) for (auto &x : d.root.kids) if (x.a("name") == "Baseline w") which = x.text;
        if (which.empty() || readfile(f).find(">" + which + "<") == str::npos) VIOL("wrongBaseline", w.str() << ": read " << jsonq(which) << " and not " << jsonq(real) << " " << cut(got));
      }
      if (!outn.empty() && !isfile(outn)) VIOL("outputFile", w.str() << ": no output file");
    }
    c.count(error ? "rejected." + why : "accepted"); c.count("options", nopts); c.nontrivial(w.str()); if (k < 3 * c.shards) c.sample(w.str());
    if (k % 32 == 0) leakcheck("leak", w.str(), [&] { T t3; t3.body = [](T &, int, char **) { return 0; }; t3.SetInFileSearchPath(preset); Capture a(std::cout), b(std::cerr); try { runMain(t3, args); } catch (...) {} });
  });
  c.finish(); return 0;
}
