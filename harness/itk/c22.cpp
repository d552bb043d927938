// C22: image measurements match exactly if geometry and pixels agree in tolerance
#include "imfile.h"
using namespace vf;
struct Pair { str test, base, name; Seen st, sb; bool broken; Gen g; str show; };
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); if (chdir(c.scratch.c_str())) return 3; quietItk();
  const str tag = "c22_" + std::to_string(c.shard), shared = itk::ITK_REGRESSION_DATA_BASELINE;
  cases([&](Rng &r, long k) {
    if (k < 3 * c.shards) { // many pixels, or a large radius
      mkdir("base", 0755); mkdir("test", 0755); BigPair p = bigPair(r, k >= c.shards); mhaFile("test/t.mha", p.w, p.h, p.test); mhaFile("base/b.mha", p.w, p.h, p.base); Entry e; e.tag = "DartMeasurementFile"; e.name = "big"; e.type = "image/itk"; e.content = "b.mha"; std::ostringstream hist;
      writefile("base.xml", plainXml({e, e, e, e})); R t; int bad = 0; t.body = [&](R &q, int, char **) { for (int i = 0; i < 4; ++i) { Tol x = bigTol(r, p); q.SetImageInsightTolerance(x.i, x.n, x.r); hist << "tolerances " << x.i << " " << x.n << " " << x.r << "; "; bool m = p.count(x) <= (long)x.n; int got = q.file("test/t.mha", "big"); if ((got == 0) != m) VIOL(m ? "rejectsEqual" : "acceptsDifferent", "returned " << got << " with " << p.count(x) << " pixels outside " << hist.str() << p.show); bad += !m; c.count(m ? "match" : "mismatch"); } return 0; };
      int ret; { Capture x(std::cout), y(std::cerr); ret = runMain(t, {"p", "-P", "base", "-I", "base.xml"}); } if (ret != bad) VIOL("main", "Main returned " << ret << " with " << bad << " images that do not match: " << hist.str() << p.show);
      c.count("large_cases"); c.nontrivial(p.show + hist.str()); rmtree(c.scratch + "/base"); rmtree(c.scratch + "/test"); for (auto s : {".diff.png", ".base.png", ".test.png"}) (void)s; return;
    }
    for (auto d : {"base", "test", "second", "plain"}) { rmtree(c.scratch + "/" + d); mkdir(d, 0755); } std::vector<str> rubbish;
    int n = r.range(1, 5); std::vector<Pair> v;
    for (int i = 0; i < n; ++i) {
      Pair p; Shot a = shot(r, p.g), b = variant(r, a, p.g); str stem = tag + "_" + std::to_string(i); p.broken = false; bool plainDir = r.chance(10);
      p.test = writeAny(r, b, "test", stem); str bd = r.chance(15) ? shared : r.chance(20) ? "second" : "base", bs = stem + (r.chance(30) ? "" : "b"); str bf = writeAny(r, a, bd, bs); if (p.test.empty() || bf.empty()) { c.count("unwritable"); continue; }
      if (bd == shared) rubbish.push_back(shared + "/" + bf);
      p.test = (r.chance(20) ? c.scratch + "/" : str()) + "test/" + p.test; str where = bd + "/" + bf; p.show = "test " + p.test + " " + show(b) + " baseline " + where + " " + show(a);
      if (r.chance(10)) { bool t = r.chance(50); str h = breakFile(r, t ? p.test : where); p.broken = true; p.show += t ? " (test file " : " (baseline file "; p.show += h + ")"; }
      else if (bd == shared && r.chance(30)) { Shot o = variant(r, a, p.g); str ext = bf.substr(bf.find('.')); if (ext == ".mha" && writeImage(o, "base/" + bf)) { where = "base/" + bf; p.show += " hidden by one in -P " + show(o); } }
      p.base = r.chance(80) ? bf : r.chance(50) ? "else/where/" + bf : where; // only the last part is looked for
      struct stat sst; if (p.broken && (stat(where.c_str(), &sst) || !S_ISREG(sst.st_mode))) { p.base = bf; }
      p.st = readImage(p.test); p.sb = readImage(where); if (p.broken && (!p.st.ok || !p.sb.ok)) c.count("unreadable");
      p.name = anyname(r, 10); v.push_back(p); (void)plainDir;
    }
    if (v.empty()) return; std::vector<Entry> es; for (auto &p : v) { Entry e; e.tag = "DartMeasurementFile"; e.name = p.name; e.type = "image/itk"; e.content = p.base; es.push_back(e); }
    str all; for (auto &p : v) all += p.show + "\n";
    auto judge = [&](const Pair &p, const Tol &t) -> int { if (p.broken && p.st.ok && p.sb.ok) return -1; return expectMatch(p.st, p.sb, t); };
    auto tolText = [](const Tol &t) { std::ostringstream o; o << "tolerances " << t.i << " " << t.n << " " << t.r; return o.str(); };
    if (r.chance(65)) { // through a test
      bool misname = r.chance(15); size_t off = misname ? r.below(v.size()) : v.size(); if (misname) { if (r.chance(50)) es[off].name += "x"; else es[off].type = "image/png"; }
      writefile("base.xml", plainXml(es)); R t; Tol now; int bad = 0; bool open = false, threw = false, outer = r.chance(30); uint64_t seed = r.next();
      auto set = [&](R &q, Rng &s, const Pair &p) { switch (s.below(5)) { case 0: q.SetImageInsightToleranceOff(); now = Tol(); break; case 1: { Tol x = anyTol(s, p.g, p.st, p.sb); q.SetImageInsightTolerance(x.i); now = Tol(x.i, 0, 0); break; } case 2: { Tol x = anyTol(s, p.g, p.st, p.sb); q.SetImageInsightTolerance(x.i, x.n); now = Tol(x.i, x.n, 0); break; } default: now = anyTol(s, p.g, p.st, p.sb); q.SetImageInsightTolerance(now.i, now.n, now.r); } };
      Rng s(seed); if (outer) set(t, s, v[0]);
      t.body = [&](R &q, int, char **) {
        for (size_t i = 0; i < v.size(); ++i) {
          const Pair &p = v[i]; int sets = s.chance(65) ? s.chance(80) ? 1 : 2 : 0; for (int j = 0; j < sets; ++j) set(q, s, p);
          if (s.chance(10)) q.SetRelativeTolerance(s.unit());
          int e = i == off ? 0 : judge(p, now), got; bool ex = false; try { got = q.file(p.test, p.name); } catch (const std::exception &x) { got = 1; ex = threw = true; }
          if (ex && e == 1) VIOL("threw", "an exception left the measurement of images that match, " << tolText(now) << ": " << p.show);
          if (e < 0) { open = true; c.count("left_open"); continue; }
          if (got == 0 && e == 0) VIOL(p.st.ok && p.sb.ok ? "acceptsDifferent" : "acceptsUnreadable", "images match, " << tolText(now) << ": " << p.show);
          if (got != 0 && e == 1) VIOL("rejectsEqual", "images do not match, " << tolText(now) << ": " << p.show);
          c.count(e ? "match" : "mismatch"); if (e == 0) ++bad; if (e == 1 && now.n) c.count("match_with_tolerance"); if (!sameGeometry(p.st, p.sb) && p.st.ok && p.sb.ok) c.count("other_geometry");
        }
        return 0; };
      int ret; { Capture x(std::cout), y(std::cerr); ret = runMain(t, {"p", "-P", "second", "-P", "base", "-I", "base.xml"}); }
      if (!t.entered) { VIOL("notEntered", all); return; }
      if (!open && ret != bad) VIOL("main", "Main returned " << ret << " with " << bad << " images that do not match" << (threw ? " (an exception was caught by the test)" : "") << ": " << all);
      c.nontrivial(all + std::to_string(seed) + plainXml(es));
    } else if (r.chance(60)) { // a visitor that is used again
      itk::CompareVisitor vis; Tol now; str h;
      for (int q = 0; q < 6; ++q) {
        Pair &p = v[r.below(v.size())]; if (r.chance(60)) switch (r.below(4)) { case 0: vis.SetImageInsightToleranceOff(); now = Tol(); break; case 1: { Tol x = anyTol(r, p.g, p.st, p.sb); vis.SetImageInsightTolerance(x.i); now = Tol(x.i, 0, 0); break; } default: now = anyTol(r, p.g, p.st, p.sb); vis.SetImageInsightTolerance(now.i, now.n, now.r); }
        if (r.chance(20)) { if (r.chance(50)) vis.SetTolerance(.5); else vis.SetToleranceOff(); }
        testutil::MeasurementFile m, b; m.SetAttributeType("image/itk"); b.SetAttributeType("image/itk"); m.SetAttributeName("a"); b.SetAttributeName("a"); m.SetFileName(p.test);
        str where = p.base.substr(p.base.rfind('/') + 1); bool found = false; for (auto d : {str("base"), str("second"), shared}) if (!found && exists(d + "/" + where)) { where = d + "/" + where; found = true; } if (!found) where = "missing/" + where; b.SetFileName(where);
        bool got = false; { Capture x(std::cout), y(std::cerr); vis.SetBaselineMeasurement(&b); try { m.AcceptVisitor(vis); got = vis.GetResult(); } catch (const std::exception &e) { VIOL("visitorThrew", e.what() << ": " << p.show); } }
        int e = judge(p, now); if (e < 0) continue; if (!exists(where) && got) VIOL("acceptsUnreadable", "visitor: " << p.show); if (got != (e == 1)) VIOL("visitor", "the visitor says " << got << ", " << tolText(now) << ": " << p.show); c.count(e ? "match" : "mismatch"); h += tolText(now);
      }
      c.nontrivial(all + h);
    } else { // recorded, and compared with the recording
      R t; std::vector<str> nm; t.body = [&](R &q, int, char **) { for (auto &p : v) q.file(p.test, p.name); return 0; };
      int ret; str out; { Capture x(std::cout), y(std::cerr); ret = runMain(t, {"p", "-O", "rec.xml"}); } for (int q : t.results) if (q) ret = 1;
      if (ret) VIOL("recordReturn", "recording images did not return 0: " << all);
      XmlDoc d = parseXml(readfile("rec.xml")); if (!d.ok || d.root.kids.size() != v.size()) { VIOL("recording", d.error << " recording of " << v.size() << " images: " << jsonq(readfile("rec.xml")) << all); return; }
      for (size_t i = 0; i < v.size(); ++i) { const Node &x = d.root.kids[i]; str tail = v[i].test.substr(v[i].test.rfind('/') + 1); if (x.tag != "DartMeasurementFile" || x.a("name") != v[i].name || x.a("type") != "image/itk" || x.text != tail) { VIOL("recording", "recorded " << x.tag << " " << jsonq(x.a("name")) << " " << x.a("type") << " " << jsonq(x.text) << ": " << v[i].show); return; } }
      R u; int bad = 0; u.body = [&](R &q, int, char **) { for (auto &p : v) { bool open = p.broken && p.st.ok && p.sb.ok; int got; try { got = q.file(p.test, p.name); } catch (const std::exception &) { got = 1; } if (got && p.st.ok && !open) VIOL("selfMismatch", "an image does not match its own recording: " << p.show); if (!got && !p.st.ok) VIOL("acceptsUnreadable", "an unreadable image matches itself: " << p.show); bad += got != 0; } return 0; };
      { Capture x(std::cout), y(std::cerr); ret = runMain(u, {"p", "-P", "test", "-I", "rec.xml"}); } if (u.entered && ret != bad) VIOL("main", "Main returned " << ret << " with " << bad << " mismatches: " << all); if (!u.entered) VIOL("notEntered", all);
      // an image of the test itself
      typedef itk::Image<short, 2> I2; Gen g = gen(r, SHORT); std::vector<int> size = {r.range(1, 8), r.range(1, 8)}; Img a = random(r, size, 1, g), b = r.chance(50) ? a : related(r, a, g);
      auto run = [&](const Img &im, const std::vector<str> &args) { R q; q.body = [&](R &z, int, char **) { return z.image<I2>(make<I2>(im, {0, 0}), "img") * 0; }; Capture x(std::cout), y(std::cerr); return runMain(q, args); };
      str prog = tag + "prog"; int r1 = run(a, {prog, "-O", "img.xml"}); XmlDoc e = parseXml(readfile("img.xml")); if (r1 || !e.ok || e.root.kids.size() != 1) { VIOL("imageRecording", jsonq(readfile("img.xml"))); return; }
      str f = e.root.kids[0].text; if (!exists(f)) { VIOL("imageFile", "no file " << f << " was written"); return; } Seen sf = readImage(f); if (!sf.ok || magnitude(&sf.img.v[0], &a.v[0], 1) > 0 || sf.img.v != a.v) VIOL("imageFile", "the file " << f << " does not hold the image " << show(a));
      mkdir("keep", 0755); rename(f.c_str(), ("keep/" + f).c_str()); int r2 = run(b, {prog, "-P", "keep", "-I", "img.xml"}); if ((r2 != 0) != (a.v != b.v)) VIOL("imageVerdict", "Main returned " << r2 << " for " << show(b) << " with baseline " << show(a)); c.count("images_in_memory"); unlink(f.c_str()); rmtree(c.scratch + "/keep");
      c.nontrivial(all + show(a) + show(b));
    }
    for (auto &f : rubbish) unlink(f.c_str()), rmdir(f.c_str()); for (auto x : {".raw", ".zraw", ".raw.gz"}) for (int i = 0; i < n; ++i) for (auto s : {"", "b"}) unlink((shared + "/" + tag + "_" + std::to_string(i) + s + x).c_str());
    if (k < 3 * c.shards) c.sample(all);
  });
  DIR *d = opendir(reportDir()); if (d) { std::vector<str> fs; while (dirent *e = readdir(d)) fs.push_back(e->d_name); closedir(d); for (auto &f : fs) if (!f.compare(0, tag.size() + 1, tag + "_") || !f.compare(0, tag.size() + 4, tag + "prog")) unlink((str(reportDir()) + "/" + f).c_str()); }
  c.finish(); return 0;
}
