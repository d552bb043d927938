// C24: every image mismatch is reported with what differs and viewable images
#include "imfile.h"
using namespace vf;
struct Pair { str test, where, base, name, show; Seen st, sb; Gen g; bool misnamed; };
// the XML elements in a text
static std::vector<Node> elements(const str &s, str &error) {
  std::vector<Node> v; size_t p = 0;
  while ((p = s.find("<DartMeasurement", p)) != str::npos) { size_t e = s.find("</DartMeasurement", p); if (e == str::npos) { error = "element is not ended"; return v; } e = s.find('>', e); if (e == str::npos) { error = "element is not ended"; return v; } str x = s.substr(p, e + 1 - p); XmlDoc d = parseXml("<o>" + x + "</o>"); if (!d.ok || d.root.kids.size() != 1) { error = d.error + " in " + jsonq(cut(x)); return v; } v.push_back(d.root.kids[0]); p = e; }
  return v;
}
static std::vector<double> numbers(const str &s) { std::vector<double> v; const char *p = s.c_str(); while (*p) { if (isdigit((unsigned char)*p) || ((*p == '-' || *p == '+' || *p == '.') && p[1])) { char *e; double x = strtod(p, &e); if (e > p) { v.push_back(x); p = e; continue; } } ++p; } return v; }
template <class A> static bool same(const str &s, const A &a) { std::vector<double> v = numbers(s); if (v.size() != 3) return false; for (int i = 0; i < 3; ++i) if (std::fabs(v[i] - (double)a[i]) > 2e-5 * (1e-3 + std::fabs((double)a[i]))) return false; return true; }
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); if (chdir(c.scratch.c_str())) return 3; quietItk();
  const str tag = "c24_" + std::to_string(c.shard);
  cases([&](Rng &r, long k) {
    for (auto d : {"base", "test"}) { rmtree(c.scratch + "/" + d); mkdir(d, 0755); } 
    int n = r.range(1, 5), naming = (int)r.below(6); static const std::vector<str> exts = {".mha", ".nrrd", ".vtk", ".nii", ".mhd"}; std::vector<Pair> v; std::vector<Entry> es; str all;
    for (int i = 0; i < n; ++i) {
      Pair p; p.misnamed = r.chance(6); Shot a = shot(r, p.g), b = variant(r, a, p.g); str stem = tag + "_" + std::to_string(i) + (r.chance(10) ? " x.y" : ""); 
      // names that differ only in a part of them
      if (naming == 1) stem = tag + "_." + std::to_string(i); if (naming == 2) stem = tag + "_" + str(1 + i % 5, 'x'); if (naming == 3) { stem = tag + "_name"; for (int q = 0; q < 3; ++q) if (i >> q & 1) stem[stem.size() - 4 + q] -= 32; }
      if (naming == 4) { stem = tag + "_" + std::to_string(i); p.test = tag + "_same" + exts[i]; if (!writeImage(b, "test/" + p.test)) continue; } else
      p.test = writeAny(r, b, "test", stem); p.base = writeAny(r, a, "base", stem + (r.chance(50) ? "" : "b")); if (p.test.empty() || p.base.empty()) continue;
      p.where = "base/" + p.base; p.test = (r.chance(20) ? c.scratch + "/" : str()) + "test/" + p.test; p.st = readImage(p.test); p.sb = readImage(p.where); if (!p.st.ok || !p.sb.ok) continue;
      p.name = anyname(r, 12); p.show = "test " + p.test + " " + show(b) + " baseline " + p.where + " " + show(a); Entry e; e.tag = "DartMeasurementFile"; e.name = p.name + (p.misnamed ? "x" : ""); e.type = "image/itk"; e.content = p.base; es.push_back(e); v.push_back(p); all += p.show + "\n";
    }
    if (v.empty()) return; writefile("base.xml", plainXml(es)); bool tofile = r.chance(40); std::vector<Tol> tols; for (auto &p : v) tols.push_back(r.chance(40) ? Tol() : anyTol(r, p.g, p.st, p.sb));
    R t; std::vector<int> got; std::vector<str> outs; std::vector<long> fileAt; str done; bool ended = false;
    std::vector<str> args = {"p", "-P", "base", "-I", "base.xml"}; unlink("out.xml"); if (tofile) { args.push_back("-O"); args.push_back("out.xml"); }
    int ret; str whole_;
    { Capture x(std::cout), y(std::cerr); size_t mark = 0, fmark = 0;
      t.body = [&](R &q, int, char **) { for (size_t i = 0; i < v.size(); ++i) { q.SetImageInsightTolerance(tols[i].i, tols[i].n, tols[i].r); int g = -1; try { g = q.file(v[i].test, v[i].name); } catch (const std::exception &e) { done = e.what(); } got.push_back(g); str s = x.text(); str f = tofile ? readfile("out.xml") : str(); outs.push_back(s.substr(mark) + f.substr(std::min(fmark, f.size()))); mark = s.size(); fmark = f.size(); } ended = true; return 0; };
      ret = runMain(t, args); }
    if (!done.empty()) { VIOL("exception", done << ": " << all); return; } if (!ended || got.size() != v.size()) { VIOL("notRun", "the run did not go on: " << all); return; }
    for (size_t i = 0; i < v.size(); ++i) {
      const Pair &p = v[i]; std::ostringstream w; w << "tolerances " << tols[i].i << " " << tols[i].n << " " << tols[i].r << " name " << jsonq(p.name) << " " << p.show << " output " << jsonq(cut(outs[i], 3000)); str what = w.str(); str error; std::vector<Node> N = elements(outs[i], error); if (!error.empty()) { VIOL("malformed", error << ": " << what); continue; }
      if (got[i] == 0) { if (!N.empty()) VIOL("reportOfMatch", "a match is reported: " << what); c.count("matches"); continue; }
      size_t at = 0; bool ok = true;
      auto next = [&](const str &name, const char *type, const char *tg = "DartMeasurement") -> str { if (!ok) return str(); if (at >= N.size()) { VIOL("missing", "no report " << jsonq(name) << ": " << what); ok = false; return str(); } const Node &x = N[at++]; if (x.tag != tg || x.a("name") != name || x.a("type") != type || !x.kids.empty()) { VIOL("report", "report <" << x.tag << "> " << jsonq(x.a("name")) << " " << x.a("type") << " instead of " << jsonq(name) << " " << type << ": " << what); ok = false; } return x.text; };
      auto say = [&](bool good, const char *key, const str &text) { if (ok && !good) { VIOL(key, "the content " << jsonq(text) << " is wrong: " << what); ok = false; } };
      if (p.misnamed) { str s = next("Unmatched " + p.name, "image/itk", "DartMeasurementFile"); say(s == p.test, "unmatched", s); if (ok && at != N.size()) VIOL("extra", "more reports: " << what); c.count("unmatched"); continue; }
      if (p.st.img.size != p.sb.img.size) { str s = next("Baseline Size " + p.name, "text/string"); say(same(s, p.sb.img.size), "size", s); s = next("Test ImageSize " + p.name, "text/string"); say(same(s, p.st.img.size), "size", s); if (ok && at != N.size()) VIOL("extra", "more reports: " << what); c.count("size_reports"); continue; }
      if (p.sb.spacing != p.st.spacing) { str s = next("Baseline Spacing " + p.name, "text/string"); say(same(s, p.sb.spacing), "spacing", s); s = next("Test Spacing " + p.name, "text/string"); say(same(s, p.st.spacing), "spacing", s); c.count("spacing_reports"); }
      if (p.sb.origin != p.st.origin) { str s = next("Baseline Origin " + p.name, "text/string"); say(same(s, p.sb.origin), "origin", s); s = next("Test Origin " + p.name, "text/string"); say(same(s, p.st.origin), "origin", s); c.count("origin_reports"); }
      if (p.sb.pixel != p.st.pixel) { str s = next("Baseline PixelType " + p.name, "text/string"); say(s == p.sb.pixelName, "pixelType", s); s = next("Test PixelType " + p.name, "text/string"); say(s == p.st.pixelName, "pixelType", s); c.count("pixel_type_reports"); }
      if (p.sb.component != p.st.component) { str s = next("Baseline ComponentType " + p.name, "text/string"); say(s == p.sb.componentName, "componentType", s); s = next("Test ComponentType " + p.name, "text/string"); say(s == p.st.componentName, "componentType", s); c.count("component_type_reports"); }
      if (p.sb.nc != p.st.nc) { str s = next("Baseline Number Of Components " + p.name, "numeric/integer"); say(s == std::to_string(p.sb.nc), "components", s); s = next("Test Number Of Components " + p.name, "numeric/integer"); say(s == std::to_string(p.st.nc), "components", s); c.count("number_of_components_reports"); }
      Ref ref = refDiff(p.sb.img, p.st.img, whole(p.sb.img), tols[i].i, (int)tols[i].r, false); str s = next("ImageError " + p.name, "numeric/double"); if (ok) { char *e; double x = strtod(s.c_str(), &e); say(e != s.c_str() && !*e && x == (double)ref.count, "count", s + " and not " + std::to_string(ref.count)); }
      // the images: difference, baseline, test
      std::set<str> files; bool nan = false; for (auto x : p.sb.img.v) nan |= x != x; for (auto x : p.st.img.v) nan |= x != x;
      Img diff = p.sb.img; bool known = tols[i].r == 0; for (long q = 0; q < diff.pixels(); ++q) diff.v[q] = ref.mag.count(q) ? p.sb.img.v[q] - p.st.img.v[q] : 0;
      const int nx = p.sb.img.size[0], ny = p.sb.img.size[1], z = p.sb.img.size[2] / 2;
      for (int j = 0; j < 3 && ok; ++j) {
        str f = next("Difference " + p.name, "image/png", "DartMeasurementFile"); if (!ok) break; files.insert(f);
        str magic = readfile(f).substr(0, 8); if (magic != "\x89PNG\r\n\x1a\n") { VIOL("notPng", "the file " << jsonq(f) << (exists(f) ? " is no PNG file: " : " does not exist: ") << what); ok = false; break; }
        typedef itk::Image<unsigned char, 2> P; typedef itk::ImageFileReader<P> PR; PR::Pointer pr = PR::New(); pr->SetFileName(f); try { pr->Update(); } catch (const std::exception &e) { VIOL("unreadablePng", e.what() << " " << jsonq(f) << ": " << what); ok = false; break; }
        P::SizeType sz = pr->GetOutput()->GetLargestPossibleRegion().GetSize(); if ((int)sz[0] != nx || (int)sz[1] != ny) { VIOL("pngSize", "image " << jsonq(f) << " is " << sz[0] << "x" << sz[1] << ": " << what); ok = false; break; }
        const Img &src = j == 0 ? diff : j == 1 ? p.sb.img : p.st.img; if (nan || (j == 0 && !known)) { c.count("images_of_right_size"); continue; }
        double lo = HUGE_VAL, hi = -HUGE_VAL; for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) { double q = src.v[src.offset({x, y, z})]; lo = std::min(lo, q); hi = std::max(hi, q); }
        if (!(hi - lo > 1e-6 * std::max(std::fabs(lo), std::fabs(hi)))) hi = lo; // shades of rounding errors
        for (int y = 0; y < ny && ok && hi > lo; ++y) for (int x = 0; x < nx && ok; ++x) { double q = (src.v[src.offset({x, y, z})] - lo) / (hi - lo) * 255; P::IndexType ix; ix[0] = x; ix[1] = y; int px = pr->GetOutput()->GetPixel(ix); if (std::fabs(px - q) > 1.01) { VIOL("pngContent", (j == 0 ? "difference" : j == 1 ? "baseline" : "test") << " image shows " << px << " at " << x << "," << y << " instead of " << q << ": " << what); ok = false; } }
        if (hi > lo) c.count("images_of_right_content"); else c.count("images_of_right_size");
      }
      if (ok && files.size() != 3) VIOL("sameFile", "the reported images are not three files: " << what); if (ok && at != N.size()) VIOL("extra", "more reports: " << what); c.count("reports_with_images"); for (auto &f : files) if (f.find(tag) != str::npos && !f.compare(0, str(reportDir()).size(), reportDir())) unlink(f.c_str());
    }
    str h; for (auto &x : tols) { std::ostringstream o; o << x.i << " " << x.n << " " << x.r << ";"; h += o.str(); } c.nontrivial(all + h); if (k < 3 * c.shards) c.sample(all);
  });
  c.finish(); return 0;
}
