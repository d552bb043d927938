// C35: measuring an image in memory is measuring a new file that holds exactly that image
#include "imfile.h"
#include "itkCastImageFilter.h"
using namespace vf;
static std::set<str> files(const str &dir) { std::set<str> s; DIR *d = opendir(dir.c_str()); if (!d) return s; while (dirent *e = readdir(d)) if (e->d_name[0] != '.') s.insert(e->d_name); closedir(d); return s; }
struct Item { Shot shot; std::vector<int> start; bool lazy, stale, part; str name; };
struct Got { bool threw; int ret; str file; };
static str g_dir; static str g_what;
// measures the image, and looks at what was written
template <class I> Got measure(R &q, const Item &it) {
  Ctx &c = Ctx::get(); const unsigned D = I::ImageDimension; Got g; g.threw = false; g.ret = 0; typename I::Pointer p = make<I>(it.shot.img, it.start); typename I::SpacingType sp; typename I::PointType o; typename I::DirectionType m; m.SetIdentity();
  for (unsigned d = 0; d < D; ++d) { sp[d] = it.shot.spacing[d]; o[d] = it.shot.origin[d]; } if (it.shot.turned && D > 1) { m[0][0] = 0; m[1][1] = 0; m[0][1] = -1; m[1][0] = 1; } p->SetSpacing(sp); p->SetOrigin(o); p->SetDirection(m);
  typename I::Pointer use = p; typedef itk::CastImageFilter<I, I> Cast; typename Cast::Pointer cast; if (it.lazy) { cast = Cast::New(); cast->SetInPlace(false); cast->SetInput(p); use = cast->GetOutput(); }
  if (it.stale && it.lazy) { Img old = it.shot.img; for (auto &x : old.v) x = x == 1 ? 2 : 1; p->Graft(make<I>(old, it.start)); p->SetSpacing(sp); p->SetOrigin(o); p->SetDirection(m); use->Update(); p->Graft(make<I>(it.shot.img, it.start)); p->SetSpacing(sp); p->SetOrigin(o); p->SetDirection(m); p->Modified(); }
  if (it.part) { Box b = whole(it.shot.img); for (auto &x : b) x.second = (x.second + 1) / 2; if (it.lazy) use->UpdateOutputInformation(); use->SetRequestedRegion(region<I>(b, it.start)); if (it.lazy && it.stale) use->Update(); Ctx::get().count("part_requested"); }
  std::set<str> before = files(g_dir); int refs = use->GetReferenceCount();
  try { g.ret = q.image<I>(use, it.name); } catch (const std::exception &) { g.threw = true; return g; }
  std::set<str> after = files(g_dir); std::vector<str> nw; for (auto &f : after) if (!before.count(f)) nw.push_back(f);
  if (nw.size() != 1) { VIOL("files", nw.size() << " new files in " << jsonq(g_dir) << ": " << g_what); return g; } g.file = nw[0];
  if (use->GetReferenceCount() != refs) VIOL("kept", "the image is still referred to: " << g_what);
  if (g.file.size() < 5 || g.file.compare(g.file.size() - 4, 4, ".mha")) VIOL("name", "the file is " << jsonq(g.file) << ": " << g_what);
  Img was = back<I>(p, whole(it.shot.img), it.start, it.shot.img.size); auto same = [](const Img &a, const Img &b) { if (a.size != b.size || a.v.size() != b.v.size()) return false; for (size_t i = 0; i < a.v.size(); ++i) if (!(a.v[i] == b.v[i]) && (a.v[i] == a.v[i] || b.v[i] == b.v[i])) return false; return true; };
  if (!same(was, it.shot.img)) VIOL("changed", "the image was changed: " << g_what);
  typedef itk::ImageFileReader<I> Rd; typename Rd::Pointer rd = Rd::New(); rd->SetFileName(g_dir + "/" + g.file);
  try { rd->Update(); } catch (const std::exception &e) { VIOL("unreadable", e.what() << ": " << g_what); return g; }
  I *f = rd->GetOutput(); std::vector<int> size, st; for (unsigned d = 0; d < D; ++d) { size.push_back((int)f->GetLargestPossibleRegion().GetSize()[d]); st.push_back((int)f->GetLargestPossibleRegion().GetIndex()[d]); }
  if (size != it.shot.img.size) { VIOL("size", "another size: " << g_what); return g; } Img in(size, it.shot.img.nc); in = back<I>(f, whole(in), st, size); if (!same(in, it.shot.img)) VIOL("pixels", "the file holds " << show(in) << " and not " << show(it.shot.img) << ": " << g_what);
  typename I::PointType a, b; p->TransformIndexToPhysicalPoint(p->GetLargestPossibleRegion().GetIndex(), a); f->TransformIndexToPhysicalPoint(f->GetLargestPossibleRegion().GetIndex(), b); for (unsigned d = 0; d < D; ++d) { if (std::fabs(a[d] - b[d]) > 1e-4 * (1 + std::fabs(a[d]))) VIOL("origin", a[d] << " is " << b[d] << " in the file: " << g_what); if (std::fabs(sp[d] - f->GetSpacing()[d]) > 1e-6) VIOL("spacing", g_what); for (unsigned e = 0; e < D; ++e) if (std::fabs(m[d][e] - f->GetDirection()[d][e]) > 1e-6) VIOL("direction", g_what); }
  if ((int)rd->GetImageIO()->GetComponentType() != (int)itk::ImageIOBase::MapPixelType<typename itk::NumericTraits<typename I::PixelType>::ValueType>::CType) VIOL("component", "the file holds another type of component: " << g_what);
  c.count(it.lazy ? "images_of_a_pipeline" : "images"); return g;
}
static const std::vector<int> pixs = {UCHAR, SHORT, FLOAT_, DOUBLE_, RGB8, VECF};
static Got measure(R &q, const Item &it) {
  bool two = it.shot.img.size.size() == 2;
  switch (it.shot.pix) {
    case UCHAR: return two ? measure<itk::Image<unsigned char, 2> >(q, it) : measure<itk::Image<unsigned char, 3> >(q, it);
    case SHORT: return two ? measure<itk::Image<short, 2> >(q, it) : measure<itk::Image<short, 3> >(q, it);
    case FLOAT_: return two ? measure<itk::Image<float, 2> >(q, it) : measure<itk::Image<float, 3> >(q, it);
    case DOUBLE_: return two ? measure<itk::Image<double, 2> >(q, it) : measure<itk::Image<double, 3> >(q, it);
    case RGB8: return measure<itk::Image<itk::RGBPixel<unsigned char>, 2> >(q, it);
    default: return measure<itk::Image<itk::Vector<float, 2>, 2> >(q, it);
  }
}
static Item item(Rng &r, Gen &g) { Item it; int D = r.chance(65) ? 2 : 3; do it.shot = shot(r, g, D); while (std::find(pixs.begin(), pixs.end(), it.shot.pix) == pixs.end() || (D == 3 && ncOf(it.shot.pix) > 1)); it.lazy = r.chance(30); it.stale = r.chance(40); it.part = r.chance(20); bool zero = r.chance(60); for (int d = 0; d < D; ++d) it.start.push_back(zero ? 0 : r.range(-9, 9)); it.name = anyname(r, 10); return it; }
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); if (chdir(c.scratch.c_str())) return 3; quietItk();
  const str tag = "c35_" + std::to_string(c.shard);
  cases([&](Rng &r, long k) {
    for (auto d : {"keep", "dir"}) { rmtree(c.scratch + "/" + d); mkdir(d, 0755); } int n = r.range(1, 5); std::vector<Item> v; std::vector<Gen> gs; str all;
    for (int i = 0; i < n; ++i) { Gen g; Item it = item(r, g); if (i && r.chance(25)) { it = v.back(); g = gs.back(); } v.push_back(it); gs.push_back(g); all += it.name + " " + show(it.shot) + (it.lazy ? " from a pipeline" : "") + "\n"; }
    bool miss = r.chance(5); str prog = str(miss ? "missing/" : "dir/") + tag; g_dir = "dir"; std::vector<str> args = {prog, "-O", "rec.xml"}; if (r.chance(50)) args.push_back("a" + std::to_string(r.below(100))); g_what = "recording " + all;
    R t; std::vector<Got> rec; t.body = [&](R &q, int, char **) { for (auto &it : v) rec.push_back(measure(q, it)); return 0; }; int ret; { Capture x(std::cout), y(std::cerr); ret = runMain(t, args); }
    bool threw = false; for (auto &g : rec) { threw |= g.threw; if (!g.threw && g.ret) ret = 1; }
    if (miss) { for (auto &g : rec) if (!g.threw) VIOL("unwritten", "an image that could not be written was measured: " << all); c.count("unwritable"); c.nontrivial(all + prog); return; }
    if (ret || threw) { VIOL("recordReturn", "recording returned " << ret << (threw ? ", an exception left the measurement" : "") << ": " << all); return; }
    XmlDoc d = parseXml(readfile("rec.xml")); if (!d.ok || d.root.kids.size() != v.size()) { VIOL("recording", jsonq(readfile("rec.xml")) << ": " << all); return; }
    for (size_t i = 0; i < v.size(); ++i) { const Node &x = d.root.kids[i]; if (x.tag != "DartMeasurementFile" || x.a("name") != v[i].name || x.a("type") != "image/itk" || x.text != rec[i].file) { VIOL("recording", "recorded " << x.tag << " " << jsonq(x.a("name")) << " " << x.a("type") << " " << jsonq(x.text) << " and not " << jsonq(rec[i].file) << ": " << all); return; } }
    for (auto &g : rec) if (!exists("dir/" + g.file)) { VIOL("overwritten", "the file " << g.file << " is gone: " << all); return; } else rename(("dir/" + g.file).c_str(), ("keep/" + g.file).c_str());
    // the same, or related images
    std::vector<Item> w = v; str show2; for (size_t i = 0; i < w.size(); ++i) { if (r.chance(50)) { Shot b; do b = variant(r, w[i].shot, gs[i]); while (b.pix != w[i].shot.pix); w[i].shot = b; } if (r.chance(5)) w[i].name += "x"; w[i].lazy = r.chance(30); show2 += w[i].name + " " + show(w[i].shot) + "\n"; }
    g_what = "comparing " + show2 + "with " + all; int bad = 0; R u; Tol now; if (r.chance(40)) { now = anyTol(r, gs[0], Seen(), Seen()); u.SetImageInsightTolerance(now.i, now.n, now.r); } bool ex = false;
    u.body = [&](R &q, int, char **) { for (size_t i = 0; i < w.size(); ++i) { if (r.chance(30)) { now = Tol(gs[i].step * (double)r.below(4), (unsigned)r.below(5), (unsigned)r.below(2)); q.SetImageInsightTolerance(now.i, now.n, now.r); } Got g = measure(q, w[i]); if (g.threw) { ex = true; throw std::runtime_error("measurement threw"); } if (g.file.empty()) continue; Seen st = readImage("dir/" + g.file), sb = readImage("keep/" + rec[i].file); int e = w[i].name == v[i].name ? expectMatch(st, sb, now) : 0; if ((g.ret == 0) != (e == 1)) VIOL("verdict", "measurement " << i << " returned " << g.ret << ", tolerances " << now.i << " " << now.n << " " << now.r << ": " << g_what); bad += !e; c.count(e ? "match" : "mismatch"); } return 0; };
    { Capture x(std::cout), y(std::cerr); ret = runMain(u, {prog, "-P", "keep", "-I", "rec.xml"}); }
    // an exception is an answer if the images can not be compared at all
    if (!ex && ret != bad) VIOL("main", "Main returned " << ret << " with " << bad << " mismatches: " << g_what); if (ex && !ret) VIOL("main", "an exception is a success: " << g_what); if (ex) c.count("exceptions");
    c.nontrivial(all + show2); if (k < 3 * c.shards) c.sample(g_what);
  });
  DIR *d = opendir(reportDir()); if (d) { std::vector<str> fs; while (dirent *e = readdir(d)) fs.push_back(e->d_name); closedir(d); for (auto &f : fs) if (!f.compare(0, tag.size() + 1, tag + "_")) unlink((str(reportDir()) + "/" + f).c_str()); }
  c.finish(); return 0;
}
