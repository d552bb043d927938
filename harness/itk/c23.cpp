// C23: comparing images in a region counts only the differences in that region
#include "imfile.h"
using namespace vf;
template <class I> static void one(Rng &r, const char *type, bool fp, bool sgn) {
  Ctx &c = Ctx::get(); const unsigned D = I::ImageDimension; const int nc = Px<typename I::PixelType>::nc; typedef typename I::RegionType G; typedef itk::Regression Q;
  itk::MultiThreaderBase::SetGlobalDefaultNumberOfThreads(r.range(1, 6));
  Gen g; g.levels = (int)r.pick(std::vector<int>{2, 3, 6, 30, 120}); g.step = fp ? r.pick(std::vector<double>{1, .125, 1000}) : 1; if (fp && nc == 1 && sizeof(typename I::PixelType) == 8 && r.chance(30)) g.step = r.chance(50) ? .1 : .7; g.lo = sgn && r.chance(50) ? -(double)(g.levels / 2) * g.step : 0; g.nan = fp && r.chance(15); g.inf = false;
  std::vector<int> size, start; int lim = D == 1 ? 40 : D == 2 ? 12 : 7; for (unsigned d = 0; d < D; ++d) { size.push_back(r.chance(10) ? 1 : r.range(1, lim)); start.push_back(r.chance(60) ? 0 : r.range(-9, 9)); }
  bool round = roundSize(r, D, size, 15); Img a = random(r, size, nc, g), b = related(r, a, g); if (round && r.chance(80)) { b = a; for (auto &x : b.v) x += g.step; } auto clampI = [&](Img &x) { if (!sgn) for (auto &v : x.v) v = std::max(0., std::min(255., v)); }; clampI(b);
  // a baseline that is larger
  bool larger = r.chance(35); Img big = a; std::vector<int> bstart = start, pad(D, 0); if (larger) { std::vector<int> bs = size; for (unsigned d = 0; d < D; ++d) { pad[d] = r.range(0, 3); bs[d] += pad[d] + r.range(0, 3); bstart[d] -= pad[d]; } big = random(r, bs, nc, g); clampI(big); forBox(whole(a), [&](const std::vector<int> &ix) { std::vector<int> j = ix; for (unsigned d = 0; d < D; ++d) j[d] += pad[d]; for (int q = 0; q < nc; ++q) big.at(big.offset(j))[q] = a.at(a.offset(ix))[q]; }); }
  auto pt = make<I>(b, start), pb = make<I>(big, bstart); if (r.chance(50)) place(r, pt.GetPointer()); if (r.chance(50)) place(r, pb.GetPointer());
  auto info = [](const I *p) { std::ostringstream o; o << p->GetLargestPossibleRegion() << p->GetBufferedRegion() << p->GetSpacing() << p->GetOrigin() << p->GetDirection(); str s = o.str(), t; for (size_t i = 0; i < s.size(); ++i) { if (s.compare(i, 2, "0x") == 0) while (i < s.size() && s[i] != ')') ++i; if (i < s.size()) t += s[i]; } return t; };
  str it = info(pt), ib = info(pb); std::ostringstream what; what << type << " test " << show(b) << " baseline " << show(a) << (larger ? " in a larger one" : ""); str hist;
  typename I::ConstPointer ct(pt.GetPointer()), cb(pb.GetPointer());
  int calls = r.range(1, 4);
  for (int q = 0; q < calls; ++q) {
    Tol t; if (r.chance(65)) t.i = r.chance(75) ? g.step * (double)r.below(g.levels + 1) : g.step * g.levels * r.unit(); if (r.chance(55)) t.r = r.chance(90) ? r.range(1, 3) : r.range(4, 9); if (D == 3 && t.r > 3) t.r = 3;
    if (nc == 1 && r.chance(15)) t.i = nextTo(r, a, b); bool part = larger || r.chance(60); Box box = whole(a); if (part) box = subBox(r, a); if (part && r.chance(20)) for (auto &x : box) { x.first += (int)r.below(x.second); x.second = 1; }
    if (part && r.chance(10)) box = whole(a);
    bool dflt = r.chance(20); if (dflt) t = Tol(); Ref ref = refDiff(a, b, box, t.i, (int)t.r, false); if (nc > 1 && ref.tie) { c.count("left_open"); continue; }
    if (!dflt && r.chance(50)) t.n = (unsigned)std::max(0L, ref.count + (r.chance(60) ? r.range(-1, 1) : -(long)r.below(ref.count + 1)));
    unsigned long want = ref.count < (long)t.n ? 0 : ref.count - t.n, got; std::ostringstream o; o << "tolerances " << t.i << " " << t.n << " " << t.r << (part ? " region " + show(box) : str()); hist += o.str() + "; "; G reg = region<I>(box, start);
    try {
      if (!part) { switch (dflt ? 0 : t.r ? 3 : t.n ? 2 : (int)r.range(1, 3)) { case 0: got = Q::CompareImage<I>(ct, cb); break; case 1: got = Q::CompareImage<I>(ct, cb, t.i); break; case 2: got = Q::CompareImage<I>(ct, cb, t.i, t.n); break; default: got = Q::CompareImage<I>(ct, cb, t.i, t.n, t.r); } }
      else got = dflt ? Q::CompareImage<I>(ct, cb, reg) : Q::CompareImage<I>(ct, cb, t.i, t.n, t.r, reg);
    } catch (const std::exception &e) { VIOL("exception", e.what() << ": " << hist << what.str()); return; }
    if (got != want) VIOL(part ? "region" : "whole", "returned " << got << ", expected " << want << ": " << hist << what.str());
    c.count(part ? "regions" : "whole_images"); if (ref.count) c.count("with_differences"); if (want && t.n) c.count("tolerance_subtracted"); c.count("pixels_compared", [&] { long n = 1; for (auto &x : box) n *= x.second; return n; }());
    Img a2 = back<I>(pb, whole(big), bstart, big.size), b2 = back<I>(pt, whole(b), start, size); bool same = true; for (size_t i = 0; i < big.v.size(); ++i) same &= big.v[i] == a2.v[i] || big.v[i] != big.v[i]; for (size_t i = 0; i < b.v.size(); ++i) same &= b.v[i] == b2.v[i] || b.v[i] != b.v[i];
    if (!same || it != info(pt) || ib != info(pb)) { VIOL("modified", "an image was modified: " << hist << what.str()); return; }
  }
  // sizes that differ
  if (r.chance(25)) { std::vector<int> s2 = size; int d = (int)r.below(D); s2[d] += r.chance(50) || s2[d] == 1 ? 1 : -1; if (D > 1 && r.chance(30)) { s2 = size; std::reverse(s2.begin(), s2.end()); } if (s2 != size) { Img o = random(r, s2, nc, g); clampI(o); auto po = make<I>(o, start); typename I::ConstPointer co(po.GetPointer()); unsigned n = r.chance(50) ? 0 : r.chance(50) ? UINT_MAX : (unsigned)r.below(100); unsigned long got = 0; try { got = Q::CompareImage<I>(ct, co, g.step * g.levels, n, r.below(2)); } catch (const std::exception &e) { VIOL("exception", e.what() << " for other sizes: " << what.str()); } if (got != std::numeric_limits<unsigned long>::max()) VIOL("sizes", "images of sizes " << show(b) << " and " << show(o) << " compare as " << got); c.count("other_sizes"); } }
  // as files
  if (r.chance(25) && !larger) {
    typedef itk::ImageFileWriter<I> W; auto put = [&](const I *p, const char *f) { typename W::Pointer w = W::New(); w->SetInput(p); w->SetFileName(f); w->Update(); };
    auto zt = make<I>(b, std::vector<int>(D, 0)), zb = make<I>(a, std::vector<int>(D, 0));
    put(zt, "t.mha"); put(zb, "b.mha"); Tol t; if (r.chance(60)) t.i = g.step * (double)r.below(g.levels + 1); if (r.chance(50)) t.r = r.range(1, 2); Ref ref = refDiff(a, b, whole(a), t.i, (int)t.r, false); if (r.chance(50)) t.n = (unsigned)std::max(0L, ref.count + r.range(-1, 1)); unsigned long want = ref.count < (long)t.n ? 0 : ref.count - t.n, got = 0;
    if (nc == 1 || !ref.tie) { bool lost = r.chance(15); str which = r.chance(50) ? "t.mha" : "b.mha"; if (lost) breakFile(r, which); bool really = lost && !readImage(which).ok, threw = false; try { got = Q::CompareImage<I>(fileutil::PathName("t.mha"), fileutil::PathName("b.mha"), t.i, t.n, t.r); } catch (const std::exception &e) { threw = true; if (!lost) VIOL("exception", e.what() << ": files: " << what.str()); }
      if (really && !threw && got == 0) VIOL("unreadable", "an unreadable file compares as equal: " << what.str()); if (!lost && !threw && got != want) VIOL("files", "files compare as " << got << ", expected " << want << ", tolerances " << t.i << " " << t.n << " " << t.r << ": " << what.str()); c.count(lost ? "damaged_files" : "files"); if (lost) rmtree(c.scratch + "/" + which); }
  }
  c.count(type); c.nontrivial(what.str() + hist); if (c.caseno < 3 * c.shards) c.sample(what.str() + " " + hist);
}
// many pixels, or a large radius
static void big(Rng &r, int kind) {
  Ctx &c = Ctx::get(); typedef itk::Image<unsigned char, 2> I; BigPair p = bigPair(r, kind); mhaFile("t.mha", p.w, p.h, p.test); mhaFile("b.mha", p.w, p.h, p.base); auto img = [&](const std::vector<unsigned char> &v) { I::Pointer q = I::New(); I::SizeType s; s[0] = p.w; s[1] = p.h; q->SetRegions(s); q->Allocate(); std::copy(v.begin(), v.end(), q->GetBufferPointer()); return q; };
  I::Pointer a = img(p.test), b = img(p.base); std::ostringstream hist;
  for (int i = 0; i < 4; ++i) { Tol t = bigTol(r, p); unsigned long n = p.count(t), want = n < t.n ? 0 : n - t.n, got; hist << "tolerances " << t.i << " " << t.n << " " << t.r << "; "; bool files = r.chance(30), part = !files && r.chance(40);
    got = files ? itk::Regression::CompareImage<I>(fileutil::PathName("t.mha"), fileutil::PathName("b.mha"), t.i, t.n, t.r) : part ? itk::Regression::CompareImage<I>(I::ConstPointer(a), I::ConstPointer(b), t.i, t.n, t.r, a->GetLargestPossibleRegion()) : itk::Regression::CompareImage<I>(I::ConstPointer(a), I::ConstPointer(b), t.i, t.n, t.r);
    if (got != want) VIOL(files ? "files" : part ? "region" : "whole", "returned " << got << ", expected " << want << ": " << hist.str() << p.show); }
  c.count("large_cases"); c.nontrivial(p.show + hist.str());
}
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); if (chdir(c.scratch.c_str())) return 3; quietItk();
  cases([&](Rng &r, long k) {
    if (k < 3 * c.shards) { big(r, k >= c.shards); return; }
    switch (r.below(9)) {
      case 0: one<itk::Image<unsigned char, 1> >(r, "uchar1", false, false); break; case 1: one<itk::Image<unsigned char, 2> >(r, "uchar2", false, false); break; case 2: one<itk::Image<short, 3> >(r, "short3", false, true); break;
      case 3: one<itk::Image<float, 2> >(r, "float2", true, true); break; case 4: one<itk::Image<double, 3> >(r, "double3", true, true); break; case 5: one<itk::Image<double, 1> >(r, "double1", true, true); break; case 6: one<itk::Image<unsigned short, 3> >(r, "ushort3", false, false); break;
      case 7: one<itk::Image<int, 2> >(r, "int2", false, true); break; default: one<itk::Image<itk::Vector<float, 2>, 2> >(r, "vector2", true, true);
    }
  });
  c.finish(); return 0;
}
