// C20: the image difference counts exactly the pixels outside the tolerances
#include "itkimg.h"
#include "itktf/itktfDifferenceImageFilter.h"
#include "itkMultiThreaderBase.h"
using namespace vf;
template <class TI, class TO> static void one(Rng &r, const char *type, bool fp, bool sgn, bool inf) {
  Ctx &c = Ctx::get(); const unsigned D = TI::ImageDimension; const int nc = Px<typename TI::PixelType>::nc;
  std::vector<int> size, start; int lim = D == 1 ? 40 : D == 2 ? 12 : 7; for (unsigned d = 0; d < D; ++d) { size.push_back(r.chance(10) ? r.range(1, 2) : r.range(1, lim)); start.push_back(r.chance(60) ? 0 : r.range(-9, 9)); }
  Gen g; g.levels = (int)r.pick(std::vector<int>{2, 3, 5, 20, 100}); g.step = fp ? r.pick(std::vector<double>{1, .125, 1000, 1.0 / 1048576}) : 1; g.lo = sgn && r.chance(60) ? -(double)(g.levels / 2) * g.step : 0; g.nan = fp && r.chance(20); g.inf = fp && inf && r.chance(15);
  Img a = random(r, size, nc, g), b = related(r, a, g); if (!sgn) for (auto &x : b.v) x = std::max(0., std::min(255., x));
  double thr = r.chance(40) ? 0 : r.chance(80) ? g.step * (double)r.below(g.levels + 1) : g.step * g.levels * r.unit(); if (nc == 1 && r.chance(15)) thr = nextTo(r, a, b); int rad = r.chance(40) ? 0 : r.chance(90) ? r.range(1, 3) : r.range(4, 12); if (D == 3 && rad > 4) rad = 4; bool ign = r.chance(30); Box box = whole(a); bool part = r.chance(35); if (part) box = subBox(r, a);
  Ref ref = refDiff(a, b, box, thr, rad, ign); if (nc > 1 && ref.tie) { c.count("left_open"); return; }
  std::ostringstream what; what << type << " threshold " << thr << " radius " << rad << (ign ? " ignoring the boundary" : "") << (part ? " region " + show(box) : str()) << " valid " << show(a) << " test " << show(b);
  auto pa = make<TI>(a, start), pb = make<TI>(b, start); if (r.chance(50)) { place(r, pa.GetPointer()); place(r, pb.GetPointer()); }
  typedef itk::tf::DifferenceImageFilter<TI, TO> F; typename F::Pointer f = F::New(); f->SetNumberOfWorkUnits(r.range(1, 8));
  f->SetValidInput(pa); f->SetTestInput(pb); if (thr || r.chance(50)) f->SetMagnitudeThreshold(thr); if (rad || r.chance(50)) f->SetToleranceRadius(rad); if (ign || r.chance(50)) f->SetIgnoreBoundaryPixels(ign);
  try { if (part) { f->UpdateOutputInformation(); f->GetOutput()->SetRequestedRegion(region<TO>(box, start)); f->Update(); } else if (r.chance(50)) f->Update(); else f->UpdateLargestPossibleRegion(); }
  catch (const std::exception &e) { VIOL("exception", e.what() << ": " << what.str()); return; }
  if ((long)f->GetNumberOfPixelsWithDifferences() != ref.count) VIOL("count", "counted " << f->GetNumberOfPixelsWithDifferences() << ", expected " << ref.count << ": " << what.str());
  auto same = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)) || std::fabs(x - y) <= 1e-9 * std::max(std::fabs(x), std::fabs(y)); };
  long n = 1; for (auto &p : box) n *= p.second;
  if (!same(f->GetTotalMagnitude(), ref.total)) VIOL("total", "total magnitude " << f->GetTotalMagnitude() << ", expected " << ref.total << ": " << what.str());
  if (!same(f->GetMeanMagnitude(), ref.total / n)) VIOL("mean", "mean magnitude " << f->GetMeanMagnitude() << ", expected " << ref.total / n << ": " << what.str());
  if (!f->GetOutput()->GetBufferedRegion().IsInside(region<TO>(box, start))) { VIOL("buffer", "the output does not hold the region: " << what.str()); return; }
  Img o = back<TO>(f->GetOutput(), box, start, size); bool bad = false;
  forBox(box, [&](const std::vector<int> &ix) {
    long p = a.offset(ix); if (bad) return; bool ok = true; auto m = ref.mag.find(p);
    if (m == ref.mag.end()) { for (int q = 0; q < nc; ++q) ok &= o.at(p)[q] == 0; }
    else { // the difference to one of the most similar pixels
      ok = false; Box nb; for (unsigned d = 0; d < D; ++d) { int lo = std::max(0, ix[d] - rad), hi = std::min(size[d] - 1, ix[d] + rad); nb.push_back(std::make_pair(lo, hi - lo + 1)); }
      forBox(nb, [&](const std::vector<int> &jx) { const double *t = b.at(b.offset(jx)), *v = a.at(p); if (!same(magnitude(v, t, nc), m->second)) return; bool e = true; for (int q = 0; q < nc; ++q) e &= same(o.at(p)[q], v[q] - t[q]); ok |= e; });
    }
    if (!ok) { bad = true; VIOL("output", "output " << o.at(p)[0] << " at pixel " << p << ", " << (m == ref.mag.end() ? str("which does not differ") : "of magnitude " + std::to_string(m->second)) << ": " << what.str()); }
  });
  // the inputs are as they were
  Img a2 = back<TI>(pa, whole(a), start, size), b2 = back<TI>(pb, whole(b), start, size); for (size_t i = 0; i < a.v.size(); ++i) if (!same(a.v[i], a2.v[i]) || !same(b.v[i], b2.v[i])) { VIOL("inputs", "an input was changed: " << what.str()); break; }
  c.count("pixels", n); c.count("pixels_that_differ", ref.count); c.count(type); if (ref.count && rad) c.count("cases_with_radius_and_differences"); c.nontrivial(what.str()); if (c.caseno < 3 * c.shards) c.sample(what.str());
}
// many pixels: more than a narrow counter or an inexact sum can hold
template <class I> static void large(Rng &r, long pixels) {
  Ctx &c = Ctx::get(); typename I::SizeType size; size.Fill(1); if (I::ImageDimension > 1 && r.chance(70)) { size[0] = r.range(200, 5000); size[1] = (pixels + size[0] - 1) / size[0]; } else size[r.below(I::ImageDimension)] = pixels;
  typename I::Pointer a = I::New(), b = I::New(); a->SetRegions(size); a->Allocate(); b->SetRegions(size); b->Allocate(); long n = a->GetLargestPossibleRegion().GetNumberOfPixels(); int every = r.chance(50) ? 1 : r.range(2, 5); long expect = 0; double total = 0, thr = r.chance(50) ? 0 : 1.5;
  for (long i = 0; i < n; ++i) { double x = i % 7, y = i % every ? x : x + 1 + i % 3; a->GetBufferPointer()[i] = x; b->GetBufferPointer()[i] = y; if (y - x > thr) { ++expect; total += y - x; } }
  typedef itk::tf::DifferenceImageFilter<I, I> F; typename F::Pointer f = F::New(); int wu = r.chance(60) ? 1 : r.range(2, 8); f->SetNumberOfWorkUnits(wu); f->SetMagnitudeThreshold(thr); f->SetValidInput(a); f->SetTestInput(b);
  std::ostringstream what; what << "large image " << size << " pixel i is i%7, and in the test image " << (every > 1 ? "at each multiple of " + std::to_string(every) + " " : str()) << "1+i%3 more; threshold " << thr << ", " << wu << " work units";
  try { f->Update(); } catch (const std::exception &e) { VIOL("exception", e.what() << ": " << what.str()); return; }
  if ((long)f->GetNumberOfPixelsWithDifferences() != expect) VIOL("count", "counted " << f->GetNumberOfPixelsWithDifferences() << ", expected " << expect << ": " << what.str());
  if (std::fabs(f->GetTotalMagnitude() - total) > 1e-9 * total) VIOL("total", "total magnitude " << f->GetTotalMagnitude() << ", expected " << total << ": " << what.str());
  if (std::fabs(f->GetMeanMagnitude() - total / n) > 1e-9 * total / n) VIOL("mean", "mean magnitude " << f->GetMeanMagnitude() << ", expected " << total / n << ": " << what.str());
  for (long i = 0; i < n; ++i) { double x = a->GetBufferPointer()[i], y = b->GetBufferPointer()[i], e = y - x > thr ? x - y : 0; if (f->GetOutput()->GetBufferPointer()[i] != e) { VIOL("output", "output " << f->GetOutput()->GetBufferPointer()[i] << " at pixel " << i << ", expected " << e << ": " << what.str()); break; } }
  c.count("large_images"); c.count("pixels", n); c.count("pixels_that_differ", expect); c.nontrivial(what.str()); if (c.caseno < 3 * c.shards) c.sample(what.str());
}
