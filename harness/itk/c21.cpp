// C21: image comparison does not depend on how the work is divided
#include "itkimg.h"
#include "itktf/itktfDifferenceImageFilter.h"
#include "itkMultiThreaderBase.h"
#include "itkStreamingImageFilter.h"
#include "itkShiftScaleImageFilter.h"
#include <atomic>
#include <thread>
using namespace vf;
static std::atomic<long> g_calls(0), g_inflight(0), g_maxinflight(0); static std::mutex g_m; static std::set<std::thread::id> g_threads;
// workers start and end at random times
template <class I> class Slow : public itk::tf::DifferenceImageFilter<I, I> {
public:
  typedef Slow Self; typedef itk::tf::DifferenceImageFilter<I, I> Superclass; typedef itk::SmartPointer<Self> Pointer; itkFactorylessNewMacro(Self); int delay; uint64_t seed;
protected:
  Slow() : delay(0), seed(1) {}
  void ThreadedGenerateData(const typename I::RegionType &g, itk::ThreadIdType id) override {
    uint64_t s = seed * 31 + id; Rng q(s); ++g_calls; long n = ++g_inflight, m = g_maxinflight; while (n > m && !g_maxinflight.compare_exchange_weak(m, n)) {}
    { std::lock_guard<std::mutex> l(g_m); g_threads.insert(std::this_thread::get_id()); }
    if (delay) usleep(q.below(delay)); Superclass::ThreadedGenerateData(g, id); if (delay && q.chance(50)) usleep(q.below(delay)); --g_inflight;
  }
};
static void wait(Rng &) {}
typedef itk::MultiThreaderBase::ThreaderEnum TE;
static bool near(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)); }
template <class I> static void one(Rng &r, bool tsan) {
  Ctx &c = Ctx::get(); const unsigned D = I::ImageDimension; std::vector<int> size, start; int lim = D == 2 ? 24 : 9; for (unsigned d = 0; d < D; ++d) { size.push_back(r.range(1, lim)); start.push_back(r.chance(60) ? 0 : r.range(-9, 9)); }
  Gen g; g.levels = (int)r.pick(std::vector<int>{2, 3, 10}); g.step = 1; g.lo = 0; g.nan = r.chance(10); g.inf = false;
  Img a = random(r, size, 1, g), b = related(r, a, g); double thr = r.chance(50) ? 0 : r.range(1, 3); int rad = r.chance(45) ? 0 : r.range(1, 3); bool ign = r.chance(20);
  Ref ref = refDiff(a, b, whole(a), thr, rad, ign); auto pa = make<I>(a, start), pb = make<I>(b, start);
  std::ostringstream w; w << D << "D threshold " << thr << " radius " << rad << (ign ? " ignoring the boundary" : "") << " valid " << show(a) << " test " << show(b);
  typedef itk::ImageRegion<D> Reg; Reg full = region<I>(whole(a), start);
  // the output of one execution, as an image
  bool have = false; Img o0; str how0;
  auto compare = [&](const Img &o, const str &how) { if (!have) { o0 = o; have = true; how0 = how; return; } for (size_t i = 0; i < o.v.size(); ++i) if (!(o.v[i] == o0.v[i] || (std::isnan(o.v[i]) && std::isnan(o0.v[i])))) { VIOL("output", "pixel " << i << " is " << o.v[i] << " (" << how << ") and " << o0.v[i] << " (" << how0 << "): " << w.str()); return; } };
  auto stats = [&](long n, double tot, const Ref &e, const str &how) { if (n != e.count) VIOL("count", "counted " << n << ", expected " << e.count << " (" << how << "): " << w.str()); if (!near(tot, e.total)) VIOL("total", "total " << tot << ", expected " << e.total << " (" << how << "): " << w.str()); };
  int runs = tsan ? 3 : 6; bool lost = false;
  for (int i = 0; i < runs; ++i) {
    typename Slow<I>::Pointer f = Slow<I>::New(); f->seed = r.next(); f->delay = r.chance(tsan ? 70 : 25) ? 300 : 0; std::ostringstream how; int wu = r.range(1, 16); 
    bool pool = !tsan && r.chance(50); itk::MultiThreaderBase::SetGlobalDefaultThreader(pool ? TE::Pool : TE::Platform); { auto mt = itk::MultiThreaderBase::New(); f->SetMultiThreader(mt); }
    f->SetNumberOfWorkUnits(wu); f->SetMagnitudeThreshold(thr); f->SetToleranceRadius(rad); f->SetIgnoreBoundaryPixels(ign); how << wu << " work units, " << (pool ? "pool" : "platform");
    // from a pipeline that makes only what is requested, or not
    typedef itk::ShiftScaleImageFilter<I, I> Src; typename Src::Pointer sa, sb; bool pipe = r.chance(35); if (pipe) { how << ", pipeline"; sa = Src::New(); sa->SetInput(pa); sa->SetNumberOfWorkUnits(1); sb = Src::New(); sb->SetInput(pb); sb->SetNumberOfWorkUnits(1); f->SetValidInput(sa->GetOutput()); f->SetTestInput(sb->GetOutput()); } else { f->SetValidInput(pa); f->SetTestInput(pb); }
    int mode = (int)r.below(5); std::vector<int> pieces;
    try {
      if (mode == 0) { how << ", whole"; f->Update(); stats(f->GetNumberOfPixelsWithDifferences(), f->GetTotalMagnitude(), ref, how.str()); compare(back<I>(f->GetOutput(), whole(a), start, size), how.str()); }
      else if (mode == 1) { // pieces, each requested on its own
        int d = (int)r.below(D), n = r.range(1, size[d]); how << ", " << n << " pieces along " << d; f->UpdateOutputInformation(); long cnt = 0; double tot = 0; Img o(size, 1); int at = 0; std::vector<int> order; for (int q = 0; q < n; ++q) order.push_back(q); for (int q = n - 1; q > 0; --q) std::swap(order[q], order[r.below(q + 1)]);
        for (int q : order) { Box bx = whole(a); int lo = (long)size[d] * q / n, hi = (long)size[d] * (q + 1) / n; bx[d] = std::make_pair(lo, hi - lo); if (hi == lo) continue; f->GetOutput()->SetRequestedRegion(region<I>(bx, start)); f->Modified(); f->Update(); cnt += f->GetNumberOfPixelsWithDifferences(); tot += f->GetTotalMagnitude(); Img p = back<I>(f->GetOutput(), bx, start, size); forBox(bx, [&](const std::vector<int> &ix) { o.at(o.offset(ix))[0] = p.at(p.offset(ix))[0]; }); Ref pr = refDiff(a, b, bx, thr, rad, ign); stats(f->GetNumberOfPixelsWithDifferences(), f->GetTotalMagnitude(), pr, how.str() + " piece " + std::to_string(q)); (void)at; }
        stats(cnt, tot, ref, how.str()); compare(o, how.str()); c.count("pieces", n);
      } else if (mode == 2) { int n = r.range(1, 9); how << ", streamed in " << n; auto s = itk::StreamingImageFilter<I, I>::New(); s->SetInput(f->GetOutput()); s->SetNumberOfStreamDivisions(n); s->Update(); compare(back<I>(s->GetOutput(), whole(a), start, size), how.str()); c.count("streamed"); }
      else if (mode == 3) { // again, with other settings in between
        how << ", again"; f->Update(); f->Update(); stats(f->GetNumberOfPixelsWithDifferences(), f->GetTotalMagnitude(), ref, how.str()); double t2 = thr + r.range(0, 2); int r2 = r.range(0, 3); bool i2 = r.chance(30); f->SetMagnitudeThreshold(t2); f->SetToleranceRadius(r2); f->SetIgnoreBoundaryPixels(i2); f->SetNumberOfWorkUnits(r.range(1, 16)); f->Update(); Ref e = refDiff(a, b, whole(a), t2, r2, i2); how << ", then threshold " << t2 << " radius " << r2 << (i2 ? " ignoring" : ""); stats(f->GetNumberOfPixelsWithDifferences(), f->GetTotalMagnitude(), e, how.str()); f->SetMagnitudeThreshold(thr); f->SetToleranceRadius(rad); f->SetIgnoreBoundaryPixels(ign); f->SetNumberOfWorkUnits(r.range(1, 16)); f->Update(); how << ", and back"; stats(f->GetNumberOfPixelsWithDifferences(), f->GetTotalMagnitude(), ref, how.str()); compare(back<I>(f->GetOutput(), whole(a), start, size), how.str()); c.count("again"); }
      else { // other inputs in between
        how << ", other inputs"; f->Update(); Img a2 = related(r, a, g), b2 = related(r, b, g); auto qa = make<I>(a2, start), qb = make<I>(b2, start); f->SetValidInput(qa); f->SetTestInput(qb); f->Update(); stats(f->GetNumberOfPixelsWithDifferences(), f->GetTotalMagnitude(), refDiff(a2, b2, whole(a), thr, rad, ign), how.str()); f->SetValidInput(qb); f->Update(); stats(f->GetNumberOfPixelsWithDifferences(), f->GetTotalMagnitude(), refDiff(b2, b2, whole(a), thr, rad, ign), how.str() + " with itself"); f->SetValidInput(pa); f->SetTestInput(pb); f->Update(); stats(f->GetNumberOfPixelsWithDifferences(), f->GetTotalMagnitude(), ref, how.str() + " and back"); compare(back<I>(f->GetOutput(), whole(a), start, size), how.str()); c.count("other_inputs"); }
    } catch (const std::exception &e) { VIOL("exception", e.what() << " (" << how.str() << "): " << w.str()); }
    if (pipe) c.count("pipelines"); c.count("executions"); if (lost) break;
  }
  wait(r); c.nontrivial(w.str()); if (c.caseno < 3 * c.shards) c.sample(w.str());
}
// many pixels, by few and many workers
template <class I> static void large(Rng &r, long pixels) {
  Ctx &c = Ctx::get(); typename I::SizeType size; size.Fill(1); size[0] = r.chance(30) ? 1 : r.range(2, 700); size[1] = (pixels + size[0] - 1) / size[0]; typename I::Pointer a = I::New(), b = I::New(); a->SetRegions(size); a->Allocate(); b->SetRegions(size); b->Allocate(); long n = a->GetLargestPossibleRegion().GetNumberOfPixels();
  for (long i = 0; i < n; ++i) { a->GetBufferPointer()[i] = i % 7; b->GetBufferPointer()[i] = i % 7 + 1 + i % 3; } double total = 0; for (long i = 0; i < n; ++i) total += 1 + i % 3;
  typedef itk::tf::DifferenceImageFilter<I, I> F; typename F::Pointer f = F::New(); f->SetValidInput(a); f->SetTestInput(b); std::ostringstream w; w << "large image " << size;
  for (int wu : {1, 2, 7, 16}) { f->SetNumberOfWorkUnits(wu); f->Modified(); f->Update(); if ((long)f->GetNumberOfPixelsWithDifferences() != n) VIOL("count", "counted " << f->GetNumberOfPixelsWithDifferences() << ", expected " << n << " (" << wu << " work units): " << w.str()); if (!near(f->GetTotalMagnitude(), total)) VIOL("total", "total " << f->GetTotalMagnitude() << ", expected " << total << " (" << wu << " work units): " << w.str()); for (long i = 0; i < n; ++i) if (f->GetOutput()->GetBufferPointer()[i] != -1 - i % 3) { VIOL("output", "pixel " << i << " is " << f->GetOutput()->GetBufferPointer()[i] << " (" << wu << " work units): " << w.str()); break; } c.count("executions"); }
  c.count("large_images"); c.nontrivial(w.str());
}
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); if (chdir(c.scratch.c_str())) return 3;
#if defined(__SANITIZE_THREAD__)
  bool tsan = true;
#else
  bool tsan = false;
#endif
  itk::MultiThreaderBase::SetGlobalDefaultThreader(TE::Platform); itk::MultiThreaderBase::SetGlobalMaximumNumberOfThreads(16); itk::MultiThreaderBase::SetGlobalDefaultNumberOfThreads(8);
  cases([&](Rng &r, long k) { if (k < c.shards) { if (tsan) large<itk::Image<float, 2> >(r, 66000); else large<itk::Image<float, 2> >(r, r.range(70000, 300000)); } else if (r.chance(50)) one<itk::Image<double, 3> >(r, tsan); else one<itk::Image<float, 2> >(r, tsan); });
  c.count("worker_calls", g_calls); c.count("distinct_threads", (long)g_threads.size()); c.count("max_workers_at_once", g_maxinflight);
  c.finish(); return 0;
}
