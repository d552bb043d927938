// Brute-force reference for image differences.
#ifndef IMREF_H
#define IMREF_H
#include "common.h"
namespace vf {
// an image of any number of dimensions (up to 4) and components
struct Img {
  std::vector<int> size; int nc; std::vector<double> v;
  Img() : nc(1) {}
  Img(const std::vector<int> &s, int c) : size(s), nc(c) { long n = c; for (int x : s) n *= x; v.assign(n, 0); }
  long pixels() const { long n = 1; for (int x : size) n *= x; return n; }
  const double *at(long i) const { return &v[i * nc]; }
  double *at(long i) { return &v[i * nc]; }
  long offset(const std::vector<int> &ix) const { long o = 0, m = 1; for (size_t d = 0; d < size.size(); ++d) { o += ix[d] * m; m *= size[d]; } return o; }
};
typedef std::vector<std::pair<int, int> > Box; // start and size, relative to the image
inline Box whole(const Img &a) { Box b; for (int s : a.size) b.push_back(std::make_pair(0, s)); return b; }
template <class F> inline void forBox(const Box &b, F f) {
  std::vector<int> ix; for (auto &p : b) { if (p.second <= 0) return; ix.push_back(p.first); }
  for (;;) { f(ix); size_t d = 0; for (; d < ix.size(); ++d) { if (++ix[d] < b[d].first + b[d].second) break; ix[d] = b[d].first; } if (d == ix.size()) return; }
}
// magnitude of the difference; not a number differs from every number and from nothing else
inline double magnitude(const double *a, const double *b, int nc) {
  bool na = false, nb = false; double s = 0, m = 0; for (int i = 0; i < nc; ++i) { na |= std::isnan(a[i]); nb |= std::isnan(b[i]); double d = a[i] == b[i] ? 0 : a[i] - b[i]; s += d * d; m = std::fabs(d); }
  if (na || nb) return na == nb ? 0 : HUGE_VAL; return nc == 1 ? m : std::sqrt(s);
}
struct Ref { long count; double total; std::map<long, double> mag; bool tie; };
// the pixels of the box of "valid" that have no similar pixel in "test"
inline Ref refDiff(const Img &valid, const Img &test, const Box &box, double thr, int radius, bool ignore) {
  Ref r; r.count = 0; r.total = 0; r.tie = false; size_t D = valid.size.size();
  forBox(box, [&](const std::vector<int> &ix) {
    if (ignore) for (size_t d = 0; d < D; ++d) if (ix[d] < radius || ix[d] >= test.size[d] - radius) return;
    long o = valid.offset(ix); double best = HUGE_VAL; bool any = false; Box nb; for (size_t d = 0; d < D; ++d) { int lo = std::max(0, ix[d] - radius), hi = std::min(test.size[d] - 1, ix[d] + radius); nb.push_back(std::make_pair(lo, hi - lo + 1)); }
    forBox(nb, [&](const std::vector<int> &jx) { double m = magnitude(valid.at(o), test.at(test.offset(jx)), valid.nc); if (!any || m < best) best = m; any = true; if (m != thr && std::fabs(m - thr) < 1e-12 * (std::fabs(m) + std::fabs(thr))) r.tie = true; });
    if (best > thr) { ++r.count; r.total += best; r.mag[o] = best; }
  });
  return r;
}
inline str show(const Img &a) { std::ostringstream o; for (size_t i = 0; i < a.size.size(); ++i) o << (i ? "x" : "") << a.size[i]; o << (a.nc > 1 ? "*" + std::to_string(a.nc) : "") << "["; for (size_t i = 0; i < a.v.size() && i < 40; ++i) o << (i ? "," : "") << a.v[i]; if (a.v.size() > 40) o << "..."; o << "]"; return o.str(); }
inline str show(const Box &b) { std::ostringstream o; for (auto &p : b) o << p.first << "+" << p.second << " "; return o.str(); }
// values on a grid, so that differences and sums are exact; few of them, so that neighbours match
struct Gen { int levels; double step; bool nan, inf; double lo; };
inline double value(Rng &r, const Gen &g) { if (g.nan && r.chance(4)) return NAN; if (g.inf && r.chance(3)) return r.chance(50) ? HUGE_VAL : -HUGE_VAL; return g.lo + g.step * (double)r.below(g.levels); }
inline Img random(Rng &r, const std::vector<int> &s, int nc, const Gen &g) { Img a(s, nc); for (auto &x : a.v) x = value(r, g); return a; }
// a test image that is related to the valid one
inline Img related(Rng &r, const Img &a, const Gen &g) {
  Img b = a; int D = (int)a.size.size();
  if (r.chance(35)) { std::vector<int> sh; for (int d = 0; d < D; ++d) sh.push_back(r.range(-2, 2)); forBox(whole(a), [&](const std::vector<int> &ix) { std::vector<int> j = ix; for (int d = 0; d < D; ++d) j[d] = std::min(a.size[d] - 1, std::max(0, ix[d] + sh[d])); long o = a.offset(ix), p = a.offset(j); for (int c = 0; c < a.nc; ++c) b.at(o)[c] = a.at(p)[c]; }); }
  int rate = (int)r.pick(std::vector<int>{0, 0, 1, 5, 30, 100}); for (auto &x : b.v) if (r.chance(rate)) x = value(r, g);
  if (r.chance(30)) { long p = r.below(b.pixels()); int c = (int)r.below(b.nc); b.at(p)[c] = value(r, g); }
  if (r.chance(15)) forBox(whole(a), [&](const std::vector<int> &ix) { for (int d = 0; d < D; ++d) if (ix[d] == 0 || ix[d] == a.size[d] - 1) { for (int c = 0; c < a.nc; ++c) b.at(b.offset(ix))[c] = value(r, g); return; } });
  if (r.chance(10)) { double d = g.step * r.range(-2, 2); for (auto &x : b.v) x += d; }
  return b;
}
inline Box subBox(Rng &r, const Img &a) { Box b; for (int s : a.size) { int n = r.range(1, s); b.push_back(std::make_pair((int)r.below(s - n + 1), n)); } return b; }
// the difference of two pixels, or a number right next to it
inline double nextTo(Rng &r, const Img &a, const Img &b) {
  long o = 0; double m = 0; for (int i = 0; i < 6 && m == 0; ++i) { o = r.below(a.pixels()); m = magnitude(a.at(o), b.at(r.chance(70) ? o : (long)r.below(b.pixels())), a.nc); }
  if (!std::isfinite(m) || m == 0) return 0; switch (r.below(6)) { case 0: case 1: return m; case 2: return std::nextafter(m, 0); case 3: return std::nextafter(m, HUGE_VAL); case 4: return m * (1 - 1e-9); default: return m * (1 + 1e-9); }
}
}
#endif
