// Image files of many kinds, and what an independent reader makes of them.
#ifndef IMFILE_H
#define IMFILE_H
#include "itkx.h"
#include "itkimg.h"
#include "itkImageFileReader.h"
#include "itkImageFileWriter.h"
#include "itkRGBPixel.h"
#include "itkMultiThreaderBase.h"
#include "itkObjectFactoryBase.h"
#include <array>
namespace vf {
template <class T> struct Px<itk::RGBPixel<T> > { static const int nc = 3; static void put(itk::RGBPixel<T> &p, const double *v) { for (int i = 0; i < 3; ++i) p[i] = (T)v[i]; } static void get(const itk::RGBPixel<T> &p, double *v) { for (int i = 0; i < 3; ++i) v[i] = p[i]; } };
enum Kind_ { UCHAR, SHORT, USHORT, INT_, FLOAT_, DOUBLE_, RGB8, RGB16, VECF, NPIX };
struct Shot { Img img; int pix; std::vector<double> spacing, origin; bool turned, zip; Shot() : pix(UCHAR), turned(false), zip(false) {} };
inline int ncOf(int pix) { return pix == RGB8 || pix == RGB16 ? 3 : pix == VECF ? 2 : 1; }
inline bool fpOf(int pix) { return pix == FLOAT_ || pix == DOUBLE_ || pix == VECF; }
inline bool signedOf(int pix) { return pix == SHORT || pix == INT_ || fpOf(pix); }
template <class I> inline bool put(const Shot &s, const str &path) {
  const unsigned D = I::ImageDimension; typename I::Pointer p = make<I>(s.img, std::vector<int>(D, 0)); typename I::SpacingType sp; typename I::PointType o;
  for (unsigned d = 0; d < D; ++d) { sp[d] = s.spacing[d]; o[d] = s.origin[d]; } p->SetSpacing(sp); p->SetOrigin(o);
  if (s.turned && D > 1) { typename I::DirectionType m; m.SetIdentity(); m[0][0] = 0; m[1][1] = 0; m[0][1] = -1; m[1][0] = 1; p->SetDirection(m); }
  typedef itk::ImageFileWriter<I> W; typename W::Pointer w = W::New(); w->SetInput(p); w->SetFileName(path); w->SetUseCompression(s.zip);
  try { w->Update(); } catch (const std::exception &) { return false; } return true;
}
template <unsigned D> inline bool putD(const Shot &s, const str &path) {
  switch (s.pix) {
    case UCHAR: return put<itk::Image<unsigned char, D> >(s, path); case SHORT: return put<itk::Image<short, D> >(s, path); case USHORT: return put<itk::Image<unsigned short, D> >(s, path);
    case INT_: return put<itk::Image<int, D> >(s, path); case FLOAT_: return put<itk::Image<float, D> >(s, path); case DOUBLE_: return put<itk::Image<double, D> >(s, path);
    case RGB8: return put<itk::Image<itk::RGBPixel<unsigned char>, D> >(s, path); case RGB16: return put<itk::Image<itk::RGBPixel<unsigned short>, D> >(s, path); default: return put<itk::Image<itk::Vector<float, 2>, D> >(s, path);
  }
}
inline bool writeImage(const Shot &s, const str &path) { switch (s.img.size.size()) { case 1: return putD<1>(s, path); case 2: return putD<2>(s, path); default: return putD<3>(s, path); } }
struct Seen { bool ok; Img img; std::array<double, 3> spacing, origin; int pixel, component; str pixelName, componentName; unsigned nc; str error; };
inline Seen readImage(const str &path) {
  Seen s; s.ok = false; typedef itk::Image<double, 3> I; typedef itk::ImageFileReader<I> R; R::Pointer r = R::New(); r->SetFileName(path);
  try { r->UpdateLargestPossibleRegion(); } catch (const std::exception &e) { s.error = e.what(); return s; }
  I *p = r->GetOutput(); I::RegionType g = p->GetLargestPossibleRegion(); std::vector<int> size, start; for (int d = 0; d < 3; ++d) { size.push_back(g.GetSize()[d]); start.push_back(g.GetIndex()[d]); s.spacing[d] = p->GetSpacing()[d]; s.origin[d] = p->GetOrigin()[d]; }
  Img w(size, 1); s.img = back<I>(p, whole(w), start, size); s.pixel = (int)r->GetImageIO()->GetPixelType(); s.component = (int)r->GetImageIO()->GetComponentType(); s.nc = r->GetImageIO()->GetNumberOfComponents();
  s.pixelName = itk::ImageIOBase::GetPixelTypeAsString(r->GetImageIO()->GetPixelType()); s.componentName = itk::ImageIOBase::GetComponentTypeAsString(r->GetImageIO()->GetComponentType());
  s.ok = true; return s;
}
inline bool sameGeometry(const Seen &a, const Seen &b) { return a.img.size == b.img.size && a.spacing == b.spacing && a.origin == b.origin; }
inline Gen gen(Rng &r, int pix) { Gen g; g.levels = (int)r.pick(std::vector<int>{2, 3, 8, 40, 200}); g.step = fpOf(pix) ? r.pick(std::vector<double>{1, .25, 100}) : 1; if (pix == DOUBLE_ && r.chance(35)) g.step = r.chance(50) ? .1 : .7; g.lo = signedOf(pix) && r.chance(50) ? -(double)(g.levels / 2) * g.step : 0; g.nan = fpOf(pix) && r.chance(12); g.inf = false; return g; }
inline void clampTo(Shot &s) { if (!signedOf(s.pix)) for (auto &x : s.img.v) x = std::max(0., std::min(255., x)); }
// now and then a number of pixels that is a multiple of 256, or of 65536
inline bool roundSize(Rng &r, int D, std::vector<int> &size, int rate = 30) { if (r.below(1000) >= (uint64_t)rate) return false; static const std::vector<std::vector<int> > t = {{256}, {512}, {16, 16}, {32, 8}, {16, 32}, {256, 1}, {8, 8, 4}, {16, 16, 1}, {16, 8, 4}}; size = r.pick(t); if ((int)size.size() != D) { size.assign(D, 1); size[r.below(D)] = 256; } if (D == 2 && r.chance(6)) size = {256, 256}; return true; }
inline Shot shot(Rng &r, Gen &g, int dims = 0) {
  Shot s; int D = dims ? dims : r.chance(15) ? 1 : r.chance(55) ? 2 : 3; std::vector<int> size; int lim = D == 1 ? 30 : D == 2 ? 10 : 6; for (int d = 0; d < D; ++d) size.push_back(r.chance(12) ? 1 : r.range(1, lim));
  if (!dims) roundSize(r, D, size);
  s.pix = r.chance(60) ? (int)r.below(RGB8) : (int)r.below(NPIX); g = gen(r, s.pix); s.img = random(r, size, ncOf(s.pix), g); clampTo(s);
  bool unit = r.chance(50); for (int d = 0; d < D; ++d) { s.spacing.push_back(unit ? 1 : .1 * r.range(1, 30)); s.origin.push_back(unit ? 0 : .1 * r.range(-99, 99)); } s.turned = r.chance(10); s.zip = r.chance(30); return s;
}
// what the test made of it: related pixels, and now and then other properties
inline Shot variant(Rng &r, const Shot &a, const Gen &g) {
  Shot b = a; b.zip = r.chance(30); if (r.chance(75)) { b.img = related(r, a.img, g); clampTo(b); }
  if (a.img.pixels() % 256 == 0 && r.chance(70)) { b.img = a.img; for (auto &x : b.img.v) x += g.step; clampTo(b); return b; }
  if (r.chance(10)) { int d = (int)r.below(a.img.size.size()); std::vector<int> size = a.img.size; size[d] = std::max(1, size[d] + (r.chance(50) ? 1 : -1)); if (r.chance(30)) std::reverse(size.begin(), size.end()); b.img = random(r, size, a.img.nc, g); clampTo(b); }
  if (r.chance(8)) { double &x = b.spacing[r.below(b.spacing.size())]; x = r.chance(50) ? x * 2 : x + 1e-3; }
  if (r.chance(8)) { double &x = b.origin[r.below(b.origin.size())]; x = r.chance(50) ? x + 1 : x - 1e-3; }
  if (r.chance(10)) b.turned = !b.turned;
  if (r.chance(15)) { int old = b.pix; b.pix = (int)r.below(NPIX); if (ncOf(old) != ncOf(b.pix)) b.img = random(r, b.img.size, ncOf(b.pix), g); for (auto &x : b.img.v) if (!(x == x)) x = 1; clampTo(b); }
  return b;
}
inline str extension(Rng &r, const Shot &s) { static const std::vector<str> any = {"mha", "mha", "mha", "mhd", "nrrd", "nhdr", "nii", "nii.gz", "vtk", "tif"}; if (s.img.size.size() == 2 && (s.pix == UCHAR || s.pix == USHORT || s.pix == RGB8 || s.pix == RGB16) && r.chance(35)) return r.pick(std::vector<str>{"png", "png", "bmp", "tif"}); return r.pick(any); }
inline str show(const Shot &s) { static const char *n[] = {"uchar", "short", "ushort", "int", "float", "double", "rgb8", "rgb16", "vecf"}; std::ostringstream o; o << n[s.pix] << " " << show(s.img); if (s.turned) o << " turned"; for (size_t i = 0; i < s.spacing.size(); ++i) o << (i ? "," : " @") << s.spacing[i] << "/" << s.origin[i]; return o.str(); }
// writes it in a format that can hold it; returns the file name without the directory
inline str writeAny(Rng &r, const Shot &s, const str &dir, const str &stem) { for (int i = 0; i < 4; ++i) { str f = stem + "." + extension(r, s); if (writeImage(s, dir + "/" + f)) return f; unlink((dir + "/" + f).c_str()); } str f = stem + ".mha"; return writeImage(s, dir + "/" + f) ? f : str(); }
// makes a file that is no image
inline str breakFile(Rng &r, const str &path) {
  str b = readfile(path);
  switch (r.below(7)) {
    case 0: unlink(path.c_str()); return "missing";
    case 1: unlink(path.c_str()); writefile(path, ""); return "empty";
    case 2: { unlink(path.c_str()); writefile(path, b.substr(0, r.below(b.size() + 1))); return "truncated"; }
    case 3: { unlink(path.c_str()); writefile(path, "this is not an image\n"); return "text"; }
    case 4: unlink(path.c_str()); mkdir(path.c_str(), 0755); return "directory";
    case 5: { for (int i = 0; i < 8 && i < (int)b.size(); ++i) b[i] = (char)r.below(256); unlink(path.c_str()); writefile(path, b); return "bad magic"; }
    default: unlink(path.c_str()); if (symlink("nowhere", path.c_str())) {} return "dangling link";
  }
}
// the reports of images go here
inline const char *reportDir() { return itk::ITK_REGRESSION_OUTPUT; }
inline void quietItk() { itk::Object::SetGlobalWarningDisplay(false); itk::MultiThreaderBase::SetGlobalDefaultNumberOfThreads(2); mkdir(reportDir(), 0777); mkdir(itk::ITK_REGRESSION_DATA_BASELINE, 0777); }
struct Tol { double i; unsigned n, r; Tol() : i(0), n(0), r(0) {} Tol(double a, unsigned b, unsigned c) : i(a), n(b), r(c) {} };
// 1 the images match, 0 they do not, -1 left open
inline int expectMatch(const Seen &test, const Seen &base, const Tol &t, Ref *ref = 0) {
  if (!test.ok || !base.ok || !sameGeometry(test, base)) return 0;
  Ref q = refDiff(base.img, test.img, whole(base.img), t.i, (int)t.r, false); if (ref) *ref = q; return q.count <= (long)t.n ? 1 : 0;
}
inline Tol anyTol(Rng &r, const Gen &g, const Seen &test, const Seen &base) {
  Tol t; if (r.chance(70)) t.i = r.chance(70) ? g.step * (double)r.below(g.levels + 1) : g.step * g.levels * r.unit(); if (r.chance(25) && test.ok && base.ok && sameGeometry(test, base)) t.i = nextTo(r, test.img, base.img); if (r.chance(60)) t.r = r.chance(3) ? r.range(4, 9) : r.range(1, 3);
  if (r.chance(65) && test.ok && base.ok && sameGeometry(test, base)) { Ref q = refDiff(base.img, test.img, whole(base.img), t.i, (int)t.r, false); t.n = (unsigned)std::max(0L, q.count + r.range(-1, 1)); } else if (r.chance(40)) t.n = r.chance(10) ? UINT_MAX : (unsigned)r.below(50);
  return t;
}
// a pair of images of many pixels whose differences are known by construction:
// either some pixels differ by 10 and the radius is 0, or one bright pixel is moved
struct BigPair {
  int w, h, shift; long differ; std::vector<unsigned char> test, base; str show;
  // pixels outside the tolerances
  long count(const Tol &t) const { if (!shift) return t.i < 10 ? differ : 0; return t.i >= 100 ? 0 : !t.r ? 2 : (int)t.r >= shift ? 0 : 1; }
};
inline BigPair bigPair(Rng &r, int kind) {
  BigPair p; p.shift = 0; p.differ = 0; std::ostringstream o;
  if (kind) { p.w = r.range(70, 200); p.h = r.range(1, 3); p.shift = r.range(4, 60); p.base.assign(p.w * p.h, 0); p.test = p.base; int x = (int)r.below(p.w - p.shift), y = (int)r.below(p.h); bool left = r.chance(50); p.base[y * p.w + x + (left ? p.shift : 0)] = 100; p.test[y * p.w + x + (left ? 0 : p.shift)] = 100; o << p.w << "x" << p.h << " image with a bright pixel moved by " << p.shift; }
  else {
    static const std::vector<long> edge = {254, 255, 256, 257, 65534, 65535, 65536, 65537, 131072}; p.w = r.range(400, 700); p.h = r.range(330, 500); long n = (long)p.w * p.h; p.differ = r.chance(60) ? r.pick(edge) : r.chance(30) ? n : (long)r.below(n + 1); if (p.differ > n) p.differ = n;
    p.base.resize(n); for (long i = 0; i < n; ++i) p.base[i] = (unsigned char)(3 * (i % 11) % 100); p.test = p.base; long at = r.chance(50) ? 0 : (long)r.below(n - p.differ + 1); for (long i = at; i < at + p.differ; ++i) p.test[i] += 10; o << p.w << "x" << p.h << " image with " << p.differ << " pixels that differ by 10";
  }
  p.show = o.str(); return p;
}
// tolerances at which something is about to change
inline Tol bigTol(Rng &r, const BigPair &p) {
  Tol t; if (r.chance(30)) t.i = p.shift ? r.pick(std::vector<double>{1, 99, 100}) : r.pick(std::vector<double>{9, 9.5, 10, 1}); if (p.shift) { if (r.chance(85)) t.r = std::max(0, p.shift + (int)r.range(-2, 1)); if (r.chance(25)) t.n = (unsigned)r.below(4); } else if (r.chance(85)) { static const std::vector<long> d = {-1, 0, 0, 1, 65536, -65536, 1 << 16, 1 << 20}; t.n = (unsigned)std::max(0L, p.differ + r.pick(d)); if (r.chance(10)) t.n = UINT_MAX; }
  return t;
}
inline void mhaFile(const str &path, int w, int h, const std::vector<unsigned char> &v) { std::ostringstream o; o << "ObjectType = Image\nNDims = 2\nBinaryData = True\nBinaryDataByteOrderMSB = False\nElementSpacing = 1 1\nDimSize = " << w << " " << h << "\nElementType = MET_UCHAR\nElementDataFile = LOCAL\n"; writefile(path, o.str() + str(v.begin(), v.end())); }
}
#endif
