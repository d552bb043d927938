// between reference images and ITK images
#ifndef ITKIMG_H
#define ITKIMG_H
#include "imref.h"
#include "itkImage.h"
#include "itkVectorImage.h"
#include "itkVector.h"
#include <complex>
namespace vf {
template <class P> struct Px { static const int nc = 1; static void put(P &p, const double *v) { p = (P)v[0]; } static void get(const P &p, double *v) { v[0] = (double)p; } };
template <class T> struct Px<std::complex<T> > { static const int nc = 2; static void put(std::complex<T> &p, const double *v) { p = std::complex<T>((T)v[0], (T)v[1]); } static void get(const std::complex<T> &p, double *v) { v[0] = p.real(); v[1] = p.imag(); } };
template <class T, unsigned N> struct Px<itk::Vector<T, N> > { static const int nc = N; static void put(itk::Vector<T, N> &p, const double *v) { for (unsigned i = 0; i < N; ++i) p[i] = (T)v[i]; } static void get(const itk::Vector<T, N> &p, double *v) { for (unsigned i = 0; i < N; ++i) v[i] = p[i]; } };
template <class T> struct Px<itk::VariableLengthVector<T> > { static const int nc = 2; static void put(itk::VariableLengthVector<T> &p, const double *v) { p.SetSize(2); for (unsigned i = 0; i < 2; ++i) p[i] = (T)v[i]; } static void get(const itk::VariableLengthVector<T> &p, double *v) { for (unsigned i = 0; i < 2; ++i) v[i] = p[i]; } };
template <class I> inline void prepare(I *, int) {}
template <class T, unsigned D> inline void prepare(itk::VectorImage<T, D> *p, int nc) { p->SetVectorLength(nc); }
template <class I> typename I::RegionType region(const Box &b, const std::vector<int> &start) { typename I::RegionType g; typename I::IndexType ix; typename I::SizeType s; for (unsigned d = 0; d < I::ImageDimension; ++d) { ix[d] = start[d] + b[d].first; s[d] = b[d].second; } g.SetIndex(ix); g.SetSize(s); return g; }
template <class I> typename I::Pointer make(const Img &a, const std::vector<int> &start) {
  typename I::Pointer p = I::New(); prepare(p.GetPointer(), a.nc); p->SetRegions(region<I>(whole(a), start)); p->Allocate();
  forBox(whole(a), [&](const std::vector<int> &ix) { typename I::IndexType j; for (unsigned d = 0; d < I::ImageDimension; ++d) j[d] = ix[d] + start[d]; typename I::PixelType v; Px<typename I::PixelType>::put(v, a.at(a.offset(ix))); p->SetPixel(j, v); });
  return p;
}
// places an image anywhere in space
template <class I> void place(Rng &r, I *p) { typename I::SpacingType sp; typename I::PointType o; for (unsigned d = 0; d < I::ImageDimension; ++d) { sp[d] = .25 * r.range(1, 12); o[d] = r.range(-20, 20); } p->SetSpacing(sp); p->SetOrigin(o); if (I::ImageDimension > 1 && r.chance(30)) { typename I::DirectionType m; m.Fill(0); for (unsigned d = 0; d < I::ImageDimension; ++d) m[d][(d + 1) % I::ImageDimension] = 1; p->SetDirection(m); } }
template <class I> Img back(const I *p, const Box &b, const std::vector<int> &start, const std::vector<int> &size) {
  const int nc = Px<typename I::PixelType>::nc; Img a(size, nc);
  forBox(b, [&](const std::vector<int> &ix) { typename I::IndexType j; for (unsigned d = 0; d < I::ImageDimension; ++d) j[d] = ix[d] + start[d]; Px<typename I::PixelType>::get(p->GetPixel(j), a.at(a.offset(ix))); });
  return a;
}
}
#endif
