#include "itktf/itktfRegression.h"
#include "itktf/itktfDifferenceImageFilter.h"
#include "itktf/itktfFilterWatcher.h"
#include "itkImage.h"
#include "itkImageFileWriter.h"
#include "itkImageFileReader.h"
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
typedef std::string str;
typedef itk::Image<float, 2> F2; typedef itk::Image<float, 3> F3; typedef itk::Image<float, 1> F1; typedef itk::Image<unsigned char, 2> U2;
#ifdef WITHLIB
struct T : itk::Regression {
  std::function<int(T &)> body;
  int Test(int, char **) { return body ? body(*this) : 0; }
  int file(const str &f, const str &n) { return MeasurementInsightFileImage(f, n); }
  template <class X> int size(const X &x, const str &n, bool t) { return MeasurementInsightSize(x, n, t); }
  template <class X> int index(const X &x, const str &n, bool t) { return MeasurementInsightIndex(x, n, t); }
  template <class X> int region(const X &x, const str &n, bool t) { return MeasurementInsightRegion(x, n, t); }
  template <class X> int matrix(const X &x, const str &n) { return MeasurementInsightMatrix(x, n); }
  template <class X> int vector(const X &x, const str &n) { return MeasurementInsightVector(x, n); }
};
static int runArgs(T &t, std::vector<str> a) { std::vector<char *> v; for (size_t i = 0; i < a.size(); ++i) v.push_back(strdup(a[i].c_str())); v.push_back(0); return t.Main((int)a.size(), &v[0]); }
static int runBody(std::function<int(T &)> b, std::vector<str> a) { T t; t.body = b; return runArgs(t, a); }
#endif
static str slurp(const str &f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void spit(const str &f, const str &s) { std::ofstream o(f.c_str(), std::ios::binary); o << s; }
static str doc(const str &body) { return "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>\n<output>\n" + body + "</output>\n"; }
// an image with values f(linear offset)
template <class I> typename I::Pointer image(std::vector<int> size, std::function<double(int)> f, std::vector<int> start = std::vector<int>()) {
  typename I::Pointer p = I::New(); typename I::RegionType r; typename I::SizeType s; typename I::IndexType x; x.Fill(0); for (unsigned d = 0; d < I::ImageDimension; ++d) { s[d] = size[d]; if (!start.empty()) x[d] = start[d]; } r.SetSize(s); r.SetIndex(x); p->SetRegions(r); p->Allocate();
  typename I::PixelType *b = p->GetBufferPointer(); for (unsigned i = 0; i < r.GetNumberOfPixels(); ++i) b[i] = (typename I::PixelType)f(i); return p;
}
template <class I> void save(typename I::Pointer p, const str &f) { typedef itk::ImageFileWriter<I> W; typename W::Pointer w = W::New(); w->SetInput(p); w->SetFileName(f); w->Update(); }
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
