// A test on top of itk::Regression, for the monitors.
#ifndef VERIF_ITKX_H
#define VERIF_ITKX_H
#include "tfx.h"
#include "itktf/itktfRegression.h"
namespace vf {
class R : public itk::Regression {
public:
  std::function<int(R &, int, char **)> body; bool entered; std::vector<int> results; std::vector<str> args;
  R() : entered(false) {}
  int Test(int argc, char *argv[]) { entered = true; args.assign(argv, argv + argc); return body ? body(*this, argc, argv) : 0; }
  int file(const str &f, const str &n) { int r = MeasurementInsightFileImage(f, n); results.push_back(r); return r; }
  template <class TI> int image(typename TI::Pointer p, const str &n) { int r = MeasurementInsightImage<TI>(p, n); results.push_back(r); return r; }
  template <class X> int size(const X &x, const str &n, int t) { return t < 0 ? MeasurementInsightSize(x, n) : MeasurementInsightSize(x, n, t == 1); }
  template <class X> int index(const X &x, const str &n, int t) { return t < 0 ? MeasurementInsightIndex(x, n) : MeasurementInsightIndex(x, n, t == 1); }
  template <class X> int region(const X &x, const str &n, int t) { return t < 0 ? MeasurementInsightRegion(x, n) : MeasurementInsightRegion(x, n, t == 1); }
  template <class X> int point(const X &x, const str &n, int t) { return t < 0 ? MeasurementInsightPoint(x, n) : MeasurementInsightPoint(x, n, t == 1); }
  template <class X> int vector(const X &x, const str &n, int t) { return t < 0 ? MeasurementInsightVector(x, n) : MeasurementInsightVector(x, n, t == 1); }
  template <class X> int array(const X &x, const str &n, int t) { return t < 0 ? MeasurementInsightFixedArray(x, n) : MeasurementInsightFixedArray(x, n, t == 1); }
  template <class X> int matrix(const X &x, const str &n, int t) { return t < 0 ? MeasurementInsightMatrix(x, n) : MeasurementInsightMatrix(x, n, t == 1); }
  int integer(long v, const str &n) { int r = MeasurementNumericInteger(v, n); results.push_back(r); return r; }
};
}
#endif
