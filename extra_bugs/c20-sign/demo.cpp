#include "itkdemo.h"
int main() {
  F2::Pointer a = image<F2>({5, 5}, [](int i) { return i == 12 ? 10. : 0.; }), b = image<F2>({5, 5}, [](int i) { return i == 13 ? 7. : 0.; });
  typedef itk::tf::DifferenceImageFilter<F2, F2> D; D::Pointer d = D::New(); d->SetValidInput(a); d->SetTestInput(b); d->SetToleranceRadius(1); d->UpdateLargestPossibleRegion();
  F2::IndexType x; x[0] = 2; x[1] = 2; CHECK(d->GetOutput()->GetPixel(x) == 3); return 0; }
