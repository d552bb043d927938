#include "itkdemo.h"
int main() {
  F2::Pointer a = image<F2>({7, 7}, [](int i) { return i == 24 ? 5. : 0.; }), b = image<F2>({7, 7}, [](int i) { return i == 32 ? 5. : 0.; });
  typedef itk::tf::DifferenceImageFilter<F2, F2> D; D::Pointer d = D::New(); d->SetValidInput(a); d->SetTestInput(b); d->SetToleranceRadius(1); d->UpdateLargestPossibleRegion();
  CHECK(d->GetNumberOfPixelsWithDifferences() == 0); return 0; }
