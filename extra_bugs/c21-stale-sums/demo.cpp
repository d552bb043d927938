#include "itkdemo.h"
int main() {
  F2::Pointer a = image<F2>({5, 5}, [](int i) { return i == 12 ? 10. : 0.; }), b = image<F2>({5, 5}, [](int i) { return 0.; });
  typedef itk::tf::DifferenceImageFilter<F2, F2> D; D::Pointer d = D::New(); d->SetValidInput(a); d->SetTestInput(b);
  for (int i = 0; i < 3; ++i) { d->Modified(); d->UpdateLargestPossibleRegion(); CHECK(d->GetNumberOfPixelsWithDifferences() == 1); } return 0; }
