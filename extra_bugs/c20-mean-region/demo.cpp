#include "itkdemo.h"
int main() {
  F2::Pointer a = image<F2>({8, 8}, [](int i) { return 4.; }), b = image<F2>({8, 8}, [](int i) { return 0.; });
  typedef itk::tf::DifferenceImageFilter<F2, F2> D; D::Pointer d = D::New(); d->SetValidInput(a); d->SetTestInput(b); d->UpdateOutputInformation(); F2::RegionType r; r.SetIndex(0, 2); r.SetIndex(1, 2); r.SetSize(0, 3); r.SetSize(1, 3); d->GetOutput()->SetRequestedRegion(r); d->Update();
  CHECK(d->GetMeanMagnitude() == 4); return 0; }
