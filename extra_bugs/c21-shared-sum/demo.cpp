#include "itkdemo.h"
int main() {
  itk::MultiThreaderBase::SetGlobalMaximumNumberOfThreads(16); itk::MultiThreaderBase::SetGlobalDefaultNumberOfThreads(16);
  F2::Pointer a = image<F2>({2000, 2000}, [](int i) { return 10.; }), b = image<F2>({2000, 2000}, [](int i) { return 0.; });
  typedef itk::tf::DifferenceImageFilter<F2, F2> D; 
  for (int i = 0; i < 40; ++i) { D::Pointer d = D::New(); d->SetNumberOfWorkUnits(16); d->SetValidInput(a); d->SetTestInput(b); d->UpdateLargestPossibleRegion(); CHECK(d->GetNumberOfPixelsWithDifferences() == 4000000); } return 0; }
