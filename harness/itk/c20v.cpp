// the same for pixels of several components
#include "c20.h"
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); if (chdir(c.scratch.c_str())) return 3; itk::MultiThreaderBase::SetGlobalDefaultNumberOfThreads(3);
  cases([&](Rng &r, long) {
    switch (r.range(6, 8)) {
      case 6: one<itk::Image<itk::Vector<float, 3>, 2>, itk::Image<itk::Vector<float, 3>, 2> >(r, "vector2", true, true, false); break;
      case 7: one<itk::Image<std::complex<double>, 2>, itk::Image<std::complex<double>, 2> >(r, "complex2", true, true, false); break;
      case 8: one<itk::VectorImage<float, 2>, itk::VectorImage<float, 2> >(r, "vectorimage2", true, true, false); break;
    }
  });
  c.finish(); return 0;
}
