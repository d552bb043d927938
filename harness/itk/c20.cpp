#include "c20.h"
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); if (chdir(c.scratch.c_str())) return 3; itk::MultiThreaderBase::SetGlobalDefaultNumberOfThreads(3);
  cases([&](Rng &r, long k) {
    if (k < c.shards) { if (k == 1) large<itk::Image<float, 2> >(r, c.thorough ? 40000000 : 18000000); else large<itk::Image<double, 2> >(r, r.range(66000, 400000)); return; }
    switch (r.below(10)) {
      case 0: case 1: case 2: one<itk::Image<double, 3>, itk::Image<double, 3> >(r, "double3", true, true, true); break;
      case 4: if (r.chance(50)) { one<itk::Image<unsigned short, 3>, itk::Image<int, 3> >(r, "ushort3", false, false, false); break; } one<itk::Image<unsigned char, 2>, itk::Image<short, 2> >(r, "uchar2", false, false, false); break;
      case 3: one<itk::Image<float, 2>, itk::Image<float, 2> >(r, "float2", true, true, true); break;
      case 5: one<itk::Image<short, 1>, itk::Image<double, 1> >(r, "short1", false, true, false); break;
      default: one<itk::Image<double, 2>, itk::Image<float, 2> >(r, "double2", true, true, true); break;
    }
  });
  c.finish(); return 0;
}
