#include <Omega_h_r3d.hpp>
#include <cstdio>
int main() {
  r3d::Few<r3d::Vector<1>, 2> a, b;
  a[0][0] = 0; a[1][0] = 1; b[0][0] = 2; b[1][0] = 5;
  r3d::Polytope<1> t;
  r3d::intersect_simplices(t, a, b);
  auto v = r3d::measure(t);
  std::printf("length common to [0,1] and [2,5]: %f\n", v);
  return v != 0.0;
}
