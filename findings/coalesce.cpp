// Concatenates arrays of different lengths.
#include <Omega_h_array_ops.hpp>
#include <Omega_h_library.hpp>
#include <cstdio>
int main(int argc, char** argv) {
  auto lib = Omega_h::Library(&argc, &argv);
  Omega_h::LOs a({1, 2, 3}), b({4}), c({5, 6});
  auto r = Omega_h::coalesce(std::vector<Omega_h::LOs>({a, b, c}));
  bool ok = r.size() == 6;
  for (int i = 0; ok && i < 6; ++i) ok = r.get(i) == i + 1;
  std::printf(ok ? "ok\n" : "coalesce({1,2,3},{4},{5,6}) is not 1..6\n");
  return ok ? 0 : 2;
}
