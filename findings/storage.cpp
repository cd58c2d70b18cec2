// Demonstrates two defects of array storage (property P26) on the code before the repair.
// mpicxx -std=c++14 -O1 -w -I/repo/src -I/repo/_build/src -I/repo/tpl storage.cpp -o storage -L/repo/_build/src -lomega_h -Wl,-rpath,/repo/_build/src
#include <Omega_h_array.hpp>
#include <Omega_h_library.hpp>
#include <Omega_h_shared_alloc.hpp>
#include <cstdio>

int main(int argc, char** argv) {
  auto lib = Omega_h::Library(&argc, &argv);
  int bad = 0;
  if (argc < 2) {
    Omega_h::Write<Omega_h::LO> a(40, 7);
    auto& b = a;
    a = b;  // releases the storage, then keeps using it
    for (int i = 0; i < 40; ++i) {
      if (a.get(i) != 7) {
        std::printf("after a = a, a[%d] is %d\n", i, a.get(i));
        bad = 1;
        break;
      }
    }
    if (a.use_count() != 1) {
      std::printf("after a = a, %d handles\n", a.use_count());
      bad = 1;
      new Omega_h::Write<Omega_h::LO>(a);  // avoid the second release
    }
  }
  else {
    Omega_h::start_tracking_allocations();
    Omega_h::Write<Omega_h::LO> a(40), b(40), c(40);
    int n = 0;
    for (auto p = Omega_h::global_allocs->first; p; p = p->next) ++n;
    if (n != 3) {
      std::printf("3 arrays exist, %d are tracked\n", n);
      bad = 1;
    }
    delete Omega_h::global_allocs;
    Omega_h::global_allocs = nullptr;
  }
  return bad;
}
