// Demonstrates defects of Mesh's derived data (property P08) on the code before the repair.
// ranks: 2
#include <Omega_h_amr.hpp>
#include <Omega_h_array_ops.hpp>
#include <Omega_h_build.hpp>
#include <Omega_h_library.hpp>
#include <Omega_h_mesh.hpp>
#include <cstdio>

using namespace Omega_h;

int main(int argc, char** argv) {
  auto lib = Library(&argc, &argv);
  auto world = lib.world();
  int bad = 0;
  {
    auto mesh = build_box(lib.self(), OMEGA_H_HYPERCUBE, 1., 1., 0., 2, 2, 0);
    auto n = mesh.nverts();
    auto none = LOs(n, -1), some = LOs(n, 0);
    mesh.set_parents(0, Parents(none, Read<I8>(n, 0)));
    mesh.ask_children(1, 0);
    mesh.set_parents(0, Parents(some, Read<I8>(n, amr::make_code(0, 1))));
    if (mesh.ask_children(1, 0).ab2b.size() != n) {
      std::printf("ask_children answers from before set_parents\n");
      bad = 1;
    }
  }
  if (world->size() > 1) {
    auto reversed = world->split(0, world->size() - world->rank());
    auto mesh = build_box(reversed, OMEGA_H_SIMPLEX, 1., 1., 0., 4, 4, 0);
    mesh.ask_dist(0);
    mesh.set_comm(world);
    if (!(mesh.ask_dist(0).items2ranks() == mesh.ask_owners(0).ranks)) {
      std::printf("rank %d: ask_dist answers with ranks of the old communicator\n", world->rank());
      bad = 1;
    }
  }
  return bad;
}
