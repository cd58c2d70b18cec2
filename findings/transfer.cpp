#include <Omega_h_library.hpp>
#include <Omega_h_mesh.hpp>
#include <Omega_h_build.hpp>
#include <Omega_h_adapt.hpp>
#include <Omega_h_amr.hpp>
#include <Omega_h_array_ops.hpp>
#include <Omega_h_metric.hpp>
#include <Omega_h_coarsen.hpp>
#include <cstdio>
using namespace Omega_h;
int main(int argc, char** argv) {
  auto lib = Library(&argc, &argv);
  int bad = 0;
  {
    auto mesh = build_box(lib.world(), OMEGA_H_SIMPLEX, 1., 0., 0., 8, 0, 0);
    mesh.add_tag<Real>(1, "f", 1, Reals(mesh.nelems(), 3.0));
    mesh.add_tag<Real>(VERT, "metric", 1, Reals(mesh.nverts(), 4.0));
    AdaptOpts opts(&mesh);
    opts.xfer_opts.type_map["f"] = OMEGA_H_POINTWISE;
    mesh.ask_lengths(); mesh.ask_qualities();
    while (coarsen_by_size(&mesh, opts)) ;
    printf("1D: %d elements, f carried: %d\n", mesh.nelems(), mesh.has_tag(1, "f"));
    if (!mesh.has_tag(1, "f")) bad = 1;
  }
  {
    auto mesh = build_box(lib.world(), OMEGA_H_HYPERCUBE, 1., 1., 0., 2, 1, 0);
    for (Int d = 0; d <= 2; ++d) mesh.add_tag<I32>(d, "g", 2, Read<I32>(mesh.nents(d) * 2, 7));
    TransferOpts x; x.type_map["g"] = OMEGA_H_INHERIT;
    Write<Byte> m(mesh.nelems(), 0); m[0] = 1;
    amr::refine(&mesh, Bytes(m), x);
    for (Int d = 0; d <= 2; ++d) {
      auto a = mesh.get_array<I32>(d, "g");
      auto lo = get_min(a), hi = get_max(a);
      printf("AMR dim %d: %d values for %d entities, %d..%d\n", d, a.size(), mesh.nents(d), lo, hi);
      if (lo != 7 || hi != 7) bad = 1;
    }
  }
  return bad;
}
