// ranks: 2
// amr::derefine in parallel: copies of an entity must keep one global number, distinct from all others
#include <Omega_h_amr.hpp>
#include <Omega_h_array_ops.hpp>
#include <Omega_h_build.hpp>
#include <Omega_h_library.hpp>
#include <Omega_h_mesh.hpp>
#include <Omega_h_for.hpp>
#include <cstdio>
using namespace Omega_h;
static int bad(Mesh* m, const char* what) {
  int r = 0;
  for (Int d = 0; d <= m->dim(); ++d) {
    auto g = m->globals(d);
    auto s = m->sync_array(d, g, 1);
    int n = 0;
    for (LO i = 0; i < g.size(); ++i) n += g[i] != s[i];
    auto total = m->comm()->allreduce(GO(get_sum(m->owned(d))), OMEGA_H_SUM);
    auto mx = get_max(m->comm(), g);
    std::printf("%s rank %d dim %d: %d of %d disagree with their owner; owned %ld max %ld\n", what, m->comm()->rank(), d, n, g.size(), (long)total, (long)mx);
    if (n || mx != total - 1) r = 1;
  }
  return m->comm()->allreduce(r, OMEGA_H_MAX);
}
int main(int argc, char** argv) {
  auto lib = Library(&argc, &argv);
  auto m = build_box(lib.world(), OMEGA_H_HYPERCUBE, 1.0, 1.0, 0.0, 4, 4, 0);
  m.set_parting(OMEGA_H_ELEM_BASED);
  auto xfer_opts = TransferOpts();
  amr::refine(&m, Bytes(m.nelems(), 1), xfer_opts);
  if (bad(&m, "refined")) return 2;
  Write<Byte> marks(m.nelems(), 0);
  if (m.comm()->rank() == 0 && m.nelems()) for (LO e = 0; e < 1; ++e) marks.set(e, 1);
  amr::derefine(&m, marks, xfer_opts);
  return bad(&m, "derefined");
}
