// Oracle for the edge-swap tables: triangulations of a polygon.
#include <Omega_h_macros.h>
#undef OMEGA_H_CONSTANT_DATA
#define OMEGA_H_CONSTANT_DATA constexpr
#include <Omega_h_defines.hpp>
#include <Omega_h_swap3d_tables.hpp>
namespace oracle {
using namespace Omega_h;
using namespace Omega_h::swap3d;
constexpr int catalan(int n) { int c = 1; for (int i = 0; i < n; ++i) c = c * 2 * (2 * i + 1) / (i + 2); return c; }
constexpr bool sizes(int n) { return swap_mesh_sizes[n] == (n < 3 ? 0 : n - 2) && swap_mesh_counts[n] == (n < 3 ? 0 : catalan(n - 2)) && nedges[n] == (n < 3 ? 0 : n - 3); }
constexpr int tri(int n, int m, int k, int v) { return swap_triangles[n][swap_meshes[n][m * (n - 2) + k]][v]; }
constexpr int ntris(int n) { return n * (n - 1) * (n - 2) / 6; }
// a listed triangle goes round the polygon in its own direction
constexpr bool tri_ok(int n, int t) {
  int a = swap_triangles[n][t][0], b = swap_triangles[n][t][1], c = swap_triangles[n][t][2];
  if (!(0 <= a && a < n && 0 <= b && b < n && 0 <= c && c < n)) return false;
  return (a < b && b < c) || (b < c && c < a) || (c < a && a < b);
}
constexpr bool tri_once(int n, int t) {
  unsigned s = 0;
  for (int v = 0; v < 3; ++v) s |= 1u << swap_triangles[n][t][v];
  for (int u = 0; u < t; ++u) {
    unsigned r = 0;
    for (int v = 0; v < 3; ++v) r |= 1u << swap_triangles[n][u][v];
    if (r == s) return false;
  }
  return true;
}
constexpr bool mesh_in_range(int n, int m) {
  for (int k = 0; k < n - 2; ++k) {
    int t = swap_meshes[n][m * (n - 2) + k];
    if (t < 0 || t >= ntris(n)) return false;
    for (int j = 0; j < k; ++j)
      if (swap_meshes[n][m * (n - 2) + j] == t) return false;
  }
  return true;
}
// triangles of one configuration tile the polygon: each polygon side is used once forwards,
// every other directed edge as often as its reverse and at most once
constexpr bool mesh_tiles(int n, int m) {
  for (int a = 0; a < n; ++a)
    for (int b = 0; b < n; ++b) {
      if (a == b) continue;
      int fwd = 0, bwd = 0;
      for (int k = 0; k < n - 2; ++k)
        for (int v = 0; v < 3; ++v) {
          int p = tri(n, m, k, v), q = tri(n, m, k, (v + 1) % 3);
          fwd += p == a && q == b;
          bwd += p == b && q == a;
        }
      if (b == (a + 1) % n) { if (fwd != 1 || bwd != 0) return false; }
      else if (a == (b + 1) % n) { if (fwd != 0) return false; }
      else if (fwd != bwd || fwd > 1) return false;
    }
  return true;
}
constexpr bool mesh_distinct(int n, int m) {
  for (int o = 0; o < m; ++o) {
    int same = 0;
    for (int k = 0; k < n - 2; ++k)
      for (int j = 0; j < n - 2; ++j) same += swap_meshes[n][m * (n - 2) + k] == swap_meshes[n][o * (n - 2) + j];
    if (same == n - 2) return false;
  }
  return true;
}
constexpr bool is_diagonal(int n, int m, int a, int b) {
  if (b == (a + 1) % n || a == (b + 1) % n || a == b) return false;
  for (int k = 0; k < n - 2; ++k)
    for (int v = 0; v < 3; ++v)
      if (tri(n, m, k, v) == a && tri(n, m, k, (v + 1) % 3) == b) return true;
  return false;
}
constexpr int nuniq(int n) { return n == 4 ? 2 : n == 5 ? 7 : n == 6 ? 15 : 26; }
// the interior edges listed for a configuration are its diagonals, each once
constexpr bool edge_ok(int n, int m, int e) {
  int u = edges2unique[n][m][e];
  if (u < 0 || u >= nuniq(n)) return false;
  int a = unique_edges[n][u][0], b = unique_edges[n][u][1];
  if (!(0 <= a && a < n && 0 <= b && b < n)) return false;
  if (!is_diagonal(n, m, a, b)) return false;
  for (int f = 0; f < e; ++f) {
    int w = edges2unique[n][m][f], c = unique_edges[n][w][0], d = unique_edges[n][w][1];
    if ((a == c && b == d) || (a == d && b == c)) return false;
  }
  return true;
}
constexpr bool limits() { return MAX_EDGE_SWAP == 7 && MAX_CONFIGS >= catalan(5) && MAX_UNIQUE_TRIS >= ntris(7) && MAX_UNIQUE_EDGES >= nuniq(7); }
}  // namespace oracle
