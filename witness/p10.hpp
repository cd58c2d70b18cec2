// Oracle for the local topology tables: relations between the tables and the
// reference geometry of each element.  Every function takes one table entry (or one
// entity) and is true when the entry obeys the relation.
#include <Omega_h_element.hpp>
#include <Omega_h_simplex.hpp>
#include <Omega_h_hypercube.hpp>
#include <Omega_h_refine_topology.hpp>

namespace oracle {
using namespace Omega_h;
constexpr int S = OMEGA_H_SIMPLEX, H = OMEGA_H_HYPERCUBE;

// number of sub-entities from first principles
constexpr int nsub(int fam, int d, int k) {
  if (fam == S) {
    int n = 1, m = 1;
    for (int i = 0; i <= k; ++i) { n *= (d + 1 - i); m *= (i + 1); }
    return n / m;
  }
  int n = 1, m = 1, p = 1;
  for (int i = 0; i < k; ++i) { n *= (d - i); m *= (i + 1); }
  for (int i = 0; i < d - k; ++i) p *= 2;
  return n / m * p;
}
constexpr int down(int fam, int d, int k, int b, int v) {
  return fam == S ? simplex_down_template(d, k, b, v) : hypercube_down_template(d, k, b, v);
}
// which vertices an entity has, as a bit set
constexpr unsigned vset(int fam, int d, int k, int b) {
  unsigned r = 0;
  if (k == 0) return 1u << b;
  for (int v = 0; v < nsub(fam, k, 0); ++v) r |= 1u << down(fam, d, k, b, v);
  return r;
}
constexpr int popc(unsigned x) { int n = 0; for (; x; x &= x - 1) ++n; return n; }
constexpr bool sane(int fam, int d, int k, int b, int v) {
  int x = down(fam, d, k, b, v);
  return x >= 0 && x < nsub(fam, d, 0);
}

// reference coordinates (corners of a hypercube, counterclockwise bottom then top)
struct X { int x[3]; };
constexpr X ref(int i) {
  return X{{(i % 4 == 1 || i % 4 == 2) ? 1 : 0, (i % 4 >= 2) ? 1 : 0, i / 4}};
}

// an entity's vertices are distinct, and form a face of the reference element
constexpr bool is_sub_entity(int fam, int d, int k, int b) {
  for (int v = 0; v < nsub(fam, k, 0); ++v)
    if (!sane(fam, d, k, b, v)) return false;
  unsigned s = vset(fam, d, k, b);
  if (popc(s) != nsub(fam, k, 0)) return false;
  if (fam == S) return true;
  // spans exactly k axes, consecutive vertices joined by element edges
  int axes = 0;
  for (int a = 0; a < 3; ++a) {
    int lo = 9, hi = -9;
    for (int v = 0; v < 8; ++v)
      if (s >> v & 1) { int c = ref(v).x[a]; lo = c < lo ? c : lo; hi = c > hi ? c : hi; }
    axes += hi != lo;
  }
  if (axes != k) return false;
  if (k == 2)
    for (int v = 0; v < 4; ++v) {
      X a = ref(down(fam, d, k, b, v)), c = ref(down(fam, d, k, b, (v + 1) % 4));
      int dist = 0;
      for (int t = 0; t < 3; ++t) dist += a.x[t] != c.x[t];
      if (dist != 1) return false;
    }
  return true;
}
constexpr bool distinct_sub_entities(int fam, int d, int k, int b) {
  for (int c = 0; c < nsub(fam, d, k); ++c)
    if (c != b && vset(fam, d, k, c) == vset(fam, d, k, b)) return false;
  return true;
}
// every directed edge of a side is used once in that direction and once in the other
// (in 2D: every vertex starts one side and ends one side): the boundary is a coherently
// oriented closed surface
constexpr bool coherent(int fam, int d, int b) {
  int k = d - 1, n = nsub(fam, k, 0);
  if (k == 1) {
    int h = down(fam, d, 1, b, 1), c = 0;
    for (int o = 0; o < nsub(fam, d, 1); ++o) c += down(fam, d, 1, o, 0) == h;
    return c == 1;
  }
  for (int v = 0; v < n; ++v) {
    int p = down(fam, d, k, b, v), q = down(fam, d, k, b, (v + 1) % n), same = 0, opp = 0;
    for (int o = 0; o < nsub(fam, d, k); ++o)
      for (int w = 0; w < n; ++w) {
        int p2 = down(fam, d, k, o, w), q2 = down(fam, d, k, o, (w + 1) % n);
        same += p2 == p && q2 == q;
        opp += p2 == q && q2 == p;
      }
    if (same != 1 || opp != 1) return false;
  }
  return true;
}
// The sides of a region point outward: (v1-v0) x (v2-v0) . (centroid - v0) < 0 in the
// reference element (tetrahedron: origin and unit points).
constexpr X tref(int i) { return X{{i == 1, i == 2, i == 3}}; }
constexpr bool outward(int fam, int d, int b) {
  auto at = [&](int i) { return fam == S ? tref(i) : ref(i); };
  if (d == 3) {
    X p = at(down(fam, 3, 2, b, 0)), q = at(down(fam, 3, 2, b, 1)), r = at(down(fam, 3, 2, b, 2));
    long u[3]{}, v[3]{}, w[3]{};
    int nv = nsub(fam, 3, 0);
    for (int t = 0; t < 3; ++t) {
      u[t] = q.x[t] - p.x[t];
      v[t] = r.x[t] - p.x[t];
      for (int i = 0; i < nv; ++i) w[t] += at(i).x[t];
      w[t] -= nv * p.x[t];
    }
    long det = w[0] * (u[1] * v[2] - u[2] * v[1]) + w[1] * (u[2] * v[0] - u[0] * v[2]) + w[2] * (u[0] * v[1] - u[1] * v[0]);
    return det < 0;
  }
  X p = at(down(fam, 2, 1, b, 0)), q = at(down(fam, 2, 1, b, 1));
  long u0 = q.x[0] - p.x[0], u1 = q.x[1] - p.x[1], w0 = 0, w1 = 0;
  int nv = nsub(fam, 2, 0);
  for (int i = 0; i < nv; ++i) { w0 += at(i).x[0]; w1 += at(i).x[1]; }
  w0 -= nv * p.x[0];
  w1 -= nv * p.x[1];
  return u0 * w1 - u1 * w0 > 0;
}
constexpr TemplateUp up(int fam, int d, int k, int b, int u) {
  return fam == S ? simplex_up_template(d, k, b, u) : hypercube_up_template(d, k, b, u);
}
// number of (k+1)-entities of the element around one k-entity
constexpr int nup(int fam, int d, int k, int b) {
  int n = 0;
  unsigned s = vset(fam, d, k, b);
  for (int c = 0; c < nsub(fam, d, k + 1); ++c) n += (vset(fam, d, k + 1, c) & s) == s;
  return n;
}
// the upward table lists an entity that has this one as its which_down-th part, flagged
// when it runs the other way
constexpr bool up_entry(int fam, int d, int k, int b, int u) {
  TemplateUp t = up(fam, d, k, b, u);
  if (t.up < 0 || t.up >= nsub(fam, d, k + 1)) return false;
  if (t.which_down < 0 || t.which_down >= nsub(fam, k + 1, k)) return false;
  if (k == 0) return down(fam, d, 1, t.up, t.which_down) == b && !t.is_flipped;
  int p = down(fam, d, 2, t.up, down(fam, 2, 1, t.which_down, 0));
  int q = down(fam, d, 2, t.up, down(fam, 2, 1, t.which_down, 1));
  int x = down(fam, d, 1, b, 0), y = down(fam, d, 1, b, 1);
  return t.is_flipped ? (p == y && q == x) : (p == x && q == y);
}
constexpr bool up_distinct(int fam, int d, int k, int b, int u) {
  for (int w = 0; w < u; ++w)
    if (up(fam, d, k, b, w).up == up(fam, d, k, b, u).up) return false;
  return true;
}
constexpr bool up_ends(int fam, int d, int k, int b) { return up(fam, d, k, b, nup(fam, d, k, b)).up == -1; }
// simplex: the opposite entity has the complementary vertices
constexpr bool opposite_ok(int d, int k, int b) {
  int o = simplex_opposite_template(d, k, b), kk = d - 1 - k;
  if (o < 0 || o >= nsub(S, d, kk)) return false;
  return (vset(S, d, kk, o) | vset(S, d, k, b)) == (1u << (d + 1)) - 1 && (vset(S, d, kk, o) & vset(S, d, k, b)) == 0;
}
constexpr bool opposite_involution(int d, int k, int b) {
  return simplex_opposite_template(d, d - 1 - k, simplex_opposite_template(d, k, b)) == b;
}
// element_*: the family-generic functions agree with the family's own
constexpr bool generic_down(int fam, int d, int k, int b, int v) {
  return element_down_template(Omega_h_Family(fam), d, k, b, v) == down(fam, d, k, b, v);
}
constexpr bool generic_degree(int fam, int d, int k) { return element_degree(Omega_h_Family(fam), d, k) == nsub(fam, d, k); }
constexpr bool family_degree(int fam, int d, int k) { return (fam == S ? simplex_degree(d, k) : hypercube_degree(d, k)) == nsub(fam, d, k); }
constexpr bool generic_up(int fam, int d, int k, int b, int u) {
  TemplateUp x = element_up_template(Omega_h_Family(fam), d, k, b, u), y = up(fam, d, k, b, u);
  return x.up == y.up && x.which_down == y.which_down && x.is_flipped == y.is_flipped;
}
constexpr bool str_eq(char const* a, char const* b) {
  if (!a || !b) return false;
  for (; *a && *a == *b; ++a, ++b) {}
  return *a == *b;
}
// hypercube refinement: twice the coordinates of a split vertex
constexpr X mid2(int d, int k, int b) {
  X r{{0, 0, 0}};
  int n = nsub(H, k, 0);
  for (int v = 0; v < n; ++v)
    for (int t = 0; t < 3; ++t) r.x[t] += ref(k == 0 ? b : (k == d ? v : down(H, d, k, b, v))).x[t];
  for (int t = 0; t < 3; ++t) r.x[t] = 2 * r.x[t] / n;
  return r;
}
constexpr bool split_sane(int d, int cd, int c, int v) {
  SplitVertex s = hypercube_split_template(d, cd, c, v);
  return s.dim >= 0 && s.dim <= d && s.which_down >= 0 && s.which_down < nsub(H, d, s.dim);
}
constexpr X split_at(int d, int cd, int c, int v) {
  SplitVertex s = hypercube_split_template(d, cd, c, v);
  return mid2(d, s.dim, s.which_down);
}
// child c of a split element of dimension d is the half-size copy of the parent sitting
// at the parent's corner c, with the parent's vertex order
constexpr bool split_child(int d, int c, int v) {
  if (!split_sane(d, d, c, v)) return false;
  X a = split_at(d, d, c, v);
  for (int t = 0; t < d; ++t)
    if (a.x[t] != ref(c).x[t] + ref(v).x[t]) return false;
  return true;
}
// interior children of lower dimension: distinct half-size entities inside the parent that
// touch its centre; the c-th one is dual to the c-th boundary entity of complementary dimension
constexpr bool split_interior(int d, int cd, int c) {
  int n = nsub(H, cd, 0);
  bool centre = false, dual = false;
  int lo[3]{9, 9, 9}, hi[3]{-9, -9, -9};
  for (int v = 0; v < n; ++v) {
    if (!split_sane(d, cd, c, v)) return false;
    SplitVertex s = hypercube_split_template(d, cd, c, v);
    if (s.dim < d - cd) return false;
    centre |= s.dim == d;
    dual |= s.dim == d - cd && s.which_down == c;
    X a = split_at(d, cd, c, v);
    for (int t = 0; t < d; ++t) { lo[t] = a.x[t] < lo[t] ? a.x[t] : lo[t]; hi[t] = a.x[t] > hi[t] ? a.x[t] : hi[t]; }
    if (n == 4) {
      X b = split_at(d, cd, c, (v + 1) % 4);
      int dist = 0;
      for (int t = 0; t < 3; ++t) dist += a.x[t] > b.x[t] ? a.x[t] - b.x[t] : b.x[t] - a.x[t];
      if (dist != 1) return false;
      X e = split_at(d, cd, c, (v + 2) % 4);
      int same = 0;
      for (int t = 0; t < 3; ++t) same += a.x[t] == e.x[t];
      if (same != 1) return false;
    }
  }
  int axes = 0;
  for (int t = 0; t < d; ++t) { axes += hi[t] != lo[t]; if (hi[t] - lo[t] > 1) return false; }
  return axes == cd && centre && (cd == 0 || dual);
}
constexpr bool split_count(int d, int cd) { return hypercube_split_degree(d, cd) == nsub(H, d, d - cd); }
}  // namespace oracle
namespace oracle {
// sign of a vertex order against the element's own
constexpr int parity(int n, int const* p) {
  int s = 1;
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j) {
      if (p[i] == p[j]) return 0;
      if (p[i] > p[j]) s = -s;
    }
  return s;
}
// the edge opposite a tetrahedron's edge curls around it by the right-hand rule
constexpr bool opposite_curls(int b) {
  int o = simplex_opposite_template(3, 1, b);
  int p[4] = {down(S, 3, 1, b, 0), down(S, 3, 1, b, 1), down(S, 3, 1, o, 0), down(S, 3, 1, o, 1)};
  return parity(4, p) == 1;
}
// side b joined to a vertex on its inner side, after the flip for new elements, is an element
// of positive orientation
constexpr bool new_elem_positive(int d, int b) {
  int p[4] = {0, 0, 0, 0}, q[4] = {0, 0, 0, 0};
  for (int v = 0; v < d; ++v) p[v] = q[v] = down(S, d, d - 1, b, v);
  for (int v = 0; v <= d; ++v) {
    bool used = false;
    for (int w = 0; w < d; ++w) used |= p[w] == v;
    if (!used) p[d] = q[d] = v;
  }
  flip_new_elem(d, p);
  if (d == 3) flip_new_elem<3>(q); else flip_new_elem<2>(q);
  return parity(d + 1, p) == 1 && parity(d + 1, q) == 1;
}
}
