// Oracle for the geometry of simplices and for clipping: measures as determinants and Gram
// determinants, gradients as exact differences, volumes of cut simplices as divided differences.
#define R1D_MAX_VERTS 4
#define R2D_MAX_VERTS 12
#define R3D_MAX_VERTS 20
#include "p13.hpp"
#include <Omega_h_quality.hpp>
#include <Omega_h_r3d.hpp>
#include <Omega_h_shape.hpp>
namespace oracle {
template <int s, int e>
constexpr Few<Vector<s>, e + 1> pts(int first = 0) {
  Few<Vector<s>, e + 1> p;
  for (int i = 0; i <= e; ++i) p[i] = vec<s>(first + i * s);
  return p;
}
template <int s, int e>
constexpr Matrix<s, e> edges_from(Few<Vector<s>, e + 1> const& p) {
  Matrix<s, e> b;
  for (int i = 0; i < e; ++i)
    for (int k = 0; k < s; ++k) b[i][k] = p[i + 1][k] - p[0][k];
  return b;
}
constexpr R fact(int n) { return n <= 1 ? R(1) : R(n) * fact(n - 1); }
template <int d>
constexpr R signed_size(Few<Vector<d>, d + 1> const& p) { return leibniz(edges_from<d, d>(p)) / fact(d); }
template <int s, int e>
constexpr R gram(Few<Vector<s>, e + 1> const& p) {
  auto b = edges_from<s, e>(p);
  return leibniz(prod(flip(b), b)) / (fact(e) * fact(e));
}

template <int s, int e>
constexpr bool g_basis() { return eq(Omega_h::simplex_basis<s, e>(pts<s, e>()), edges_from<s, e>(pts<s, e>())); }
template <int s, int e>
constexpr bool g_size() {
  auto p = pts<s, e>();
  auto v = Omega_h::real_simplex_size<s, e>(p);
  if constexpr (s == e && s > 1) return same(v, signed_size<s>(p));
  else return same(v * v, gram<s, e>(p)) && v.v > 0;
}
constexpr bool g_size1() {
  // the size of a 1D edge is its length
  auto p = pts<1, 1>();
  auto v = Omega_h::real_simplex_size<1, 1>(p);
  return same(v * v, (p[1][0] - p[0][0]) * (p[1][0] - p[0][0]));
}
template <int d>
constexpr bool g_form_barycentric() {
  auto c = vec<d>();
  auto xi = Omega_h::form_barycentric(c);
  R s;
  for (int i = 0; i <= d; ++i) s = s + xi[i];
  for (int i = 0; i < d; ++i)
    if (!same(xi[i + 1], c[i])) return false;
  return same(s, R(1));
}
template <int s, int e>
constexpr bool g_barycentric() {
  auto p = pts<s, e>();
  auto x = vec<s>(24);
  auto xi = Omega_h::barycentric_from_global<s, e>(x, p);
  R sum;
  for (int i = 0; i <= e; ++i) sum = sum + xi[i];
  if (!same(sum, R(1))) return false;
  // the residual is orthogonal to the simplex
  auto b = edges_from<s, e>(p);
  Vector<s> r;
  for (int k = 0; k < s; ++k) {
    r[k] = x[k];
    for (int i = 0; i <= e; ++i) r[k] = r[k] - xi[i] * p[i][k];
  }
  for (int i = 0; i < e; ++i)
    if (!same(dot<s>(b[i], r), R(0))) return false;
  return true;
}
template <int n>
constexpr bool g_inside() {
  Vector<n> a;
  for (int i = 0; i < n; ++i) a[i] = R(1) / R(n);
  if (!Omega_h::is_barycentric_inside(a)) return false;
  for (int k = 0; k < n; ++k) {
    auto b = a;
    b[k] = R(0);
    if (!Omega_h::is_barycentric_inside(b)) return false;
    b[k] = R(-1) / R(1000);
    if (Omega_h::is_barycentric_inside(b)) return false;
    for (int i = 0; i < n; ++i) b[i] = R(0);
    b[k] = R(1);
    if (!Omega_h::is_barycentric_inside(b)) return false;
    b[k] = R(1001) / R(1000);
    b[(k + 1) % n] = R(0);
    if (Omega_h::is_barycentric_inside(b)) return false;
  }
  return true;
}
template <int d>
constexpr bool g_plane() {
  Omega_h::Plane<d> p;
  p.n = vec<d>();
  p.d = var(6);
  auto x = vec<d>(8);
  auto q = Omega_h::normalize(p);
  auto l = root(dot<d>(p.n, p.n));
  return same(Omega_h::distance(p, x), dot<d>(p.n, x) - p.d) && same(dot<d>(q.n, q.n), R(1)) && same(q.d * l, p.d) && comps(q.n, [&](int i) { return p.n[i] / l; });
}
template <int d>
constexpr bool g_edges() {
  auto p = pts<d, d>();
  auto ev = Omega_h::element_edge_vectors(p, edges_from<d, d>(p));
  constexpr int n = d * (d + 1) / 2;
  static_assert(sizeof(ev) == n * sizeof(p[0]), "");
  for (int e = 0; e < n; ++e) {
    int a = Omega_h::simplex_down_template(d, 1, e, 0), b = Omega_h::simplex_down_template(d, 1, e, 1);
    Vector<d> w;
    for (int k = 0; k < d; ++k) w[k] = p[b][k] - p[a][k];
    if (!eq(ev[e], w) && !eq(-ev[e], w)) return false;
  }
  return true;
}
template <int d>
constexpr bool g_mean_square() {
  auto m = sym<d>(20);
  auto p = pts<d, d>();
  auto ev = Omega_h::element_edge_vectors(p, edges_from<d, d>(p));
  R s, q;
  int n = 0;
  for (int i = 0; i <= d; ++i)
    for (int j = 0; j < i; ++j, ++n) {
      Vector<d> w;
      for (int k = 0; k < d; ++k) w[k] = p[i][k] - p[j][k];
      s = s + dot<d>(w, apply(m, w));
      q = q + dot<d>(w, w);
    }
  return same(Omega_h::mean_squared_metric_length(ev, m), s / R(n)) && same(Omega_h::mean_squared_real_length(ev), q / R(n)) &&
         same(Omega_h::squared_metric_length(ev[0], m), dot<d>(ev[0], apply(m, ev[0])));
}
// every edge has length one in the implied metric
template <int d>
constexpr bool g_implied() {
  auto p = pts<d, d>();
  auto m = Omega_h::element_implied_metric(p);
  for (int i = 0; i <= d; ++i)
    for (int j = 0; j < i; ++j) {
      Vector<d> w;
      for (int k = 0; k < d; ++k) w[k] = p[i][k] - p[j][k];
      if (!same(dot<d>(w, apply(m, w)), R(1))) return false;
    }
  return true;
}
template <int s>
constexpr bool g_edge_length() {
  auto p = pts<s, 1>();
  R l2;
  for (int k = 0; k < s; ++k) l2 = l2 + (p[1][k] - p[0][k]) * (p[1][k] - p[0][k]);
  auto m = sym<s>(8);
  Few<Tensor<s>, 2> ms;
  ms[0] = ms[1] = m;
  Vector<s> w;
  for (int k = 0; k < s; ++k) w[k] = p[1][k] - p[0][k];
  auto l = Omega_h::metric_edge_length<s, s>(p, ms);
  auto n = Omega_h::edge_length_from_basis<s>(edges_from<s, 1>(p));
  return same(n * n, l2) && n.v > 0 && same(l * l, dot<s>(w, apply(m, w))) && same(Omega_h::anisotropic_edge_length(R(3), R(3)), R(3));
}
constexpr bool g_normal() {
  auto p = pts<3, 2>();
  auto b = edges_from<3, 2>(p);
  return eq(Omega_h::get_triangle_normal<3>(p[0], p[1], p[2]), curl(b[0], b[1])) && eq(Omega_h::get_side_vector(p), curl(b[0], b[1]));
}
// points out of the element, orthogonal to the side; its length is (d-1)! times the side's size
template <int d>
constexpr bool g_side(int side) {
  auto p = pts<d, d>();
  auto n = Omega_h::get_side_vector(p, side);
  int on[d], off = -1;
  for (int v = 0; v <= d; ++v) {
    bool is = false;
    for (int k = 0; k < d; ++k)
      if (Omega_h::simplex_down_template(d, d - 1, side, k) == v) { is = true; on[k] = v; }
    if (!is) off = v;
  }
  for (int k = 1; k < d; ++k)
    if (!same(dot<d>(n, p[on[k]]), dot<d>(n, p[on[0]]))) return false;
  if (!same(dot<d>(n, p[on[0]]) - dot<d>(n, p[off]), fact(d) * signed_size<d>(p))) return false;
  auto pl = Omega_h::get_side_plane<d>(p, side);
  if (!eq(pl.n, n)) return false;
  for (int k = 0; k < d; ++k)
    if (!same(dot<d>(pl.n, p[on[k]]), pl.d)) return false;
  return true;
}
constexpr bool g_side1() { return same(Omega_h::get_side_vector(pts<1, 1>(), 0)[0], R(-1)) && same(Omega_h::get_side_vector(pts<1, 1>(), 1)[0], R(1)); }
// the size is affine in each vertex: its exact difference is the gradient
template <int d>
constexpr bool g_gradient(int v) {
  auto p = pts<d, d>();
  auto h = vec<d>(24);
  auto g = Omega_h::get_size_gradient<d>(p, v);
  auto gs = Omega_h::get_size_gradients<d>(p);
  auto q = p;
  for (int k = 0; k < d; ++k) q[v][k] = q[v][k] + h[k];
  return same(signed_size<d>(q) - signed_size<d>(p), dot<d>(g, h)) && eq(gs[v], g);
}
constexpr bool g_circumcenter() {
  auto b = mat<3, 2>();
  auto c = Omega_h::get_circumcenter_vector(b);
  // |c - b| = |c|
  for (int k = 0; k < 2; ++k)
    if (!same(R(2) * dot<3>(c, b[k]), dot<3>(b[k], b[k]))) return false;
  return same(dot<3>(c, curl(b[0], b[1])), R(0));
}
// right-angled elements, of any size, anywhere: centre and radius are rational
template <int d>
constexpr bool g_inball() {
  int legs[3][3] = {{1, 1, 1}, {3, 4, 0}, {1, 1, 2}};
  R a = var(8);
  Few<Vector<d>, d + 1> p;
  auto o = vec<d>();
  R size(1), sides(0);
  for (int i = 0; i <= d; ++i)
    for (int k = 0; k < d; ++k) p[i][k] = o[k] + (i == k + 1 ? R(legs[d - 1][k]) * a : R(0));
  auto b = Omega_h::get_inball<d>(p);
  // the ball touches every side from within
  for (int s = 0; s <= d; ++s) {
    auto n = Omega_h::get_side_vector(p, s);
    auto on = Omega_h::simplex_down_template(d, d - 1, s, 0);
    auto l = root(dot<d>(n, n));
    if (!same((dot<d>(n, p[on]) - dot<d>(n, b.c)) / l, b.r)) return false;
  }
  return b.r.v > 0;
}
template <int d>
constexpr bool g_metric_size() {
  auto m = sym<d>(20);
  for (int i = 0; i < d; ++i) m[i][i] = m[i][i] + R(9);
  auto s = Omega_h::metric_size<d>(var(0), m);
  return same(s * s, var(0) * var(0) * leibniz(m)) && s.v * var(0).v > 0;
}
template <int d>
constexpr bool g_iso_size() {
  Tensor<1> m;
  m[0][0] = var(8) * var(8);
  R h(1);
  for (int i = 0; i < d; ++i) h = h * var(8);
  return same(Omega_h::metric_size<d>(var(0), m), var(0) * h);
}
constexpr bool g_equilateral() {
  auto a = Omega_h::equilateral_simplex_size(2), v = Omega_h::equilateral_simplex_size(3);
  return same(Omega_h::equilateral_simplex_size(1), R(1)) && same(a * a, R(3) / R(16)) && a.v > 0 && same(v * v, R(1) / R(72)) && v.v > 0;
}
template <int d>
constexpr bool g_affine() {
  auto p = pts<d, d>();
  auto f = Omega_h::simplex_affine<d>(p);
  // the reference vertices go to the vertices
  for (int v = 0; v <= d; ++v)
    if (!comps(p[v], [&](int k) { return f.t[k] + (v ? f.r[v - 1][k] : R(0)); })) return false;
  return true;
}
// the mean ratio is one for the equilateral element, whatever the metric's scale
constexpr bool g_mean_ratio2() {
  auto q = Omega_h::mean_ratio<2>(var(0), var(1));
  return same(q * q, R(16) * var(0) * var(0) / (R(3) * var(1) * var(1))) && same(Omega_h::mean_ratio<1>(var(0), var(1)), var(0) * var(0) / var(1));
}
constexpr bool near(double a, double b) { return a - b < 1e-9 && b - a < 1e-9; }
constexpr bool g_mean_ratio3() {
  auto q = Omega_h::mean_ratio<3>(var(0), var(1));
  auto s = var(0).v / 0.11785113019775792073;
  return near(q.v * q.v * q.v * var(1).v * var(1).v * var(1).v, s * s);
}
// any metric for one element; any element for one metric
constexpr bool g_quality2(int kind) {
  Few<Vector<2>, 3> p;
  p[0][0] = p[0][1] = R(0);
  for (int i = 0; i < 4; ++i) p[1 + i / 2][i % 2] = kind ? var(i) : R(i ? 2 + i : 1);
  auto m = sym<2>(20);
  for (int i = 0; i < 2; ++i) m[i][i] = kind ? R(4 - i) : m[i][i] + R(9);
  if (kind) m[0][1] = m[1][0] = R(1) / R(2);
  // orientation of the sample decides which formula applies
  auto a = signed_size<2>(p);
  if (a.v < 0) { auto t = p[0]; p[0] = p[1]; p[1] = t; a = -a; }
  R s;
  for (int i = 0; i < 3; ++i) {
    Vector<2> w;
    for (int k = 0; k < 2; ++k) w[k] = p[i][k] - p[(i + 1) % 3][k];
    s = s + dot<2>(w, apply(m, w));
  }
  auto q = Omega_h::metric_element_quality<2>(p, m);
  if (!same(q * q, R(48) * a * a * leibniz(m) / (s * s)) || !(q.v > 0)) return false;
  auto t = p[0]; p[0] = p[1]; p[1] = t;
  return Omega_h::metric_element_quality<2>(p, m).v < 0;
}
constexpr bool g_quality3() {
  auto p = pts<3, 3>();
  auto a = signed_size<3>(p);
  if (a.v < 0) { auto t = p[0]; p[0] = p[1]; p[1] = t; a = -a; }
  Tensor<3> m = Omega_h::identity_tensor<3>();
  m[0][0] = R(4); m[1][1] = R(9);
  double s = 0;
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < i; ++j) {
      Vector<3> w;
      for (int k = 0; k < 3; ++k) w[k] = p[i][k] - p[j][k];
      s += dot<3>(w, apply(m, w)).v;
    }
  s /= 6;
  auto q = Omega_h::metric_element_quality<3>(p, m).v;
  auto v = 6 * a.v / 0.11785113019775792073;
  if (!near(q * q * q * s * s * s / (v * v), 1)) return false;
  auto t = p[0]; p[0] = p[1]; p[1] = t;
  return Omega_h::metric_element_quality<3>(p, m).v < 0;
}

// ---- clipping
template <int d>
using RPts = r3d::Few<r3d::Vector<d>, d + 1>;
template <int d>
constexpr RPts<d> rp(Few<Vector<d>, d + 1> const& p) {
  RPts<d> q;
  for (int i = 0; i <= d; ++i)
    for (int k = 0; k < d; ++k) q[i][k] = p[i][k];
  return q;
}
template <int d>
constexpr Few<Vector<d>, d + 1> unit_simplex() {
  Few<Vector<d>, d + 1> p;
  for (int i = 0; i <= d; ++i)
    for (int k = 0; k < d; ++k) p[i][k] = R(i == k + 1);
  return p;
}
template <int d>
constexpr Few<Vector<d>, d + 1> whole(int c[d + 1][d]) {
  Few<Vector<d>, d + 1> p;
  for (int i = 0; i <= d; ++i)
    for (int k = 0; k < d; ++k) p[i][k] = R(c[i][k]);
  return p;
}
template <int d>
constexpr bool c_convert() {
  auto p = pts<d, d>();
  auto q = Omega_h::to_r3d(p);
  for (int i = 0; i <= d; ++i)
    for (int k = 0; k < d; ++k)
      if (!same(q[i][k], p[i][k])) return false;
  auto b = Omega_h::from_r3d(q);
  for (int i = 0; i <= d; ++i)
    if (!eq(b[i], p[i])) return false;
  return true;
}
template <int d>
constexpr bool c_measure() {
  auto p = pts<d, d>();
  r3d::Polytope<d> t{};
  r3d::init(t, rp<d>(p));
  auto v = r3d::measure(t);
  if constexpr (d == 1) return same(v * v, signed_size<1>(p) * signed_size<1>(p));
  else return same(v, signed_size<d>(p));
}
// the planes of a simplex contain its sides and have it on their positive side
template <int d>
constexpr bool c_faces() {
  auto p = pts<d, d>();
  if constexpr (d == 3) {
    // fewer symbols, not fewer directions
    R o[3] = {R(1), R(2), R(-1)}, z(0);
    R e[4][3] = {{z, z, z}, {var(0), var(1), z}, {z, var(2), var(3)}, {var(4), z, var(5)}};
    for (int i = 0; i < 4; ++i)
      for (int k = 0; k < 3; ++k) p[i][k] = o[k] + e[i][k];
  }
  if (signed_size<d>(p).v < 0) { auto t = p[0]; p[0] = p[1]; p[1] = t; }
  auto f = r3d::faces_from_verts(rp<d>(p));
  bool used[d + 1] = {};
  for (int s = 0; s <= d; ++s) {
    if (!same(dot<d>(f[s].n, f[s].n), R(1))) return false;
    int off = -1;
    for (int v = 0; v <= d; ++v) {
      R h = dot<d>(f[s].n, p[v]) + f[s].d;
      if (same(h, R(0))) continue;
      if (off >= 0 || !(h.v > 0)) return false;
      off = v;
    }
    if (off < 0 || used[off]) return false;
    used[off] = true;
  }
  return true;
}
// the part of a simplex where an affine function with the given values at the vertices is positive
template <int d>
constexpr R positive_part(R const* s) {
  R f;
  for (int i = 0; i <= d; ++i) {
    if (!(s[i].v > 0)) continue;
    R t(1);
    for (int j = 0; j <= d; ++j)
      if (j != i) t = t * s[i] / (s[i] - s[j]);
    f = f + t;
  }
  return f / fact(d);
}
template <int d>
constexpr r3d::Plane<d> plane_of(R const* s) {
  r3d::Plane<d> h;
  h.d = s[0];
  for (int k = 0; k < d; ++k) h.n[k] = s[k + 1] - s[0];
  return h;
}
template <int d>
constexpr void values(R* s, unsigned signs) {
  for (int i = 0; i <= d; ++i) {
    s[i] = var(i);
    if (s[i].v < 0) s[i] = -s[i];
    if ((signs >> i) & 1) s[i] = -s[i];
  }
}
template <int d>
constexpr bool c_clip(unsigned signs) {
  R s[d + 1];
  values<d>(s, signs);
  r3d::Polytope<d> t{};
  r3d::init(t, rp<d>(unit_simplex<d>()));
  r3d::clip(t, plane_of<d>(s));
  return same(r3d::measure(t), positive_part<d>(s));
}
// cut twice by parallel planes: the slab between them
template <int d>
constexpr bool c_slab(unsigned signs) {
  R s[d + 1], u[d + 1];
  values<d>(s, signs);
  if (d == 3)   // fewer symbols
    for (int i = 2; i <= d; ++i) s[i] = R(s[i].v < 0 ? -i : 3 * i) / R(4);
  for (int i = 0; i <= d; ++i) u[i] = -(s[i] - R(1));   // 1 - s >= 0
  r3d::Polytope<d> t{};
  r3d::init(t, rp<d>(unit_simplex<d>()));
  r3d::Few<r3d::Plane<d>, 2> h;
  h[0] = plane_of<d>(s);
  h[1] = plane_of<d>(u);
  r3d::clip(t, h);
  R above[d + 1];
  for (int i = 0; i <= d; ++i) above[i] = s[i] - R(1);
  return same(r3d::measure(t), positive_part<d>(s) - positive_part<d>(above));
}
// first moments: the integral of x_k over the positive part, from the same function on one degree more
template <int d>
constexpr bool c_moment(unsigned signs) {
  R s[d + 1];
  values<d>(s, signs);
  r3d::Polytope<d> t{};
  r3d::init(t, rp<d>(unit_simplex<d>()));
  r3d::clip(t, plane_of<d>(s));
  R m[d + 1] = {};
  r3d::reduce<1>(t, m);
  // integral of the affine function itself over its positive part
  R direct = m[0] * s[0];
  for (int k = 0; k < d; ++k) direct = direct + m[k + 1] * (s[k + 1] - s[0]);
  R f;
  for (int i = 0; i <= d; ++i) {
    if (!(s[i].v > 0)) continue;
    R u = s[i];
    for (int j = 0; j <= d; ++j)
      if (j != i) u = u * s[i] / (s[i] - s[j]);
    f = f + u;
  }
  return same(direct, f / fact(d + 1));
}
template <int d>
constexpr bool c_moments_simplex() {
  auto p = pts<d, d>();
  r3d::Polytope<d> t{};
  r3d::init(t, rp<d>(p));
  R m[10] = {};
  r3d::reduce<2>(t, m);
  auto v = signed_size<d>(p);
  if (!same(m[0], v)) return false;
  for (int k = 0; k < d; ++k) {
    R c;
    for (int i = 0; i <= d; ++i) c = c + p[i][k];
    if (!same(m[1 + k], v * c / R(d + 1))) return false;
  }
  int n = d + 1;
  for (int k = 0; k < d; ++k)
    for (int l = k; l < d; ++l, ++n) {
      R a, b, c;
      for (int i = 0; i <= d; ++i) { a = a + p[i][k]; b = b + p[i][l]; c = c + p[i][k] * p[i][l]; }
      if (!same(m[n], v * (a * b + c) / R((d + 1) * (d + 2)))) return false;
    }
  return true;
}
template <int d>
constexpr R meet(Few<Vector<d>, d + 1> const& a, Few<Vector<d>, d + 1> const& b) {
  r3d::Polytope<d> t{};
  r3d::intersect_simplices(t, rp<d>(a), rp<d>(b));
  return r3d::measure(t);
}
template <int d>
constexpr bool c_empty() {
  // wholly on the negative side: nothing is left
  R s[d + 1];
  values<d>(s, (1u << (d + 1)) - 1);
  r3d::Polytope<d> t{};
  r3d::init(t, rp<d>(unit_simplex<d>()));
  r3d::clip(t, plane_of<d>(s));
  return same(r3d::measure(t), R(0));
}
template <int d>
constexpr bool c_full() {
  R s[d + 1];
  values<d>(s, 0);
  r3d::Polytope<d> t{};
  r3d::init(t, rp<d>(unit_simplex<d>()));
  r3d::clip(t, plane_of<d>(s));
  return same(r3d::measure(t), R(1) / fact(d));
}
// the unit simplex shifted by a vector whose sum is positive: a smaller simplex is common
template <int d>
constexpr bool c_shifted(int n) {
  auto a = unit_simplex<d>(), b = a;
  R rest(1), common(1);
  for (int k = 0; k < d; ++k) {
    R h = R(n) / R(10 + k);
    rest = rest - h;
    for (int i = 0; i <= d; ++i) b[i][k] = b[i][k] + h;
  }
  if (rest.v <= 0) return same(meet<d>(a, b), R(0)) && same(meet<d>(b, a), R(0));
  for (int k = 0; k < d; ++k) common = common * rest;
  return same(meet<d>(a, b), common / fact(d)) && same(meet<d>(b, a), common / fact(d));
}
// the unit simplex and its image turned about the centre: same measure both ways round, and
// the parts cut off by each plane add up
template <int d>
constexpr bool c_symmetric(int n) {
  auto a = unit_simplex<d>();
  Few<Vector<d>, d + 1> b;
  int c3[3][4][3] = {{{1, 1, 1}, {-1, 1, 1}, {1, 1, -2}, {1, -2, 1}}, {{2, -1, 0}, {0, 3, 1}, {-1, -1, 1}, {1, 1, 2}}, {{-3, 1, 1}, {2, 2, -1}, {1, -3, 1}, {0, 0, 3}}};
  int c2[3][3][2] = {{{1, 1}, {-1, 1}, {1, -1}}, {{2, -1}, {1, 2}, {-1, 0}}, {{0, 3}, {-2, -1}, {3, 0}}};
  for (int i = 0; i <= d; ++i)
    for (int k = 0; k < d; ++k) b[i][k] = R(d == 3 ? c3[n][i][k] : c2[n][i % 3][k % 2]) / R(2);
  if (signed_size<d>(b).v < 0) { auto t = b[0]; b[0] = b[1]; b[1] = t; }
  auto x = meet<d>(a, b), y = meet<d>(b, a);
  if (!same(x, y) || !(x.v > 0)) return false;
  // a is the disjoint union of its parts in and out of b: peel b's planes one at a time
  auto f = r3d::faces_from_verts(rp<d>(b));
  r3d::Polytope<d> t{};
  r3d::init(t, rp<d>(a));
  R out;
  for (int s = 0; s <= d; ++s) {
    auto u = t;
    r3d::Plane<d> g = f[s];
    for (int k = 0; k < d; ++k) g.n[k] = -f[s].n[k];
    g.d = -f[s].d;
    r3d::clip(u, g);
    out = out + r3d::measure(u);
    r3d::clip(t, f[s]);
  }
  return same(x + out, R(1) / fact(d));
}
template <int d>
constexpr bool c_nested() {
  auto a = unit_simplex<d>(), b = a;
  for (int i = 0; i <= d; ++i)
    for (int k = 0; k < d; ++k) b[i][k] = (a[i][k] + R(1) / R(d + 1)) / R(2);
  R v = R(1) / fact(d);
  for (int k = 0; k < d; ++k) v = v / R(2);
  return same(meet<d>(a, b), v) && same(meet<d>(b, a), v) && same(meet<d>(a, a), R(1) / fact(d));
}
}  // namespace oracle
