// Oracle for the small vector and matrix formulas: definitions written out with loops,
// permutations and Kronecker deltas over generic (symbolic) arguments.
#include "rat.hpp"
#include <Omega_h_affine.hpp>
#include <Omega_h_bbox.hpp>
#include <Omega_h_eigen.hpp>
#include <Omega_h_lie.hpp>
#include <Omega_h_metric.hpp>
#include <Omega_h_qr.hpp>
#include <Omega_h_svd.hpp>
namespace oracle {
using Omega_h::Few;
using Omega_h::Matrix;
using Omega_h::Tensor;
using Omega_h::Vector;
using R = Rat;
constexpr int eps(int i, int j) { return j - i; }
constexpr int eps(int i, int j, int k) { return (j - i) * (k - i) * (k - j) / 2; }
constexpr int delta(int i, int j) { return i == j; }

template <int n>
constexpr Vector<n> vec(int first = 0) {
  Vector<n> v;
  for (int i = 0; i < n; ++i) v[i] = var(first + i);
  return v;
}
template <int m, int n>
constexpr Matrix<m, n> mat(int first = 0) {
  Matrix<m, n> a;
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) a[j][i] = var(first + i * n + j);
  return a;
}
template <int n>
constexpr Tensor<n> sym(int first = 0) {
  Tensor<n> a;
  int k = first;
  for (int i = 0; i < n; ++i)
    for (int j = i; j < n; ++j) a[j][i] = a[i][j] = var(k++);
  return a;
}
// entry of row i and column j: the class stores columns
template <int m, int n>
constexpr R at(Matrix<m, n> const& a, int i, int j) { return a[j][i]; }
template <int n>
constexpr bool eq(Vector<n> const& a, Vector<n> const& b) {
  for (int i = 0; i < n; ++i)
    if (!same(a[i], b[i])) return false;
  return true;
}
template <int m, int n>
constexpr bool eq(Matrix<m, n> const& a, Matrix<m, n> const& b) {
  for (int j = 0; j < n; ++j)
    if (!eq(a[j], b[j])) return false;
  return true;
}
template <int m, int n, class F>
constexpr bool entries(Matrix<m, n> const& a, F f) {
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      if (!same(a[j][i], f(i, j))) return false;
  return true;
}
template <int n, class F>
constexpr bool comps(Vector<n> const& a, F f) {
  for (int i = 0; i < n; ++i)
    if (!same(a[i], f(i))) return false;
  return true;
}
template <int n>
constexpr bool is_identity(Tensor<n> const& a) { return entries(a, [](int i, int j) { return R(delta(i, j)); }); }
template <int n, class A, class B>
constexpr R dot(A const& a, B const& b) {
  R s;
  for (int i = 0; i < n; ++i) s = s + a[i] * b[i];
  return s;
}
template <int m, int k, int n>
constexpr Matrix<m, n> prod(Matrix<m, k> const& a, Matrix<k, n> const& b) {
  Matrix<m, n> c;
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) {
      R s;
      for (int l = 0; l < k; ++l) s = s + a[l][i] * b[j][l];
      c[j][i] = s;
    }
  return c;
}
template <int m, int n>
constexpr Vector<m> apply(Matrix<m, n> const& a, Vector<n> const& x) {
  Vector<m> y;
  for (int i = 0; i < m; ++i) {
    R s;
    for (int j = 0; j < n; ++j) s = s + a[j][i] * x[j];
    y[i] = s;
  }
  return y;
}
template <int m, int n>
constexpr Matrix<n, m> flip(Matrix<m, n> const& a) {
  Matrix<n, m> b;
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) b[i][j] = a[j][i];
  return b;
}
constexpr R leibniz(Tensor<1> const& a) { return a[0][0]; }
constexpr R leibniz(Tensor<2> const& a) {
  R s;
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j)
      if (i != j) s = s + R(eps(i, j)) * at(a, 0, i) * at(a, 1, j);
  return s;
}
constexpr R leibniz(Tensor<3> const& a) {
  R s;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      for (int k = 0; k < 3; ++k)
        if (eps(i, j, k)) s = s + R(eps(i, j, k)) * at(a, 0, i) * at(a, 1, j) * at(a, 2, k);
  return s;
}
// unit vectors with rational components: stereographic projection
constexpr Vector<2> unit2(int a, int sgn = 1) {
  R t = var(a), d = R(1) + t * t;
  Vector<2> v;
  v[0] = R(sgn) * (R(1) - t * t) / d;
  v[1] = R(2) * t / d;
  return v;
}
constexpr Vector<3> unit3(int a, int sgn = 1) {
  R s = var(a), t = var(a + 1), d = R(1) + s * s + t * t;
  Vector<3> v;
  v[0] = R(2) * s / d;
  v[1] = R(2) * t / d;
  v[2] = R(sgn) * (R(1) - s * s - t * t) / d;
  return v;
}
constexpr Tensor<2> rot2(int a) {
  auto u = unit2(a);
  Tensor<2> q;
  q[0] = u;
  q[1][0] = -u[1];
  q[1][1] = u[0];
  return q;
}
// an orthogonal matrix of constants
constexpr Tensor<3> rot3() {
  int e[3][3] = {{2, -1, 2}, {2, 2, -1}, {-1, 2, 2}};
  Tensor<3> q;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) q[j][i] = R(e[i][j]) / R(3);
  return q;
}

// ---- scalars
constexpr bool scalars() {
  R x = var(0), y = var(1);
  return same(Omega_h::square(x), x * x) && same(Omega_h::cube(x), x * x * x) && same(Omega_h::average(x, y), (x + y) / R(2)) &&
         same(Omega_h::raise<5>(x), x * x * x * x * x) && same(Omega_h::raise<0>(x), R(1));
}
constexpr bool powers() {
  R x = var(0);
  auto r = std::sqrt(x);
  return same(Omega_h::power<1, 1>(x), x) && same(Omega_h::power<2, 1>(x), x * x) && same(Omega_h::power<3, 1>(x), x * x * x) &&
         same(Omega_h::power<1, 2>(x), r) && same(Omega_h::power<2, 2>(x), x) && same(Omega_h::power<3, 2>(x), r * x) &&
         same(Omega_h::power<4, 2>(x), x * x) && same(Omega_h::power<3, 3>(x), x) && same(Omega_h::power<6, 3>(x), x * x) && same(Omega_h::power<2, 4>(x), r) &&
         same(Omega_h::power(x, 1, 1), x) && same(Omega_h::power(x, 2, 1), x * x) && same(Omega_h::power(x, 3, 1), x * x * x) &&
         same(Omega_h::power(x, 1, 2), r) && same(Omega_h::power(x, 2, 2), x) && same(Omega_h::power(x, 3, 2), r * x) && same(Omega_h::power(x, 3, 3), x);
}
constexpr bool orders() {
  R a = var(0), b = var(1), c = var(3);  // 1.5 < 2.25 < 3
  return same(Omega_h::min2(a, b), a) && same(Omega_h::min2(b, a), a) && same(Omega_h::max2(a, b), b) && same(Omega_h::max2(b, a), b) &&
         same(Omega_h::clamp(a, b, c), b) && same(Omega_h::clamp(b, a, c), b) && same(Omega_h::clamp(c, a, b), b) &&
         same(Omega_h::sign(a), R(1)) && same(Omega_h::sign(-a), R(-1)) && Omega_h::minimum<R>()(a, b).v == a.v && Omega_h::minimum<R>()(b, a).v == a.v &&
         Omega_h::maximum<R>()(a, b).v == b.v && Omega_h::maximum<R>()(b, a).v == b.v;
}
constexpr bool integers() {
  return Omega_h::factorial(0) == 1 && Omega_h::factorial(1) == 1 && Omega_h::factorial(2) == 2 && Omega_h::factorial(3) == 6 && Omega_h::factorial(5) == 120 &&
         Omega_h::gcd(12, 18) == 6 && Omega_h::gcd(18, 12) == 6 && Omega_h::gcd(7, 3) == 1 && Omega_h::gcd(3, 6) == 3;
}

// ---- vectors
template <int n>
constexpr bool v_linear() {
  auto a = vec<n>(), b = vec<n>(n);
  R s = var(2 * n);
  auto p = a, q = a, r = a, t = a;
  p += b;
  q -= b;
  r *= s;
  t /= s;
  return comps(a + b, [&](int i) { return a[i] + b[i]; }) && comps(a - b, [&](int i) { return a[i] - b[i]; }) &&
         comps(-a, [&](int i) { return -a[i]; }) && comps(a * s, [&](int i) { return a[i] * s; }) &&
         comps(s * a, [&](int i) { return a[i] * s; }) && comps(a / s, [&](int i) { return a[i] / s; }) &&
         comps(p, [&](int i) { return a[i] + b[i]; }) && comps(q, [&](int i) { return a[i] - b[i]; }) &&
         comps(r, [&](int i) { return a[i] * s; }) && comps(t, [&](int i) { return a[i] / s; });
}
template <int n>
constexpr bool v_dot() {
  auto a = vec<n>(), b = vec<n>(n);
  return same(a * b, dot<n>(a, b)) && same(Omega_h::inner_product(a, b), dot<n>(a, b)) && same(Omega_h::norm_squared(a), dot<n>(a, a));
}
template <int n>
constexpr bool v_norm() {
  auto a = vec<n>();
  auto l = Omega_h::norm(a);
  return same(l * l, dot<n>(a, a)) && l.v > 0 && same(Omega_h::norm(-a), l);
}
template <int n>
constexpr bool v_normalize() {
  auto a = vec<n>();
  auto u = Omega_h::normalize(a);
  return same(dot<n>(u, u), R(1)) && comps(u, [&](int i) { return a[i] / root(dot<n>(a, a)); });
}
constexpr bool v_makers() {
  R x = var(0), y = var(1), z = var(2);
  auto a = Omega_h::vector_1(x);
  auto b = Omega_h::vector_2(x, y);
  auto c = Omega_h::vector_3(x, y, z);
  return same(a[0], x) && same(b[0], x) && same(b[1], y) && same(c[0], x) && same(c[1], y) && same(c[2], z);
}
template <int n>
constexpr bool v_fill() {
  R x = var(0);
  return comps(Omega_h::fill_vector<n>(x), [&](int) { return x; }) && comps(Omega_h::zero_vector<n>(), [&](int) { return R(0); });
}
template <int n>
constexpr bool v_pinv() {
  auto a = vec<n>();
  return comps(Omega_h::pseudo_invert(a), [&](int i) { return a[i] / dot<n>(a, a); }) && comps(Omega_h::pseudo_invert(Omega_h::zero_vector<n>()), [](int) { return R(0); });
}
// positivize keeps the line and picks one of v and -v whatever the signs
template <int n>
constexpr bool v_positivize(unsigned signs) {
  Vector<n> a;
  for (int i = 0; i < n; ++i) {
    R x = var(3 + i);
    if (x.v < 0) x = -x;
    a[i] = (signs >> i) & 1 ? -x : x;
  }
  auto p = Omega_h::positivize(a), m = Omega_h::positivize(-a);
  return (eq(p, a) || eq(p, -a)) && eq(p, m);
}
constexpr bool v_cross2() {
  auto a = vec<2>(), b = vec<2>(2);
  R s;
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j) s = s + R(i == j ? 0 : eps(i, j)) * a[i] * b[j];
  return same(Omega_h::cross(a, b), s);
}
constexpr Vector<3> curl(Vector<3> const& a, Vector<3> const& b) {
  Vector<3> c;
  for (int i = 0; i < 3; ++i) {
    R s;
    for (int j = 0; j < 3; ++j)
      for (int k = 0; k < 3; ++k)
        if (eps(i, j, k)) s = s + R(eps(i, j, k)) * a[j] * b[k];
    c[i] = s;
  }
  return c;
}
constexpr bool v_cross3() { return eq(Omega_h::cross(vec<3>(), vec<3>(3)), curl(vec<3>(), vec<3>(3))); }
constexpr bool v_perp() {
  auto a = vec<2>();
  auto p = Omega_h::perp(a);
  return same(dot<2>(a, p), R(0)) && same(a[0] * p[1] - a[1] * p[0], dot<2>(a, a));
}
template <int n>
constexpr bool v_project() {
  auto a = vec<n>(), b = vec<n>(n);
  auto p = Omega_h::project(a, b), r = Omega_h::reject(a, b);
  return comps(p, [&](int i) { return dot<n>(a, b) / dot<n>(b, b) * b[i]; }) && same(dot<n>(r, b), R(0)) && eq(p + r, a);
}
template <int m, int n>
constexpr bool v_resize() {
  auto a = vec<n>();
  return comps(Omega_h::resize<m>(a), [&](int i) { return i < n ? a[i] : R(0); });
}
template <int n>
constexpr bool v_average() {
  Few<R, n> a;
  R s;
  for (int i = 0; i < n; ++i) { a[i] = var(i); s = s + var(i); }
  return same(Omega_h::average(a), s / R(n)) && same(Omega_h::reduce(a, Omega_h::plus<R>()), s);
}
constexpr bool v_add_unique() {
  Few<int, 4> s;
  int n = 0;
  Omega_h::add_unique(s, n, 5);
  Omega_h::add_unique(s, n, 7);
  Omega_h::add_unique(s, n, 5);
  Omega_h::add_unique(s, n, 7);
  Omega_h::add_unique(s, n, 6);
  return n == 3 && s[0] == 5 && s[1] == 7 && s[2] == 6;
}
template <int n>
constexpr bool v_get() {
  R data[3 * n];
  for (int i = 0; i < 3 * n; ++i) data[i] = var(i);
  auto p = &data[0];
  for (int k = 0; k < 3; ++k)
    if (!comps(Omega_h::get_vector<n>(p, k), [&](int i) { return data[k * n + i]; })) return false;
  return true;
}

// ---- matrices
template <int m, int n>
constexpr bool m_layout() {
  auto a = mat<m, n>();
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      if (!same(a(i, j), a[j][i])) return false;
  return true;
}
template <int m, int n>
constexpr bool m_linear() {
  auto a = mat<m, n>(), b = mat<m, n>(m * n);
  R s = var(2 * m * n);
  auto p = a, q = a, r = a, t = a;
  p += b;
  q -= b;
  r *= s;
  t /= s;
  auto sum = [&](int i, int j) { return at(a, i, j) + at(b, i, j); };
  auto dif = [&](int i, int j) { return at(a, i, j) - at(b, i, j); };
  auto tim = [&](int i, int j) { return at(a, i, j) * s; };
  auto quo = [&](int i, int j) { return at(a, i, j) / s; };
  return entries(a + b, sum) && entries(p, sum) && entries(a - b, dif) && entries(q, dif) && entries(a * s, tim) && entries(s * a, tim) &&
         entries(r, tim) && entries(a / s, quo) && entries(t, quo) && entries(-a, [&](int i, int j) { return -at(a, i, j); });
}
template <int m, int n>
constexpr bool m_apply() { return eq(mat<m, n>() * vec<n>(m * n), apply(mat<m, n>(), vec<n>(m * n))); }
template <int m, int k, int n>
constexpr bool m_product() { return eq(mat<m, k>() * mat<k, n>(m * k), prod(mat<m, k>(), mat<k, n>(m * k))); }
template <int m, int n>
constexpr bool m_transpose() { return eq(Omega_h::transpose(mat<m, n>()), flip(mat<m, n>())); }
template <int n>
constexpr bool m_identity() {
  return is_identity(Omega_h::identity_tensor<n>()) && is_identity(Omega_h::identity_matrix<n, n>()) && is_identity(Omega_h::identity_matrix<n, n>(n, n));
}
template <int m, int n>
constexpr bool m_zero() { return entries(Omega_h::zero_matrix<m, n>(), [](int, int) { return R(0); }); }
constexpr bool m_makers() {
  auto a = mat<2, 2>();
  auto b = mat<3, 3>();
  auto v = [](int i) { return var(i); };
  return same(Omega_h::matrix_1x1(v(0))[0][0], v(0)) && same(Omega_h::tensor_1(v(0))[0][0], v(0)) && eq(Omega_h::matrix_2x2(v(0), v(1), v(2), v(3)), a) &&
         eq(Omega_h::tensor_2(v(0), v(1), v(2), v(3)), a) && eq(Omega_h::matrix_3x3(v(0), v(1), v(2), v(3), v(4), v(5), v(6), v(7), v(8)), b) &&
         eq(Omega_h::tensor_3(v(0), v(1), v(2), v(3), v(4), v(5), v(6), v(7), v(8)), b);
}
constexpr bool m_list() {
  auto v = [](int i) { return var(i); };
  Matrix<2, 3> a({v(0), v(1), v(2), v(3), v(4), v(5)});
  Matrix<3, 2> b({v(0), v(1), v(2), v(3), v(4), v(5)});
  return eq(a, mat<2, 3>()) && eq(b, mat<3, 2>());
}
template <int n>
constexpr bool m_outer() {
  auto a = vec<3>(), b = vec<n>(3);
  return entries(Omega_h::outer_product(a, b), [&](int i, int j) { return a[i] * b[j]; });
}
template <int n>
constexpr bool m_trace() {
  auto a = mat<n, n>();
  R s;
  for (int i = 0; i < n; ++i) s = s + at(a, i, i);
  return same(Omega_h::trace(a), s);
}
template <int n>
constexpr bool m_diagonal() {
  auto a = mat<n, n>();
  auto v = vec<n>();
  return comps(Omega_h::diagonal(a), [&](int i) { return at(a, i, i); }) && entries(Omega_h::diagonal(v), [&](int i, int j) { return i == j ? v[i] : R(0); });
}
template <int n>
constexpr bool m_determinant() { return same(Omega_h::determinant(mat<n, n>()), leibniz(mat<n, n>())); }
template <int m, int n>
constexpr bool m_inner() {
  auto a = mat<m, n>(), b = mat<m, n>(m * n);
  R s, q;
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) { s = s + at(a, i, j) * at(b, i, j); q = q + at(a, i, j) * at(a, i, j); }
  auto l = Omega_h::norm(a);
  return same(Omega_h::inner_product(a, b), s) && same(l * l, q) && l.v > 0;
}
constexpr bool m_cross() { return eq(apply(Omega_h::cross(vec<3>()), vec<3>(3)), curl(vec<3>(), vec<3>(3))); }
constexpr bool m_uncross() {
  if (!eq(Omega_h::uncross(Omega_h::cross(vec<3>())), vec<3>())) return false;
  // the axial vector of the skew part
  auto a = mat<3, 3>();
  auto w = Omega_h::uncross(a), x = vec<3>(9);
  auto y = curl(w, x);
  auto sk = flip(a);
  return comps(y, [&](int i) { R s; for (int j = 0; j < 3; ++j) s = s + (at(a, i, j) - at(sk, i, j)) / R(2) * x[j]; return s; });
}
template <int n>
constexpr bool m_invert() {
  auto a = mat<n, n>();
  auto b = Omega_h::invert(a);
  return is_identity(prod(a, b)) && is_identity(prod(b, a));
}
template <int m, int n>
constexpr bool m_pinv() {
  auto a = mat<m, n>();
  auto b = Omega_h::pseudo_invert(a);
  if constexpr (m > n) {
    auto p = prod(a, b);
    return is_identity(prod(b, a)) && eq(p, flip(p));
  } else if constexpr (m < n) {
    auto p = prod(b, a);
    return is_identity(prod(a, b)) && eq(p, flip(p));
  } else
    return is_identity(prod(a, b));
}
template <int n>
constexpr int symm_index(int i, int j) {  // xx, yy, zz, xy, yz, zx
  if (i == j) return i;
  if (i > j) { int t = i; i = j; j = t; }
  return n == 2 ? 2 : (i == 0 && j == 1 ? 3 : (i == 1 ? 4 : 5));
}
template <int n>
constexpr int inria_index(int i, int j) {  // lower triangle by rows
  if (i < j) { int t = i; i = j; j = t; }
  return i * (i + 1) / 2 + j;
}
template <int n>
constexpr bool m_symm() {
  constexpr int nc = n * (n + 1) / 2;
  auto v = vec<nc>();
  auto a = sym<n>();
  auto w = Omega_h::symm2vector(a);
  static_assert(Omega_h::symm_ncomps(n) == nc, "");
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (!same(w[symm_index<n>(i, j)], at(a, i, j))) return false;
  R data[2 * nc];
  for (int i = 0; i < 2 * nc; ++i) data[i] = var(i);
  auto p = &data[0];
  return entries(Omega_h::vector2symm(v), [&](int i, int j) { return v[symm_index<n>(i, j)]; }) &&
         entries(Omega_h::get_symm<n>(p, 1), [&](int i, int j) { return data[nc + symm_index<n>(i, j)]; });
}
template <int n>
constexpr bool m_symm_inria() {
  constexpr int nc = n * (n + 1) / 2;
  auto v = vec<nc>();
  auto a = sym<n>();
  auto w = Omega_h::symm2vector_inria(a);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (!same(w[inria_index<n>(i, j)], at(a, i, j))) return false;
  return entries(Omega_h::vector2symm_inria(v), [&](int i, int j) { return v[inria_index<n>(i, j)]; });
}
template <int m, int n>
constexpr bool m_vector() {
  auto a = mat<m, n>();
  auto v = vec<m * n>();
  static_assert(Omega_h::matrix_ncomps(m, n) == m * n, "");
  R data[2 * m * n];
  for (int i = 0; i < 2 * m * n; ++i) data[i] = var(i);
  auto p = &data[0];
  return comps(Omega_h::matrix2vector(a), [&](int k) { return at(a, k / n, k % n); }) &&
         entries(Omega_h::vector2matrix<m, n>(v), [&](int i, int j) { return v[i * n + j]; }) &&
         entries(Omega_h::get_matrix<m, n>(p, 1), [&](int i, int j) { return data[m * n + i * n + j]; });
}
constexpr bool m_rotate3() {
  R c = var(COS), s = var(SIN);
  auto k = unit3(0);
  auto x = vec<3>(2);
  auto kx = curl(k, x);
  auto y = apply(Omega_h::rotate(var(9), k), x);
  return comps(y, [&](int i) { return c * x[i] + s * kx[i] + (R(1) - c) * dot<3>(k, x) * k[i]; });
}
constexpr bool m_rotate2() {
  R c = var(COS), s = var(SIN);
  auto r = Omega_h::rotate(var(9));
  return same(at(r, 0, 0), c) && same(at(r, 1, 1), c) && same(at(r, 1, 0), s) && same(at(r, 0, 1), -s);
}
constexpr bool m_ortho1() { return same(Omega_h::form_ortho_basis(vec<1>())[0][0], var(0)); }
template <int n>
constexpr bool m_ortho(int sgn) {
  Vector<n> v;
  if constexpr (n == 2) v = unit2(0, sgn);
  else v = unit3(0, sgn);
  auto a = Omega_h::form_ortho_basis(v);
  return eq(a[0], v) && is_identity(prod(flip(a), a)) && same(leibniz(a), R(1));
}
template <int n>
constexpr bool m_deviator() {
  auto a = mat<n, n>();
  R t;
  for (int i = 0; i < n; ++i) t = t + at(a, i, i);
  return entries(Omega_h::deviator(a), [&](int i, int j) { return at(a, i, j) - R(delta(i, j)) * t / R(n); });
}
template <int m, int n>
constexpr bool m_resize() {
  auto a = mat<n, n>();
  return entries(Omega_h::resize<m>(a), [&](int i, int j) { return i < n && j < n ? at(a, i, j) : R(0); });
}
template <int n>
constexpr bool m_max_norm(int k) {
  // every entry of magnitude one but one
  Tensor<n> a;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) a[j][i] = R(1);
  a[k % n][k / n] = -var(8);
  return same(Omega_h::max_norm(a), var(8));
}

// ---- affine maps
template <int n>
constexpr Omega_h::Affine<n> aff() {
  Omega_h::Affine<n> f;
  f.r = mat<n, n>();
  f.t = vec<n>(n * n);
  return f;
}
template <int n>
constexpr bool a_apply() {
  auto x = vec<n>(n * n + n);
  auto f = aff<n>();
  return comps(f * x, [&](int i) { return apply(f.r, x)[i] + f.t[i]; });
}
template <int n>
constexpr bool a_invert() {
  auto f = aff<n>();
  auto g = Omega_h::invert(f);
  auto x = vec<n>(n * n + n);
  Vector<n> y;
  auto rx = apply(f.r, x);
  for (int i = 0; i < n; ++i) y[i] = rx[i] + f.t[i];
  auto z = apply(g.r, y);
  return comps(z, [&](int i) { return x[i] - g.t[i]; });
}

// ---- boxes
template <int n>
constexpr Omega_h::BBox<n> box(int a) {
  // corner, and corner plus a positive extent
  Vector<n> lo = vec<n>(a), hi;
  for (int i = 0; i < n; ++i) hi[i] = lo[i] + var(24 + i) * var(24 + i);
  return Omega_h::BBox<n>(lo, hi);
}
template <int n>
constexpr bool b_unite() {
  auto a = box<n>(0), b = box<n>(3);
  auto c = Omega_h::unite(a, b);
  return comps(c.min, [&](int i) { return a.min[i].v < b.min[i].v ? a.min[i] : b.min[i]; }) && comps(c.max, [&](int i) { return a.max[i].v > b.max[i].v ? a.max[i] : b.max[i]; });
}
template <int n>
constexpr bool b_point() {
  Omega_h::BBox<n> b(vec<n>());
  return eq(b.min, vec<n>()) && eq(b.max, vec<n>());
}
template <int n>
constexpr bool b_equilateral() {
  auto a = box<n>(0);
  auto b = Omega_h::make_equilateral(a);
  R l = a.max[0] - a.min[0];
  for (int i = 1; i < n; ++i)
    if (a.max[i].v - a.min[i].v > l.v) l = a.max[i] - a.min[i];
  return eq(b.min, a.min) && comps(b.max, [&](int i) { return a.min[i] + l; });
}
template <int n>
constexpr bool b_unit() {
  auto a = box<n>(0);
  auto f = Omega_h::get_affine_from_bbox_into_unit(a);
  auto lo = apply(f.r, a.min), hi = apply(f.r, a.max);
  return comps(lo, [&](int i) { return -f.t[i]; }) && comps(hi, [&](int i) { return R(1) - f.t[i]; }) &&
         entries(f.r, [&](int i, int j) { return i == j ? R(1) / (a.max[i] - a.min[i]) : R(0); });
}

// ---- metrics
template <int n>
constexpr bool t_product() {
  auto m = sym<n>();
  auto v = vec<n>(6);
  auto mv = apply(m, v);
  auto l = Omega_h::metric_length(m, v);
  auto d = Omega_h::metric_desired_length(m, v);
  return same(Omega_h::metric_product(m, v), dot<n>(v, mv)) && same(l * l, dot<n>(v, mv)) && same(d * l, R(1));
}
template <int n>
constexpr bool t_isotropic() {
  Tensor<1> m;
  m[0][0] = var(0);
  auto v = vec<n>(6);
  return same(Omega_h::metric_product(m, v), var(0) * dot<n>(v, v));
}
constexpr bool t_length() {
  auto h = var(0);
  auto l = Omega_h::metric_eigenvalue_from_length(h);
  return same(l, R(1) / (h * h)) && same(Omega_h::metric_length_from_eigenvalue(l), h);
}
template <int n>
constexpr bool t_lengths() {
  auto h = vec<n>(3);
  for (int i = 0; i < n; ++i) h[i] = h[i].v < 0 ? -h[i] : h[i];
  auto l = Omega_h::metric_eigenvalues_from_lengths(h);
  return comps(l, [&](int i) { return R(1) / (h[i] * h[i]); }) && eq(Omega_h::metric_lengths_from_eigenvalues(l), h);
}
template <int n>
constexpr bool t_compose() {
  auto q = mat<n, n>();
  auto l = vec<n>(9);
  auto f = [&](int i, int j) {
    R s;
    for (int k = 0; k < n; ++k) s = s + at(q, i, k) * l[k] * at(q, j, k);
    return s;
  };
  auto g = [&](int i, int j) {
    R s;
    for (int k = 0; k < n; ++k) s = s + at(q, i, k) * at(q, j, k) / (l[k] * l[k]);
    return s;
  };
  return entries(Omega_h::compose_ortho(q, l), f) && entries(Omega_h::compose_metric(q, l), g);
}
template <int n>
constexpr bool t_compose_eigen() {
  auto q = mat<n, n>();
  auto l = vec<n>(9);
  // columns of q are the eigenvectors
  auto a = Omega_h::compose_eigen(q, l);
  for (int k = 0; k < n; ++k)
    if (!comps(apply(a, q[k]), [&](int i) { return l[k] * q[k][i]; })) return false;
  return true;
}
// the metric asking for the smallest element, wherever it is in the list
constexpr bool t_maxdet(int which) {
  Few<Tensor<2>, 3> ms;
  for (int k = 0; k < 3; ++k) {
    ms[k][0][0] = ms[k][1][1] = var(8) + R(k == which ? 3 : 0);
    ms[k][0][1] = ms[k][1][0] = var(k);
  }
  return eq(Omega_h::maxdet_metric(ms), ms[which]);
}

// ---- eigenvalues
template <int n>
constexpr bool e_charpoly() {
  auto a = mat<n, n>();
  R x = var(20);
  auto c = Omega_h::characteristic_polynomial(a);
  Tensor<n> s = a;
  for (int i = 0; i < n; ++i) s[i][i] = x - a[i][i];
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (i != j) s[j][i] = -a[j][i];
  R p(1);
  for (int i = n - 1; i >= 0; --i) p = p * x + c[i];
  return same(p, leibniz(s));
}
constexpr bool e_linear_root() {
  Few<R, 1> c;
  c[0] = var(0);
  auto r = Omega_h::find_polynomial_roots(c);
  return r.n == 1 && r.mults[0] == 1 && same(r.values[0], -var(0));
}
// x^2 - (p+q) x + pq
constexpr bool e_quadratic_roots() {
  R p = var(0), q = var(1);
  Few<R, 2> c;
  c[0] = p * q;
  c[1] = -(p + q);
  auto r = Omega_h::find_polynomial_roots(c);
  return r.n == 2 && r.mults[0] == 1 && r.mults[1] == 1 && ((same(r.values[0], p) && same(r.values[1], q)) || (same(r.values[0], q) && same(r.values[1], p)));
}
constexpr bool e_double_root() {
  R p = var(0);
  Few<R, 2> c;
  c[0] = p * p;
  c[1] = -(p + p);
  auto r = Omega_h::find_polynomial_roots(c);
  return r.n == 1 && r.mults[0] == 2 && same(r.values[0], p);
}
constexpr bool e_no_root() {
  R p = var(8);
  Few<R, 2> c;
  c[0] = p * p;
  c[1] = p;
  return Omega_h::find_polynomial_roots(c).n == 0;
}
// m - l has rank two: its rows are a, b and a combination, in any order
constexpr bool e_vector3(int where) {
  auto a = vec<3>(), b = vec<3>(3);
  R l = var(8), s = var(6), t = var(7);
  Tensor<3> m;
  for (int j = 0; j < 3; ++j) {
    R row[3];
    row[where] = s * a[j] + t * b[j];
    row[(where + 1) % 3] = a[j];
    row[(where + 2) % 3] = b[j];
    for (int i = 0; i < 3; ++i) m[j][i] = row[i] + (i == j ? l : R(0));
  }
  auto v = Omega_h::single_eigenvector(m, l);
  auto mv = apply(m, v);
  return comps(mv, [&](int i) { return l * v[i]; }) && same(dot<3>(v, v), R(1));
}
constexpr bool e_vector2(int where) {
  auto a = vec<2>();
  R l = var(8), s = var(6);
  Tensor<2> m;
  for (int j = 0; j < 2; ++j) {
    R row[2];
    row[where] = s * a[j];
    row[1 - where] = a[j];
    for (int i = 0; i < 2; ++i) m[j][i] = row[i] + (i == j ? l : R(0));
  }
  auto v = Omega_h::single_eigenvector(m, l);
  return comps(apply(m, v), [&](int i) { return l * v[i]; }) && same(dot<2>(v, v), R(1));
}
// symmetric matrix with a double eigenvalue: l + c n n^T
constexpr bool e_vectors3(int sgn) {
  auto n = unit3(0, sgn);
  R l = var(8), c = var(3);
  Tensor<3> m;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) m[j][i] = c * n[i] * n[j] + (i == j ? l : R(0));
  auto d = Omega_h::double_eigenvector(m, l);
  for (int k = 0; k < 2; ++k)
    if (!comps(apply(m, d[k]), [&](int i) { return l * d[k][i]; })) return false;
  return same(dot<3>(d[0], d[1]), R(0)) && same(dot<3>(d[0], d[0]), R(1)) && same(dot<3>(d[1], d[1]), R(1));
}
constexpr bool e_decompose2(bool swap) {
  auto q = rot2(2);
  R l[2] = {var(swap ? 1 : 8), var(swap ? 8 : 1)};
  Tensor<2> m;
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j) m[j][i] = l[0] * at(q, i, 0) * at(q, j, 0) + l[1] * at(q, i, 1) * at(q, j, 1);
  auto d = Omega_h::decompose_eigen(m);
  return is_identity(prod(flip(d.q), d.q)) && entries(m, [&](int i, int j) { return d.l[0] * at(d.q, i, 0) * at(d.q, j, 0) + d.l[1] * at(d.q, i, 1) * at(d.q, j, 1); });
}
template <int n>
constexpr bool e_decompose_multiple() {
  auto d = Omega_h::decompose_eigen(Omega_h::diagonal(Omega_h::fill_vector<n>(var(8))));
  return is_identity(prod(flip(d.q), d.q)) && comps(d.l, [](int) { return var(8); });
}
template <int n>
constexpr bool e_offdiag() {
  auto a = mat<n, n>();
  R s;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (i != j) s = s + at(a, i, j) * at(a, i, j);
  auto l = Omega_h::norm_off_diag(a);
  return same(l * l, s);
}
constexpr bool e_argmax(int p, int q) {
  Tensor<3> a;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) a[j][i] = i == j ? R(100) : R(1);
  a[q][p] = -var(8);
  auto o = Omega_h::arg_max_off_diag(a);
  return o[0] == (p < q ? p : q) && o[1] == (p < q ? q : p);
}
template <int n>
constexpr bool e_givens(int i, int k) {
  R c = var(20), s = var(21);
  auto a = mat<n, n>();
  Tensor<n> g;
  for (int p = 0; p < n; ++p)
    for (int q = 0; q < n; ++q) g[q][p] = R(delta(p, q));
  g[i][i] = c; g[k][k] = c;
  g[k][i] = -s;  // row i, column k
  g[i][k] = s;
  return eq(Omega_h::givens_left(c, s, i, k, a), prod(g, a)) && eq(Omega_h::givens_right(c, s, i, k, a), prod(a, flip(g)));
}
constexpr bool e_givens_pair(int k) {
  R a = var(k & 1 ? 8 : 0), b = var(k & 1 ? 0 : 8);
  if (k & 2) a = -a;
  if (k & 4) b = -b;
  auto g = Omega_h::givens(a, b);
  auto z = Omega_h::givens(a, R(0));
  return same(g.c * g.c + g.s * g.s, R(1)) && same(g.s * a + g.c * b, R(0)) && same(z.c, R(1)) && same(z.s, R(0));
}

// ---- least squares: A = Q R with Q orthogonal and R upper triangular
constexpr Tensor<3> upper(int first, unsigned signs) {
  Tensor<3> r;
  int k = first;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      if (i > j) { r[j][i] = R(0); continue; }
      R x = var(k++);
      if (i == j) { if (x.v < 0) x = -x; if ((signs >> i) & 1) x = -x; }
      r[j][i] = x;
    }
  return r;
}
constexpr bool q_triangular() {
  auto r = upper(0, 0);
  auto b = vec<3>(6);
  return eq(apply(r, Omega_h::solve_upper_triangular(3, r, b)), b);
}
template <int m, int n>
constexpr bool q_solve(unsigned signs) {
  auto q = rot3();
  auto r = upper(0, signs);
  auto a3 = prod(q, r);
  Matrix<m, n> a;
  Vector<m> b;
  for (int i = 0; i < m; ++i) {
    b[i] = var(6 + i);
    for (int j = 0; j < n; ++j) a[j][i] = at(a3, i, j);
  }
  auto x = Omega_h::solve_using_qr(a, b);
  auto ax = apply(a, x);
  for (int j = 0; j < n; ++j) {
    R s;
    for (int i = 0; i < m; ++i) s = s + at(a, i, j) * (ax[i] - b[i]);
    if (!same(s, R(0))) return false;
  }
  return true;
}
// the residual of the reflections: Q^T b and Q x are inverse to each other
constexpr bool q_implicit() {
  Tensor<3> r;
  int e[3][3] = {{2, 1, -3}, {0, 4, 1}, {0, 0, 5}};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r[j][i] = R(e[i][j]);
  auto a = prod(rot3(), r);
  auto f = Omega_h::factorize_qr_householder(3, 3, a);
  auto b = vec<3>(6);
  auto c = Omega_h::implicit_q_trans_b(3, 3, f.v, b);
  Omega_h::implicit_q_x(3, 3, c, f.v);
  if (!eq(c, b)) return false;
  // and Q R is the matrix
  for (int j = 0; j < 3; ++j) {
    Vector<3> col = f.r[j];
    for (int i = j + 1; i < 3; ++i)
      if (!same(col[i], R(0))) return false;
    Omega_h::implicit_q_x(3, 3, col, f.v);
    if (!eq(col, a[j])) return false;
  }
  return true;
}

// ---- rotations and quaternions
constexpr bool r_from_quaternion() {
  // unit quaternion (w, v)
  R s = var(0), t = var(1), u = var(2), d = R(1) + s * s + t * t + u * u;
  Vector<4> q;
  q[0] = (R(1) - s * s - t * t - u * u) / d;
  q[1] = R(2) * s / d; q[2] = R(2) * t / d; q[3] = R(2) * u / d;
  Vector<3> v;
  for (int i = 0; i < 3; ++i) v[i] = q[i + 1];
  auto x = vec<3>(4);
  auto a = curl(v, x), b = curl(v, a);
  return comps(apply(Omega_h::tensor_from_quaternion(q), x), [&](int i) { return x[i] + R(2) * (q[0] * a[i] + b[i]); });
}
// the matrix of p, for p of any length, gives back +-p/|p|; 'big' is the largest component of p
constexpr bool r_to_quaternion(int big, int sgn) {
  R p[4];
  for (int i = 0; i < 4; ++i) p[i] = i == big ? R(sgn) * var(28) : var(20 + i);
  R n;
  for (int i = 0; i < 4; ++i) n = n + p[i] * p[i];
  Tensor<3> m;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      R s = R(2) * p[i + 1] * p[j + 1];
      if (i == j) s = s + p[0] * p[0] - p[1] * p[1] - p[2] * p[2] - p[3] * p[3];
      for (int k = 0; k < 3; ++k)
        if (eps(i, k, j)) s = s + R(2 * eps(i, k, j)) * p[0] * p[k + 1];
      m[j][i] = s / n;
    }
  auto q = Omega_h::quaternion_from_tensor(m);
  // parallel, of unit length
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < i; ++j)
      if (!same(q[i] * p[j], q[j] * p[i])) return false;
  return same(dot<4>(q, q), R(1));
}
template <int n>
constexpr bool r_pack() {
  constexpr int na = n == 3 ? 3 : 1;
  auto s = sym<n>();
  auto w = vec<na>(8);
  auto p = Omega_h::pack_polar(s, w);
  return eq(Omega_h::unpack_polar_spd(p), s) && eq(Omega_h::unpack_polar_axis_angle(p), w);
}
}  // namespace oracle
