// Rational functions over the integers, times the square root of one, as a literal type.
// The repository's headers are compiled with Real standing for this type, so a static_assert
// on an expression of theirs is an identity between formulas, true for every argument.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cfloat>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iosfwd>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#ifdef OMH_WITH_MPI
#include <mpi.h>
#endif
#if __has_include(<mpi.h>)
#include <mpi.h>
#endif

namespace oracle {

using Co = long long;
using U64 = unsigned long long;
struct Key {
  U64 w[4];  // 32 variables, 8 bits of exponent each
  friend constexpr bool operator==(Key const& x, Key const& y) { return x.w[0] == y.w[0] && x.w[1] == y.w[1] && x.w[2] == y.w[2] && x.w[3] == y.w[3]; }
  friend constexpr bool operator<(Key const& x, Key const& y) {
    for (int i = 0; i < 3; ++i)
      if (x.w[i] != y.w[i]) return x.w[i] < y.w[i];
    return x.w[3] < y.w[3];
  }
};
constexpr Key operator+(Key const& x, Key const& y) {
  Key r{};
  for (int i = 0; i < 4; ++i) {
    if ((x.w[i] | y.w[i]) & 0x8080808080808080ull) throw "exponent";
    r.w[i] = x.w[i] + y.w[i];
  }
  return r;
}
constexpr Key KEY0{{0, 0, 0, 0}};
struct Term {
  Key k;
  Co c;
};
constexpr Co mulc(Co a, Co b) {
  Co r = 0;
  if (__builtin_mul_overflow(a, b, &r)) throw "coefficient";
  return r;
}
constexpr Co addc(Co a, Co b) {
  Co r = 0;
  if (__builtin_add_overflow(a, b, &r)) throw "coefficient";
  return r;
}
constexpr Co gcdc(Co a, Co b) {
  if (a < 0) a = -a;
  if (b < 0) b = -b;
  while (b) { Co t = a % b; a = b; b = t; }
  return a;
}

// sorted list of terms
constexpr int CAP = 720;
struct Poly {
  Co c0 = 0;              // the constant term
  int n = 0;
  Term t[CAP] = {};       // the other terms, sorted by key
  constexpr Poly() {}
  constexpr Poly(Co c) : c0(c) {}
  constexpr Poly(Poly const& o) : c0(o.c0), n(o.n) {
    for (int i = 0; i < n; ++i) t[i] = o.t[i];
  }
  constexpr Poly& operator=(Poly const& o) {
    c0 = o.c0;
    n = o.n;
    for (int i = 0; i < n; ++i) t[i] = o.t[i];
    return *this;
  }
  constexpr bool zero() const { return n == 0 && c0 == 0; }
  constexpr bool constant() const { return n == 0; }
  constexpr void push(Term z) {
    if (n == CAP) throw "too many terms";
    t[n++] = z;
  }
};
constexpr bool operator==(Poly const& a, Poly const& b) {
  if (a.c0 != b.c0 || a.n != b.n) return false;
  for (int i = 0; i < a.n; ++i)
    if (!(a.t[i].k == b.t[i].k) || a.t[i].c != b.t[i].c) return false;
  return true;
}
constexpr Poly lin(Poly const& a, Co x, Poly const& b, Co y) {
  Poly r(addc(mulc(a.c0, x), mulc(b.c0, y)));
  {
    int i = 0, j = 0;
    while (i < a.n || j < b.n) {
      Term z;
      if (j == b.n || (i < a.n && a.t[i].k < b.t[j].k)) { z = a.t[i++]; z.c = mulc(z.c, x); }
      else if (i == a.n || b.t[j].k < a.t[i].k) { z = b.t[j++]; z.c = mulc(z.c, y); }
      else { z = a.t[i]; z.c = addc(mulc(a.t[i].c, x), mulc(b.t[j].c, y)); ++i; ++j; }
      if (z.c) r.push(z);
    }
  }
  return r;
}
constexpr Poly operator+(Poly const& a, Poly const& b) { return lin(a, 1, b, 1); }
constexpr Poly operator-(Poly const& a, Poly const& b) { return lin(a, 1, b, -1); }
constexpr Poly operator-(Poly const& a) { return lin(a, -1, Poly(), 0); }
constexpr Poly scale(Poly const& a, Co x) { return x ? lin(a, x, Poly(), 0) : Poly(); }
constexpr Poly operator*(Poly const& a, Poly const& b) {
  if (a.constant()) return scale(b, a.c0);
  if (b.constant()) return scale(a, b.c0);
  int na = a.n + (a.c0 != 0), nb = b.n + (b.c0 != 0), m = 0;
  Term* w = new Term[na * nb];
  for (int i = 0; i < na; ++i)
    for (int j = 0; j < nb; ++j) {
      Term x = i < a.n ? a.t[i] : Term{KEY0, a.c0};
      Term y = j < b.n ? b.t[j] : Term{KEY0, b.c0};
      w[m++] = {x.k + y.k, mulc(x.c, y.c)};
    }
  std::sort(w, w + m, [](Term const& x, Term const& y) { return x.k < y.k; });
  Poly r;
  for (int i = 0; i < m;) {
    Term z = w[i++];
    while (i < m && w[i].k == z.k) z.c = addc(z.c, w[i++].c);
    if (z.k == KEY0) r.c0 = z.c;
    else if (z.c) r.push(z);
  }
  delete[] w;
  return r;
}
constexpr Co content(Poly const& a) {
  Co g = gcdc(a.c0, 0);
  for (int i = 0; i < a.n; ++i) g = gcdc(g, a.t[i].c);
  return g;
}
constexpr Poly divc(Poly a, Co g) {
  a.c0 /= g;
  for (int i = 0; i < a.n; ++i) a.t[i].c /= g;
  return a;
}

constexpr bool half(Key const& a, Key& h) {
  for (int i = 0; i < 4; ++i) {
    h.w[i] = (a.w[i] >> 1) & 0x7f7f7f7f7f7f7f7full;
    if (h.w[i] * 2 != a.w[i]) return false;
  }
  return true;
}
constexpr bool subk(Key const& a, Key const& b, Key& r) {
  for (int i = 0; i < 4; ++i) {
    if (a.w[i] != b.w[i])
      for (int j = 0; j < 8; ++j)
        if (((a.w[i] >> (8 * j)) & 255) < ((b.w[i] >> (8 * j)) & 255)) return false;
    r.w[i] = a.w[i] - b.w[i];
  }
  return true;
}
constexpr Term lead(Poly const& p) { return p.n ? p.t[p.n - 1] : Term{KEY0, p.c0}; }
constexpr Poly mono(Term z) {
  Poly r;
  if (z.k == KEY0) r.c0 = z.c;
  else r.push(z);
  return r;
}
// q with q * b == a, if there is one
constexpr bool divides(Poly const& b, Poly const& a, Poly& q) {
  q = Poly();
  if (b.constant()) return false;
  Term f = lead(b), z{};
  Poly rem = a;
  while (!rem.zero()) {
    Term l = lead(rem);
    if (l.c % f.c || !subk(l.k, f.k, z.k)) return false;
    z.c = l.c / f.c;
    Poly m = mono(z);
    q = q + m;
    rem = rem - b * m;
  }
  return true;
}
constexpr void cancel(Poly& n, Poly& d) {
  Poly k;
  if (divides(d, n, k)) { n = k; d = Poly(1); }
  else if (divides(n, d, k)) { d = k; n = Poly(1); }
}
struct Rat {
  Poly n, d{1}, q{1};   // n / d * sqrt(q)
  double v = 0;         // the value at the sample point, which decides comparisons
  constexpr Rat() {}
  template <class T, class = std::enable_if_t<std::is_arithmetic_v<T>>>
  constexpr Rat(T x) : v(static_cast<double>(x)) {
    if constexpr (std::is_integral_v<T>) n = Poly(static_cast<Co>(x));
    else {
      double y = static_cast<double>(x);
      Co den = 1;
      if (!(y > -9e15 && y < 9e15)) { n = Poly(1); d = Poly(0); return; }   // infinite: only compared
      while (y != static_cast<double>(static_cast<Co>(y)) && den < (Co(1) << 40)) { y *= 2; den *= 2; }
      n = Poly(static_cast<Co>(y));
      d = Poly(den);
      if (y != static_cast<double>(static_cast<Co>(y))) d = Poly(0);        // not exact: only compared
      else norm();
    }
  }
  constexpr void norm() {
    if (n.zero()) { d = Poly(1); q = Poly(1); return; }
    Co g = gcdc(content(n), content(d));
    if (g == 0) return;
    Co lead = d.n ? d.t[d.n - 1].c : d.c0;
    if (lead < 0) g = -g;
    if (g != 1) { n = divc(n, g); d = divc(d, g); }
  }
  template <class T, class = std::enable_if_t<std::is_arithmetic_v<T>>>
  explicit constexpr operator T() const { return static_cast<T>(v); }
};
// the sample point: one value per variable
constexpr double SAMPLE[32] = {1.533177, 2.265489, -0.709528, 3.066653, 0.504997, -1.242505, 2.084041, 1.804862, 4.509693, 0.662474, 2.809658, -1.494004, 1.176964, 0.896985, 3.503897, -1.991106, 0.419469, 2.542870, 1.257195, -0.475317, 0.409293, 0.306460, -0.256530, 0.106096, 2.209641, -1.692041, 3.262691, 0.772884, 5.064555, -2.435745, 0.6, 0.8};
constexpr double value(Poly const& p) {
  double s = static_cast<double>(p.c0);
  for (int i = 0; i < p.n; ++i) {
    double m = static_cast<double>(p.t[i].c);
    for (int j = 0; j < 32; ++j) {
      int e = static_cast<int>((p.t[i].k.w[j / 8] >> (8 * (j % 8))) & 255);
      for (; e; --e) m *= SAMPLE[j];
    }
    s += m;
  }
  return s;
}
constexpr bool exact(Rat const& a) { return !a.d.zero(); }
constexpr Rat make(Poly n, Poly d, Poly q, double v) {
  Rat r;
  r.n = n; r.d = d; r.q = q; r.v = v;
  if (!d.zero()) r.norm();
  return r;
}
constexpr Rat var(int i) {
  double v = SAMPLE[i];
  Rat r;
  r.n.n = 1;
  r.n.t[0].k.w[i / 8] = 1ull << (8 * (i % 8));
  r.n.t[0].c = 1;
  r.v = v;
  return r;
}
// a value without a formula: fit for comparisons, never for an identity
constexpr Rat only(double v) {
  Rat r;
  r.d = Poly(0);
  r.v = v;
  return r;
}
constexpr Rat operator-(Rat const& a) { return !exact(a) ? only(-a.v) : make(-a.n, a.d, a.q, -a.v); }
constexpr Rat addsub(Rat const& a, Rat const& b, Co s) {
  double v = a.v + static_cast<double>(s) * b.v;
  if (exact(a) && a.n.zero()) return s < 0 ? -b : b;
  if (exact(b) && b.n.zero()) return a;
  if (!exact(a) || !exact(b)) return only(v);
  if (!(a.q == b.q)) throw "sum of different roots";
  if (a.d == b.d) { Poly n = lin(a.n, 1, b.n, s), d = a.d; cancel(n, d); return make(n, d, a.q, v); }
  if (a.d.constant() && b.d.constant()) {
    Co g = gcdc(a.d.c0, b.d.c0);
    return make(lin(a.n, b.d.c0 / g, b.n, mulc(s, a.d.c0 / g)), Poly(mulc(a.d.c0 / g, b.d.c0)), a.q, v);
  }
  Poly k;
  if (divides(a.d, b.d, k)) return make(lin(a.n * k, 1, b.n, s), b.d, a.q, v);
  if (divides(b.d, a.d, k)) return make(lin(a.n, 1, b.n * k, s), a.d, a.q, v);
  return make(lin(a.n * b.d, 1, b.n * a.d, s), a.d * b.d, a.q, v);
}
constexpr Rat operator+(Rat const& a, Rat const& b) { return addsub(a, b, 1); }
constexpr Rat operator-(Rat const& a, Rat const& b) { return addsub(a, b, -1); }
constexpr Rat operator*(Rat const& a, Rat const& b) {
  double v = a.v * b.v;
  if ((exact(a) && a.n.zero()) || (exact(b) && b.n.zero())) return Rat();
  if (!exact(a) || !exact(b)) return only(v);
  Poly n1 = a.n, d1 = a.d, n2 = b.n, d2 = b.d;
  cancel(n1, d2);
  cancel(n2, d1);
  if (a.q == b.q) return make(n1 * n2 * a.q, d1 * d2, Poly(1), v);
  return make(n1 * n2, d1 * d2, a.q * b.q, v);
}
constexpr Rat inv(Rat const& b) {
  if (!exact(b)) return only(1.0 / b.v);
  if (b.n.zero()) throw "division by zero";
  return make(b.d, b.n * b.q, b.q, 1.0 / b.v);
}
constexpr Rat operator/(Rat const& a, Rat const& b) {
  if (exact(a) && exact(b) && a.q == b.q && !b.n.zero() && !a.n.zero()) {
    // the roots cancel
    Rat x = a, y = b;
    x.q = Poly(1);
    y.q = Poly(1);
    Rat r = x * inv(y);
    r.v = a.v / b.v;
    return r;
  }
  return a * inv(b);
}
constexpr Rat& operator+=(Rat& a, Rat const& b) { a = a + b; return a; }
constexpr Rat& operator-=(Rat& a, Rat const& b) { a = a - b; return a; }
constexpr Rat& operator*=(Rat& a, Rat const& b) { a = a * b; return a; }
constexpr Rat& operator/=(Rat& a, Rat const& b) { a = a / b; return a; }
// control flow follows the sample point
constexpr bool operator<(Rat const& a, Rat const& b) { return a.v < b.v; }
constexpr bool operator>(Rat const& a, Rat const& b) { return a.v > b.v; }
constexpr bool operator<=(Rat const& a, Rat const& b) { return a.v <= b.v; }
constexpr bool operator>=(Rat const& a, Rat const& b) { return a.v >= b.v; }
constexpr bool operator==(Rat const& a, Rat const& b) { return a.v == b.v; }
constexpr bool operator!=(Rat const& a, Rat const& b) { return a.v != b.v; }

// the identity that is asserted
constexpr bool same(Rat const& a, Rat const& b) {
  if (!exact(a) || !exact(b)) return false;
  if (a.q == b.q) return a.n * b.d == b.n * a.d;
  return a.n * a.n * a.q * b.d * b.d == b.n * b.n * b.q * a.d * a.d && (a.v < 0) == (b.v < 0);
}
constexpr Co isqrt(Co x) {
  Co r = static_cast<Co>(__builtin_sqrt(static_cast<double>(x)));
  while (r * r > x) --r;
  while ((r + 1) * (r + 1) <= x) ++r;
  return r;
}
// r with r * r == p, if there is one
constexpr bool perfect(Poly const& p, Poly& r) {
  r = Poly();
  if (p.zero()) return true;
  Term l = lead(p), z{};
  if (l.c < 0 || isqrt(l.c) * isqrt(l.c) != l.c || !half(l.k, z.k)) return false;
  z.c = isqrt(l.c);
  Term first = z;
  r = mono(z);
  Poly rem = p - r * r;
  while (!rem.zero()) {
    l = lead(rem);
    if (l.c % (2 * first.c) || !subk(l.k, first.k, z.k)) return false;
    z.c = l.c / (2 * first.c);
    if (!(z.k < lead(r).k)) return false;
    Poly m = mono(z);
    rem = rem - (scale(r, 2) + m) * m;
    r = r + m;
  }
  return true;
}
constexpr double value(Rat const& a) { return value(a.n) / value(a.d) * (a.q == Poly(1) ? 1.0 : __builtin_sqrt(value(a.q))); }
constexpr Rat root(Rat const& a) {
  if (!exact(a)) { Rat r = a; r.v = a.v < 0 ? 0 : __builtin_sqrt(a.v); return r; }
  if (!a.q.constant() || a.q.c0 != 1) throw "root of a root";
  double v = a.v < 0 ? 0 : __builtin_sqrt(a.v);
  if (a.n.zero()) return Rat();
  Poly r, nd = a.n * a.d;
  if (perfect(nd, r)) {
    Rat x = make(r, a.d, Poly(1), v);
    // the sign of the root is the one that the sample point gives
    double w = value(x);
    return w < 0 ? make(-x.n, x.d, x.q, v) : x;
  }
  Co g = content(nd), sq = 1;
  for (Co k = 2; k * k <= g && k < 10000; ++k)
    while (g % (k * k) == 0) { g /= k * k; sq *= k; }
  return make(Poly(sq), a.d, divc(nd, mulc(sq, sq)), v);
}
// decimal expansions of the two irrational constants of the library
constexpr Rat real_literal(long double x) {
  Rat a = root(Rat(3)) / Rat(4), v = root(Rat(2)) / Rat(12);
  if (x > 0.4L && x - a.v < 1e-15L && a.v - x < 1e-15L) return a;
  if (x > 0.1L && x - v.v < 1e-15L && v.v - x < 1e-15L) return v;
  return Rat(static_cast<double>(x));
}
constexpr int COS = 30, SIN = 31;   // cosine and sine of the one angle that is ever used
}  // namespace oracle

constexpr oracle::Rat operator""_real(long double x) { return oracle::real_literal(x); }
inline std::ostream& operator<<(std::ostream& o, oracle::Rat const&) { return o; }
inline std::istream& operator>>(std::istream& o, oracle::Rat&) { return o; }

namespace std {
constexpr oracle::Rat sqrt(oracle::Rat const& a) { return oracle::root(a); }
constexpr oracle::Rat abs(oracle::Rat const& a) { return a.v < 0 ? -a : a; }
constexpr oracle::Rat fabs(oracle::Rat const& a) { return a.v < 0 ? -a : a; }
constexpr oracle::Rat copysign(oracle::Rat const& a, oracle::Rat const& b) { return (a.v < 0) == (b.v < 0) ? a : -a; }
constexpr oracle::Rat cos(oracle::Rat const& a) { return oracle::var(oracle::COS); }
constexpr oracle::Rat sin(oracle::Rat const& a) { return oracle::var(oracle::SIN); }
constexpr oracle::Rat cbrt(oracle::Rat const& a) {
  return oracle::only(__builtin_cbrt(a.v));
}
oracle::Rat acos(oracle::Rat const&);
oracle::Rat asin(oracle::Rat const&);
oracle::Rat tan(oracle::Rat const&);
oracle::Rat atan(oracle::Rat const&);
oracle::Rat atan2(oracle::Rat const&, oracle::Rat const&);
oracle::Rat exp(oracle::Rat const&);
oracle::Rat exp2(oracle::Rat const&);
oracle::Rat log(oracle::Rat const&);
oracle::Rat log2(oracle::Rat const&);
constexpr oracle::Rat pow(oracle::Rat const& a, oracle::Rat const& b) {
  oracle::Rat r(1);
  int n = static_cast<int>(b.v < 0 ? -b.v : b.v);
  if (static_cast<double>(n) != (b.v < 0 ? -b.v : b.v)) throw "power";
  for (int i = 0; i < n; ++i) r = r * a;
  return b.v < 0 ? oracle::inv(r) : r;
}
constexpr oracle::Rat hypot(oracle::Rat const& a, oracle::Rat const& b) { return sqrt(a * a + b * b); }
constexpr oracle::Rat fma(oracle::Rat const& a, oracle::Rat const& b, oracle::Rat const& c) { return a * b + c; }
oracle::Rat floor(oracle::Rat const&);
oracle::Rat ceil(oracle::Rat const&);
oracle::Rat round(oracle::Rat const&);
oracle::Rat frexp(oracle::Rat const&, int*);
oracle::Rat ldexp(oracle::Rat const&, int);
oracle::Rat fmod(oracle::Rat const&, oracle::Rat const&);
bool isnan(oracle::Rat const&);
bool isfinite(oracle::Rat const&);
constexpr bool signbit(oracle::Rat const& a) { return a.v < 0; }
}  // namespace std
