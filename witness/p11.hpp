// Oracle for alignment codes: a code is a permutation of an entity's vertices (a rotation
// followed by an optional flip); everything else is derived from how permutations compose.
namespace oracle {
using namespace Omega_h;
struct A8 {
  int v[8]{};
  constexpr int& operator[](int i) { return v[i]; }
  constexpr int operator[](int i) const { return v[i]; }
};
constexpr bool canon_code(int n, int c) {   // codes that name a permutation of n vertices
  return code_rotation(I8(c)) < n && !(n == 2 && code_is_flipped(I8(c)));
}
constexpr bool fields(int f, int r, int w) {
  I8 c = make_code(f != 0, r, w);
  return code_is_flipped(c) == (f != 0) && code_rotation(c) == r && code_which_down(c) == w && c >= 0;
}
constexpr bool amr_fields(int child, int pd) {
  I8 c = amr::make_code(child, pd);
  return c >= 0 && amr::code_which_child(c) == child && amr::code_parent_dim(c) == pd;
}
// rotation moves vertex j up, the flip keeps the first vertex and reverses the others
constexpr int perm(int n, int f, int r, int j) {
  int k = (j + r) % n;
  return f && k ? n - k : k;
}
constexpr bool vert_ok(int n, int f, int r, int j) { return align_vert_index(n, j, make_code(f != 0, r, 0)) == perm(n, f, r, j); }
// edge j of a polygon joins its vertices j and j+1
constexpr bool edge_ok(int n, int f, int r, int j) {
  I8 c = make_code(f != 0, r, 0);
  int k = align_edge_index(n, j, c);
  if (k < 0 || k >= n) return false;
  int a = perm(n, f, r, j), b = perm(n, f, r, (j + 1) % n), p = k, q = (k + 1) % n;
  return f ? (a == q && b == p) : (a == p && b == q);
}
constexpr bool generic_ok(int n, int f, int r, int j) {
  I8 c = make_code(f != 0, r, 0);
  return align_index(n, 0, j, c) == align_vert_index(n, j, c) && align_index(n, 1, j, c) == align_edge_index(n, j, c);
}
// which_down bits do not disturb the permutation
constexpr bool which_down_ignored(int n, int f, int r, int j) {
  for (int w = 0; w < 12; ++w)
    if (align_vert_index(n, j, make_code(f != 0, r, w)) != perm(n, f, r, j)) return false;
  return true;
}
template <int n>
constexpr bool adj_ok(int f, int r, int j) {
  A8 in, out;
  for (int i = 0; i < n; ++i) in[1 + i] = 10 + i;
  align_adj<n>(make_code(f != 0, r, 5), in, 1, out, 2);
  return out[2 + perm(n, f, r, j)] == 10 + j && out[0] == 0 && out[1] == 0;
}
template <int n>
constexpr bool rotate_ok(int r, int j) {
  A8 in, out;
  for (int i = 0; i < n; ++i) in[i] = 10 + i;
  rotate_adj<n>(r, in, 0, out, 0);
  return out[(j + r) % n] == 10 + j;
}
template <int n>
constexpr bool flip_ok() {
  A8 a;
  for (int i = 0; i < n; ++i) a[1 + i] = 10 + i;
  flip_adj<n>(a, 1);
  for (int i = 0; i < n; ++i)
    if (a[1 + (i && n > 2 ? n - i : i)] != 10 + i) return false;
  return a[0] == 0 && a[n + 1] == 0;
}
constexpr bool invert_ok(int n, int f, int r, int j) {
  I8 c = make_code(f != 0, r, 0), d = invert_alignment(n, c);
  return d >= 0 && align_vert_index(n, align_vert_index(n, j, c), d) == j && align_vert_index(n, align_vert_index(n, j, d), c) == j;
}
constexpr bool invert_rot(int n, int r, int j) {
  int i = invert_rotation(n, r);
  return i >= 0 && i < n && rotate_index(n, rotate_index(n, j, r), i) == j;
}
constexpr bool first_ok(int n, int j) { return rotate_index(n, j, rotation_to_first(n, j)) == 0; }
template <int n>
constexpr bool compound_ok(int f, int r, int g, int s) {
  I8 a = make_code(f != 0, r, 0), b = make_code(g != 0, s, 0), c = compound_alignments<n>(a, b);
  for (int j = 0; j < n; ++j)
    if (align_vert_index(n, j, c) != align_vert_index(n, align_vert_index(n, j, a), b)) return false;
  return c == compound_alignments(n, a, b) && canon_code(n, c) && code_which_down(c) == 0;
}
// matching an entity against a use of it: the code found carries the entity's vertices to the use's
template <int n>
constexpr bool match_ok(int f, int r) {
  Read<Probe> use, low;
  // the low entity's vertices are 10..; aligned by the code they give the use's
  for (int i = 0; i < n; ++i) low.v[3 + i] = 10 + i;
  for (int i = 0; i < n; ++i) use.v[1 + perm(n, f, r, i)] = 10 + i;
  int wd = -1;
  for (int i = 0; i < n; ++i)
    if (low.v[3 + i] == use.v[1]) wd = i;
  I8 code = -1;
  return IsMatch<n>::eval(use, 1, low, 3, wd, &code) && code == make_code(f != 0, r, 0);
}
// a different vertex anywhere is not a match
template <int n>
constexpr bool mismatch_ok(int f, int r, int w) {
  Read<Probe> use, low;
  for (int i = 0; i < n; ++i) low.v[3 + i] = 10 + i;
  for (int i = 0; i < n; ++i) use.v[1 + perm(n, f, r, i)] = 10 + i;
  int wd = -1;
  for (int i = 0; i < n; ++i)
    if (low.v[3 + i] == use.v[1]) wd = i;
  use.v[1 + w] = 99;
  I8 code = -1;
  return w == 0 || !IsMatch<n>::eval(use, 1, low, 3, wd, &code);
}
// a quad whose opposite corners disagree is not the same quad
constexpr bool quad_twist() {
  Read<Probe> use, low;
  int u[4] = {10, 12, 11, 13};
  for (int i = 0; i < 4; ++i) { low.v[i] = 10 + i; use.v[i] = u[i]; }
  I8 code = -1;
  return !IsMatch<4>::eval(use, 0, low, 0, 0, &code);
}
// canonical order: after rotating the smallest vertex to the front exactly one of an order and
// its mirror image is called flipped
template <int n>
constexpr bool canonical_flip() {
  int a[4] = {1, 2, 3, 4}, b[4] = {1, 2, 3, 4};
  for (int i = 1; i < n; ++i) b[n - i] = a[i];
  if (n == 2) return !IsFlipped<2>::is(a);
  return !IsFlipped<n>::is(a) && IsFlipped<n>::is(b);
}
// collapse codes: two independent bits
constexpr bool collapse_ok(int c, int v) {
  I8 code = I8(c);
  bool l = (c & 1) != 0, r = (c & 2) != 0;
  bool mine = v == 0 ? l : r, other = v == 0 ? r : l;
  if (bool(collapses(code, v)) != mine) return false;
  I8 on = do_collapse(code, v), off = dont_collapse(code, v);
  return collapses(on, v) && !collapses(off, v) && bool(collapses(on, 1 - v)) == other && bool(collapses(off, 1 - v)) == other &&
         on >= 0 && on <= COLLAPSE_BOTH && off >= 0 && off <= COLLAPSE_BOTH;
}
constexpr bool collapse_names() {
  return collapses(COLLAPSE_LEFT, 0) && !collapses(COLLAPSE_LEFT, 1) && collapses(COLLAPSE_RIGHT, 1) && !collapses(COLLAPSE_RIGHT, 0) &&
         collapses(COLLAPSE_BOTH, 0) && collapses(COLLAPSE_BOTH, 1) && !collapses(DONT_COLLAPSE, 0) && !collapses(DONT_COLLAPSE, 1);
}
}  // namespace oracle
