"""Alignment codes: compile-fail witnesses over every code."""
from .core import *
from .witness import compile_asserts, where

LEVEL = "proof"
NEEDS_PROGRAM = False
VARIANTS = []
RULE = ("One static_assert per (number of vertices, alignment code, vertex): encoding, application to vertex lists, vertices and "
        "edges, inversion, composition and recognition of alignments form one consistent permutation group.")
TRUSTED = ["g++ 13 constant evaluation", "the permutation algebra in witness/p11.hpp"]
PRE = """
#include <Omega_h_array.hpp>
struct Probe { int x; };
namespace Omega_h {
template <> class Read<Probe> {
 public:
  int v[8]{};
  constexpr int operator[](int i) const { return v[i]; }
};
}
#include "Omega_h_adj.cpp"
#include <Omega_h_collapse.hpp>
"""
AL, AD, CO, AM = "src/Omega_h_align.hpp", "src/Omega_h_adj.cpp", "src/Omega_h_collapse.hpp", "src/Omega_h_amr.hpp"


def obligations():
    A = []

    def add(e, fn, file, what):
        A.append((e, (fn, file), what))
    for f in (0, 1):
        for r in range(4):
            for w in range(12):
                add("fields(%d,%d,%d)" % (f, r, w), "make_code", AL, "code(flip=%d, rotation=%d, which=%d) gives back its parts" % (f, r, w))
    for pd in range(4):
        for c in range(12):
            add("amr_fields(%d,%d)" % (c, pd), "make_code", AM, "refinement code(child=%d, parent dimension=%d) gives back its parts" % (c, pd))
    for n in (2, 3, 4):
        perms = [(f, r) for f in ((0, 1) if n > 2 else (0,)) for r in range(n)]
        for f, r in perms:
            for j in range(n):
                t = "code(flip=%d, rotation=%d) of %d vertices, index %d" % (f, r, n, j)
                add("vert_ok(%d,%d,%d,%d)" % (n, f, r, j), "align_vert_index", AL, t + ": vertex moves where the permutation sends it")
                if n > 2:
                    add("edge_ok(%d,%d,%d,%d)" % (n, f, r, j), "align_edge_index", AL, t + ": the edge's ends move with the vertices")
                add("generic_ok(%d,%d,%d,%d)" % (n, f, r, j), "align_index", AL, t + ": generic form picks the right one")
                add("which_down_ignored(%d,%d,%d,%d)" % (n, f, r, j), "align_vert_index", AL, t + ": independent of which_down")
                add("adj_ok<%d>(%d,%d,%d)" % (n, f, r, j), "align_adj", AL, t + ": the list form agrees with the index form")
                add("invert_ok(%d,%d,%d,%d)" % (n, f, r, j), "invert_alignment", AL, t + ": inverse undoes it")
            add("match_ok<%d>(%d,%d)" % (n, f, r), "IsMatch", AD, "%d-vertex entity used with flip=%d rotation=%d is recognised with that code" % (n, f, r))
            for w in range(1, n):
                add("mismatch_ok<%d>(%d,%d,%d)" % (n, f, r, w), "IsMatch", AD, "%d-vertex entity with vertex %d replaced is not recognised (flip=%d rotation=%d)" % (n, w, f, r))
        for r in range(n):
            for j in range(n):
                add("rotate_ok<%d>(%d,%d)" % (n, r, j), "rotate_adj", AL, "rotation %d of %d vertices moves vertex %d" % (r, n, j))
                add("invert_rot(%d,%d,%d)" % (n, r, j), "invert_rotation", AL, "rotation %d of %d vertices undone at %d" % (r, n, j))
        for j in range(n):
            add("first_ok(%d,%d)" % (n, j), "rotation_to_first", AL, "brings vertex %d of %d to the front" % (j, n))
        add("flip_ok<%d>()" % n, "flip_adj", AL, "flip of %d vertices keeps the first and reverses the others" % n)
        add("canonical_flip<%d>()" % n, "IsFlipped", AD, "of a %d-vertex order and its mirror image exactly one counts as flipped" % n)
        if n < 4:
            for f, r in perms:
                for g, s in perms:
                    add("compound_ok<%d>(%d,%d,%d,%d)" % (n, f, r, g, s), "compound_alignments", AL, "(%d,%d) then (%d,%d) on %d vertices equals the compound" % (f, r, g, s, n))
    add("quad_twist()", "IsMatch", AD, "a twisted quadrilateral is not the same quadrilateral")
    for c in range(4):
        for v in range(2):
            add("collapse_ok(%d,%d)" % (c, v), "do_collapse", CO, "collapse code %d, end %d: set, clear and test touch that end only" % (c, v))
    add("collapse_names()", "collapses", CO, "named collapse codes mean their ends")
    return A


def check(P):
    R = Result()
    A = obligations()
    R.counts["obligations"] = len(A)
    R.counts["functions"] = len(set(k for _, k, _ in A))
    R.samples = ["%s: %s" % (k[0], t) for _, k, t in A[:: max(1, len(A) // 10)]]
    for e, (fn, file), t in compile_asserts("p11.hpp", A, prelude=PRE):
        R.bad("alignment", "%s|%s" % (fn, e), where(fn, file), "%s: not true that %s  [%s]" % (fn, t, e))
    return R
