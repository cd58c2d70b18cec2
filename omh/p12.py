"""Edge-swap tables: compile-fail witnesses over every configuration."""
from math import comb
from .core import *
from .witness import compile_asserts, where

LEVEL = "proof"
NEEDS_PROGRAM = False
VARIANTS = []
RULE = ("One static_assert per listed triangle, configuration and interior edge of the hard-coded polygon triangulations "
        "(3 to 7 sides): every configuration tiles the polygon, none is missing or repeated, and its interior edges are its diagonals.")
TRUSTED = ["g++ 13 constant evaluation", "the combinatorics in witness/p12.hpp"]
F = "src/Omega_h_swap3d_tables.hpp"


def obligations():
    A = []

    def add(e, fn, what):
        A.append((e, (fn, F), what))
    add("limits()", "MAX_EDGE_SWAP", "cache sizes hold the largest table")
    for n in range(0, 8):
        add("sizes(%d)" % n, "swap_mesh_sizes", "numbers of triangles, configurations and interior edges for %d sides" % n)
    for n in range(3, 8):
        nm = comb(2 * (n - 2), n - 2) // (n - 1)
        for t in range(comb(n, 3)):
            add("tri_ok(%d,%d)" % (n, t), "triangles_%d" % n, "triangle %d of the %d-gon keeps the polygon's direction" % (t, n))
            add("tri_once(%d,%d)" % (n, t), "triangles_%d" % n, "triangle %d of the %d-gon is listed once" % (t, n))
        for m in range(nm):
            for g, t in (("mesh_in_range", "names listed triangles, each once"), ("mesh_tiles", "tiles the polygon"), ("mesh_distinct", "differs from the earlier ones")):
                add("%s(%d,%d)" % (g, n, m), "meshes_%d" % n, "configuration %d of the %d-gon %s" % (m, n, t))
            for e in range(n - 3):
                add("edge_ok(%d,%d,%d)" % (n, m, e), "edges2unique_%d_%d" % (n, m), "interior edge %d of configuration %d of the %d-gon is one of its diagonals" % (e, m, n))
    return A


def check(P):
    R = Result()
    A = obligations()
    R.counts["obligations"] = len(A)
    R.counts["tables"] = len(set(k for _, k, _ in A))
    R.samples = ["%s: %s" % (k[0], t) for _, k, t in A[:: max(1, len(A) // 10)]]
    for e, (fn, file), t in compile_asserts("p12.hpp", A):
        R.bad("swap-table", "%s|%s" % (fn, e), where(fn, file), "%s: not true that %s  [%s]" % (fn, t, e))
    return R
