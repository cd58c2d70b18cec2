"""Simplex geometry and simplex clipping: identities between formulas, true for all real arguments."""
from .core import *
from .witness import compile_asserts, where_in

LEVEL = "proof"
NEEDS_PROGRAM = False
VARIANTS = []
HEADERS = ["src/Omega_h_shape.hpp", "src/Omega_h_quality.hpp", "src/Omega_h_r3d.hpp", "src/r3d.hpp", "src/Omega_h_metric.hpp"]
RULE = ("The repository's element-shape, quality and clipping headers are compiled with Real standing for an exact rational function times one square root; "
        "each static_assert equates a function's result with the geometric definition (Gram determinants, exact differences, divided differences) "
        "for symbolic vertices, one sign pattern of the clipping function at a time.")
TRUSTED = ["g++ 13 constant evaluation", "the exact arithmetic in witness/rat.hpp and the definitions in witness/p14.hpp",
           "r3d's byte-array container is replaced by a plain array of the same interface",
           "branches on real values are taken as at one generic sample point per sign pattern"]

G = {
    "g_basis": ("simplex_basis", "the basis holds the edge vectors from the first vertex"),
    "g_size": ("real_simplex_size", "the size is the (signed) determinant over the factorial, or the root of the Gram determinant"),
    "g_size1": ("real_simplex_size", "the size of a 1D edge is its length"),
    "g_form_barycentric": ("form_barycentric", "barycentric coordinates sum to one"),
    "g_barycentric": ("barycentric_from_global", "barycentric coordinates reproduce the nearest point of the simplex"),
    "g_inside": ("is_barycentric_inside", "a point is inside exactly when every coordinate lies in [0,1]"),
    "g_plane": ("distance", "distances are signed by the normal; normalising keeps the plane"),
    "g_edges": ("element_edge_vectors", "the edge vectors are those of the edge table, up to direction"),
    "g_mean_square": ("mean_squared_metric_length", "the mean squared length averages v^T M v over the edges"),
    "g_implied": ("element_implied_metric", "every edge has length one in the implied metric"),
    "g_edge_length": ("metric_edge_length", "with one metric at both ends an edge's length is the root of v^T M v"),
    "g_normal": ("get_side_vector", "the normal of a triangle is the cross product of its edges"),
    "g_side": ("get_side_vector", "side vectors point outwards, orthogonal to the side, with the side's size"),
    "g_side1": ("get_side_vector", "1D side vectors point outwards"),
    "g_gradient": ("get_size_gradient", "the size gradient is the exact derivative of the size by each vertex"),
    "g_circumcenter": ("get_circumcenter_vector", "the circumcentre is equally far from all vertices, in their plane"),
    "g_inball": ("get_inball", "the inball touches every side from within"),
    "g_metric_size": ("metric_size", "the metric size scales the size by the root of det M"),
    "g_iso_size": ("metric_size", "an isotropic metric scales the size by its root to the dimension"),
    "g_equilateral": ("equilateral_simplex_size", "the equilateral sizes are those of unit edges"),
    "g_affine": ("simplex_affine", "the affine map takes reference vertices to vertices"),
    "g_mean_ratio2": ("mean_ratio", "the 1D and 2D mean ratios are size over mean squared length, one for the equilateral"),
    "g_mean_ratio3": ("mean_ratio", "the 3D mean ratio is one for the equilateral"),
    "g_quality2": ("metric_element_quality", "2D quality is the metric mean ratio, negative for inverted triangles"),
    "g_quality3": ("metric_element_quality", "3D quality is the metric mean ratio, negative for inverted tetrahedra"),
    "c_convert": ("to_r3d", "points pass to the clipping library and back unchanged"),
    "c_measure": ("measure", "the measure of a simplex is its size"),
    "c_faces": ("faces_from_verts", "the planes of a simplex contain its sides and face inwards"),
    "c_clip": ("clip", "what a plane leaves of the simplex has the size of the positive part"),
    "c_slab": ("clip", "two parallel planes leave the difference of the positive parts"),
    "c_moment": ("reduce", "the first moments of a clipped simplex integrate the clipping function"),
    "c_moments_simplex": ("reduce", "moments up to degree two of any simplex"),
    "c_empty": ("measure", "nothing is left, and measured, on the wrong side of a plane"),
    "c_full": ("clip", "a plane that misses the simplex leaves all of it"),
    "c_shifted": ("intersect_simplices", "a simplex and its translate share the smaller simplex between them"),
    "c_symmetric": ("intersect_simplices", "intersection is symmetric, and the pieces cut off add up to the rest"),
    "c_nested": ("intersect_simplices", "a nested simplex is the whole intersection; with itself a simplex shares all"),
}
HEAVY = {"c_moment": 4, "g_quality2": 3, "c_clip": 1.5, "c_slab": 2, "c_symmetric": 2, "g_inball": 2, "g_barycentric": 2, "c_nested": 1.5, "g_mean_square": 2}


def obligations():
    A = []

    def add(g, tmpl=(), args=()):
        e = g + ("<%s>" % ",".join(map(str, tmpl)) if tmpl else "") + "(%s)" % ",".join(map(str, args))
        A.append((e, (G[g][0],), G[g][1] + (" (%s)" % "D, ".join(map(str, tmpl)) + "D" if tmpl else ""), HEAVY.get(g, 0.5)))
    for s, e in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3)):
        add("g_basis", (s, e))
        if (s, e) != (1, 1):
            add("g_size", (s, e))
        add("g_barycentric", (s, e))
    for g in "g_size1 g_normal g_side1 g_circumcenter g_equilateral g_mean_ratio2 g_mean_ratio3 g_quality3".split():
        add(g)
    for g in "g_form_barycentric g_plane g_edge_length g_metric_size g_iso_size g_affine c_convert c_measure c_faces c_empty c_full c_nested".split():
        for d in (1, 2, 3):
            add(g, (d,))
    for g in "g_mean_square g_inball".split():
        for d in (1, 2, 3):
            add(g, (d,))
    for d in (1, 2):
        add("g_implied", (d,))
        add("g_edges", (d + 1,))
    for d in (1, 2, 3):
        add("g_inside", (d + 1,))
    for d in (2, 3):
        for v in range(d + 1):
            add("g_side", (d,), (v,))
            add("g_gradient", (d,), (v,))
        add("c_moments_simplex", (d,))
        for k in range(3):
            add("c_symmetric", (d,), (k,))
    add("g_quality2", (), (0,))
    add("g_quality2", (), (1,))
    for d in (1, 2, 3):
        for s in range(1, 2 ** (d + 1) - 1):
            add("c_clip", (d,), (s,))
            if d == 2 or d == 3 and bin(s).count("1") in (1, 3):
                add("c_moment", (d,), (s,))
            if d > 1:
                add("c_slab", (d,), (s,))
        for k in (0, 1, 2, 5, 9, 20):
            add("c_shifted", (d,), (k,))
    return A


def check(P):
    R = Result()
    A = obligations()
    R.counts["obligations"] = len(A)
    R.counts["identities"] = len(set(e.split("<")[0].split("(")[0] for e, _, _, _ in A))
    R.counts["functions pinned down"] = len(set(k[0] for _, k, _, _ in A))
    R.samples = ["%s: %s" % (k[0], t) for _, k, t, _ in A[:: max(1, len(A) // 10)]]
    for e, (fn,), t in compile_asserts("p14.hpp", A, rewrite=True):
        R.bad("geometry", "%s|%s" % (fn, e), where_in(fn, HEADERS), "%s: not true that %s  [%s]" % (fn, t, e))
    return R
