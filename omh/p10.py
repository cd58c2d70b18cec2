"""Local topology tables: compile-fail witnesses over every table entry."""
from .core import *
from .witness import compile_asserts, where

LEVEL = "proof"
NEEDS_PROGRAM = False
VARIANTS = []
RULE = ("One static_assert per entry of the downward, upward, opposite, degree and split tables of simplices and "
        "hypercubes, over the whole domain; the oracle is reference geometry and combinatorics, written in witness/p10.hpp.")
TRUSTED = ["g++ 13 constant evaluation", "the reference geometry in witness/p10.hpp"]
HDR = {"S": ("simplex", "src/Omega_h_simplex.hpp"), "H": ("hypercube", "src/Omega_h_hypercube.hpp")}


def nsub(f, d, k):
    from math import comb
    return comb(d + 1, k + 1) if f == "S" else comb(d, k) * 2 ** (d - k)


def obligations():
    A = []

    def add(e, fn, file, what):
        A.append((e, (fn, file), what))
    for f in "SH":
        nm, file = HDR[f]
        for d in range(1, 4):
            for k in range(d):
                fn = nm + "_down_template"
                for b in range(nsub(f, d, k)):
                    a = "%s,%d,%d,%d" % (f, d, k, b)
                    for v in range(nsub(f, k, 0)):
                        add("sane(%s,%d)" % (a, v), fn, file, "vertex %d of %d-entity %d of the %dD element is a vertex of the element" % (v, k, b, d))
                        add("generic_down(%s,%d)" % (a, v), "element_down_template", "src/Omega_h_element.hpp", "agrees with %s for (%d,%d,%d,%d)" % (fn, d, k, b, v))
                    add("is_sub_entity(%s)" % a, fn, file, "%d-entity %d of the %dD element is a face of the reference element" % (k, b, d))
                    add("distinct_sub_entities(%s)" % a, fn, file, "%d-entity %d of the %dD element differs from the others" % (k, b, d))
                    if k == 0:
                        add("down(%s,0) == %d" % (a, b), fn, file, "vertex %d of the %dD element is itself" % (b, d))
                    if k == d - 1 and d >= 2:
                        add("coherent(%s,%d,%d)" % (f, d, b), fn, file, "side %d of the %dD element is oriented coherently with its neighbours" % (b, d))
                        add("outward(%s,%d,%d)" % (f, d, b), fn, file, "side %d of the %dD element points outward" % (b, d))
                    if k < d - 1:
                        n = {("S", 2, 0): 2, ("S", 3, 0): 3, ("S", 3, 1): 2, ("H", 2, 0): 2, ("H", 3, 0): 3, ("H", 3, 1): 2}[(f, d, k)]
                        fu = nm + "_up_template"
                        add("nup(%s) == %d" % (a, n), fn, file, "%d-entity %d of the %dD element has %d neighbours upward" % (k, b, d, n))
                        for u in range(n):
                            add("up_entry(%s,%d)" % (a, u), fu, file, "upward entry %d of %d-entity %d of the %dD element names an entity that contains it at that place and direction" % (u, k, b, d))
                            add("up_distinct(%s,%d)" % (a, u), fu, file, "upward entry %d of %d-entity %d of the %dD element is not listed twice" % (u, k, b, d))
                            add("generic_up(%s,%d)" % (a, u), "element_up_template", "src/Omega_h_element.hpp", "agrees with %s for (%d,%d,%d,%d)" % (fu, d, k, b, u))
                        add("up_ends(%s)" % a, fu, file, "the upward list of %d-entity %d of the %dD element ends" % (k, b, d))
                    if f == "S":
                        add("opposite_ok(%d,%d,%d)" % (d, k, b), "simplex_opposite_template", file, "the entity opposite %d-entity %d of the %dD simplex has the complementary vertices" % (k, b, d))
                        add("opposite_involution(%d,%d,%d)" % (d, k, b), "simplex_opposite_template", file, "opposite of the opposite of %d-entity %d of the %dD simplex is itself" % (k, b, d))
            for k in range(d + 1):
                add("family_degree(%s,%d,%d)" % (f, d, k), nm + "_degree", file, "number of %d-entities of a %dD %s" % (k, d, nm))
                add("generic_degree(%s,%d,%d)" % (f, d, k), "element_degree", "src/Omega_h_element.hpp", "number of %d-entities of a %dD %s" % (k, d, nm))
        add("family_degree(%s,0,0)" % f, nm + "_degree", file, "a vertex has one vertex")
    for b in range(6):
        add("opposite_curls(%d)" % b, "simplex_opposite_template", HDR["S"][1], "the edge opposite edge %d of the tetrahedron curls around it" % b)
    for d in (2, 3):
        for b in range(d + 1):
            add("new_elem_positive(%d,%d)" % (d, b), "flip_new_elem", "src/Omega_h_refine_topology.hpp", "side %d of the %dD simplex joined to its opposite vertex is positively oriented" % (b, d))
    hx = "src/Omega_h_hypercube.hpp"
    for d in range(1, 4):
        for c in range(2 ** d):
            for v in range(2 ** d):
                # 1D: the second vertex of the reference line is corner 1
                add("split_child(%d,%d,%d)" % (d, c, v), "hypercube_split_template", hx, "vertex %d of child %d of a split %dD element is the half-size image of the parent's vertex" % (v, c, d))
        for cd in range(d + 1):
            add("split_count(%d,%d)" % (d, cd), "hypercube_split_degree", hx, "number of %dD children of a split %dD element" % (cd, d))
        for cd in range(d):
            for c in range(nsub("H", d, d - cd)):
                add("split_interior(%d,%d,%d)" % (d, cd, c), "hypercube_split_template", hx, "interior %dD child %d of a split %dD element joins its dual boundary entity to the centre" % (cd, c, d))
    el = "src/Omega_h_element.hpp"
    for f, fam, names in (("S", "OMEGA_H_SIMPLEX", ("vertex", "edge", "triangle", "tet")), ("H", "OMEGA_H_HYPERCUBE", ("vertex", "edge", "quad", "hex"))):
        for d, s in enumerate(names):
            add('str_eq(topological_singular_name(%s,%d),"%s")' % (fam, d, s), "topological_singular_name", el, "name of a %dD element" % d)
    return A


def check(P):
    R = Result()
    A = obligations()
    R.counts["obligations"] = len(A)
    R.counts["table functions"] = len(set(k for _, k, _ in A))
    R.samples = ["%s: %s" % (k[0], t) for _, k, t in A[:: max(1, len(A) // 10)]]
    for e, (fn, file), t in compile_asserts("p10.hpp", A):
        R.bad("topology", "%s|%s" % (fn, e), where(fn, file), "%s: not true that %s  [%s]" % (fn, t, e))
    return R
