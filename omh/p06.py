"""P06: arrays are combined only entity by entity of one set, and indexed only by indices of the set they are over."""
import re
from .core import Result, Broken, walk, strip, strip_casts, show, short
from .dom import *
from . import dom

RULE = ("Every array and every integer of host code and kernels gets an index set (the entities of one dimension of one mesh, the marked members of a set, "
        "the entries of an adjacency, the images of a fan, ...) by type inference; combining arrays over two definite different sets, indexing an array "
        "over one set with an index of another, and storing a field or connectivity on entities it is not over are conflicts.")
ASSUMPTIONS = ["the map, graph, mark and distribution primitives mean what their declared signatures in omh/p06.py say (most are checked against their own bodies)",
               "a set nothing pins down (a local scan, an array handed in from outside) may be any set, so a confusion of two such sets is not seen",
               "different integer parameters of one function are different dimensions unless compared"]

# ---- signatures of the map, graph, mark, mesh and distribution primitives -----------------------------------
# one letter = one index set.  A>B: array over A of indices into B;  A: array over A;  #A: count or index of A;
# A:X>B graph from A to B with edges X;  A=>B downward adjacency;  -: not looked at;  !K in the result: a new set
SIG = {
    "add_into": "A, A>B, B, -",
    "map_into": ["A, A>B, B, -", "A, A:X>B, B, -"],
    "map_value_into": "-, A>B, B",
    "map_onto": ["A, A>B, #B, -, - -> B", "A, A:X>B, #B, -, - -> B"],
    "unmap": ["A>B, B>C, - -> A>C", "A>B, R B -> R A"],
    "expand": ["A>C, A>B, - -> B>C", "expandrem"],
    "expand_into": "A>C, A>B, B>C, -",
    "permute": "A>C, A>B, - -> B>C",
    "multiply_fans": "A>B, A>C -> A>!D",
    "compound_maps": "A>B, B>C -> A>C",
    "invert_permutation": "A>B -> B>A",
    "invert_marks": "A -> A",
    "mark_image": "A>B, #B -> B",
    "inject_map": "A>B, B>A",
    "invert_injective_map": "A>B, #B -> B>A",
    "invert_funnel": "A>B, #B -> B>A",
    "invert_map_by_sorting": "A>B, #B -> B:!X>A",
    "invert_map_by_atomics": "A>B, #B, -, - -> B:!X>A",
    "get_degrees": "A>B, - -> A",
    "invert_fan": "A>B -> B>A",
    "mark_fan_preimage": "A>B -> A",
    "fan_sum": "A>B, B -> A", "fan_max": "A>B, B -> A", "fan_min": "A>B, B -> A",
    "fan_reduce": "A>B, B, -, - -> A",
    "add_edges": "A:X>B, A:Y>B -> A:!Z>B",
    "unmap_graph": "A>B, B:X>C -> A:!Y>C",
    "graph_reduce": "A:X>B, B, -, - -> A",
    "graph_weighted_average_arc_data": "A:X>B, X, X, - -> A",
    "graph_weighted_average": "A:X>B, X, B, - -> A",
    "filter_graph_edges": "A:X>B, X -> A:!Y>B",
    "identity_graph": "#A -> A:A>A",
    "add_self_edges": "A:X>A -> A:!Y>A",
    "array_cast": "A>C -> A>C",
    "get_sum": "-", "get_min": "-", "get_max": "-",
}
for _f in ("each_eq", "add_each", "subtract_each", "gt_each", "lt_each", "eq_each", "neq_each", "min_each", "max_each",
           "multiply_each", "divide_each", "divide_each_maybe_zero", "pow_each", "land_each", "lor_each", "bit_or_each",
           "interpolate_between"):
    SIG[_f] = "A, A, - -> A"
for _f in ("each_eq_to", "each_geq_to", "each_leq_to", "each_gt", "each_lt", "each_neq_to", "multiply_each_by", "divide_each_by",
           "add_to_each", "subtract_from_each", "each_max_with", "bit_neg_each", "fabs_each", "invert_each", "get_component"):
    SIG[_f] = "A, -, - -> A"
SIG["ternary_each"] = "A, A, A -> A"
SIG["set_component"] = "A, A, -, -"


# a permutation's image has the size of its domain: the bodies may size the one by the other
BODY = {"permute": "A>C, A>A, - -> A>C", "invert_permutation": "A>A -> A>A"}


def parse_sig(s):
    a, _, r = s.partition("->") if " -> " in s or s.startswith("->") else (s, "", "")
    return [x.strip() for x in a.split(",")], r.strip()


def build(ev, spec, sets, n):
    def st(x):
        x = x.strip()
        if x.startswith("!"):
            if x not in sets:
                sets[x] = ev.I.sk(n.get("_q", "").split("::")[-1])
            return sets[x]
        if x not in sets:
            sets[x] = S()
        return sets[x]
    if spec in ("", "-"):
        return None
    if spec.startswith("#"):
        return Num(st(spec[1:]))
    if spec.startswith("R "):
        d = st(spec[2:])
        return Rec("Remotes", {"ranks": Arr(d), "idxs": Arr(d)})
    m = re.match(r"^(!?\w+):(!?\w+)>(!?\w+)$", spec)
    if m:
        return Rec("Graph", {"a2ab": Arr(st(m[1]), st(m[2])), "ab2b": Arr(st(m[2]), st(m[3]))})
    if ">" in spec:
        x, y = spec.split(">")
        return Arr(st(x), st(y))
    return Arr(st(spec))


def fits(spec, v):
    if spec in ("-",) or v is None or v is UNINIT:
        return True
    if spec.startswith("R "):
        return isinstance(v, Rec) and v.t == "Remotes"
    if ":" in spec:
        return isinstance(v, Rec) and "ab2b" in v.f
    if spec.startswith("#"):
        return isinstance(v, Num)
    return isinstance(v, Arr)


def sig_handler(name, alts):
    alts = [alts] if isinstance(alts, str) else alts
    parsed = [parse_sig(a) for a in alts if " " in a or a == "-"]

    def h(ev, n, o, av):
        for ps, r in parsed:
            if all(fits(p, v) for p, v in zip(ps, av)):
                sets = {}
                for i, (p, v) in enumerate(zip(ps, av)):
                    f = build(ev, p, sets, n)
                    if f is not None and v is not None:
                        if isinstance(f, Rec) and f.t == "Graph" and isinstance(v, Rec) and "a2ab" not in v.f:
                            # a downward adjacency: fixed width
                            f.f["a2ab"] = Arr(f.f["ab2b"].dom, f.f["ab2b"].dom)
                        ev.unival(f, v, n, "argument %d of %s" % (i + 1, name))
                x = build(ev, r, sets, n)
                return x
        return NotImplemented
    return h


SIGS = {k: sig_handler(k, v) for k, v in SIG.items()}


def sig(*names):
    def d(f):
        for x in names:
            SIGS[x] = f
        return f
    return d


# ---- arrays --------------------------------------------------------------------------------------------------
@sig("Read::size", "Write::size", "HostRead::size", "HostWrite::size")
def _(ev, n, o, av):
    return Num(o.dom) if isinstance(o, Arr) else None


@sig("Read::get", "Read::operator[]", "Write::operator[]", "Write::get", "HostRead::get", "HostWrite::get")
def _(ev, n, o, av):
    return ev.index(o, av[0], n) if isinstance(o, Arr) else None


@sig("Write::set", "HostWrite::set")
def _(ev, n, o, av):
    if isinstance(o, Arr):
        e = ev.index(o, av[0], n)
        if isinstance(av[1], Num) and av[1].s is not None:
            ev.unify(e.s, av[1].s, n, "element of %s" % show(n["o"]))
    return None


@sig("Read::last", "Read::first", "HostRead::last")
def _(ev, n, o, av):
    return Num(o.el) if isinstance(o, Arr) else None


@sig("HostWrite::write", "deep_copy")
def _(ev, n, o, av):
    return o if isinstance(o, Arr) else av[0] if av else None


@sig("Read::exists", "Write::exists", "Read::use_count", "Write::use_count")
def _(ev, n, o, av):
    return PLAIN


@sig("collect_marked")
def _(ev, n, o, av):
    a = av[0]
    if not isinstance(a, Arr):
        return Arr(ev.I.sk("marked"))
    if "marked" not in a.memo:
        a.memo["marked"] = ev.I.sk("marked")
    return Arr(a.memo["marked"], a.dom)


@sig("offset_scan")
def _(ev, n, o, av):
    a = av[0]
    if not isinstance(a, Arr):
        return Arr(None, ev.I.sk("fan"))
    if "scan" not in a.memo:
        a.memo["scan"] = ev.I.sk("fan")
    return Arr(a.dom, a.memo["scan"])


@sig("amr::count_refined")  # one count per dimension
def _(ev, n, o, av):
    return OPAQUE


@sig("map_into_range")
def _(ev, n, o, av):
    return None


@sig("coalesce", "interleave", "unmap_range")
def _(ev, n, o, av):
    return Arr()


@sig("sort_by_keys")
def _(ev, n, o, av):
    return Arr(ev.I.sk("sorted"), av[0].dom) if isinstance(av[0], Arr) else Arr()


@sig("divide_no_remainder")
def _(ev, n, o, av):
    return ev.arith("/", av[0], av[1])


@sig("min2", "max2", "std::min", "std::max")
def _(ev, n, o, av):
    return ev.join(av[0], av[1]) if len(av) == 2 else None


@sig("std::swap", "swap2")
def _(ev, n, o, av):
    return None


@sig("atomic_fetch_add")
def _(ev, n, o, av):
    return PLAIN


@sig("atomic_increment", "atomic_add")
def _(ev, n, o, av):
    return None


# ---- kernels ---------------------------------------------------------------------------------------------------
def kernel_call(ev, n, av, num, fun):
    if isinstance(fun, Fun):
        ev.I.stats["kernels"] += 1
        i = Num(num.s) if isinstance(num, Num) and num.s is not None else Num(S())
        return ev.kernel(fun.n, [i])
    return None


@sig("parallel_for")
def _(ev, n, o, av):
    fun = next((v for v in av if isinstance(v, Fun)), None)
    num = next((v for v in av if isinstance(v, Num)), None)
    kernel_call(ev, n, av, num, fun)
    return None


@sig("parallel_reduce", "parallel_scan")
def _(ev, n, o, av):
    return NotImplemented


@sig("transform_reduce", "transform_inclusive_scan", "for_each")
def _(ev, n, o, av):
    # (first, last, [init, op,] transform): iterators count the set of the last one's bound
    num = next((v for v in reversed(av) if isinstance(v, Num) and v.s is not None), None)
    for v in av:
        if isinstance(v, Fun) and len(v.n.get("ps", [])) == 1:
            ev.kernel(v.n, [Num(num.s) if num else Num(S())])
    return None


@sig("IntIterator")
def _(ev, n, o, av):
    return av[0] if av else None


# ---- mesh ------------------------------------------------------------------------------------------------------
def T(v):
    return v.term if isinstance(v, Num) else None


@sig("Mesh::dim")
def _(ev, n, o, av):
    return Num(None, False, o.dim) if isinstance(o, Mesh) else PLAIN


@sig("Mesh::nents", "Mesh::nents_owned")
def _(ev, n, o, av):
    if not isinstance(o, Mesh):
        return None
    return Num(ev.ent(o, T(av[0]))) if n["_q"].endswith("nents") else None


def _fixed(name, term):
    @sig("Mesh::" + name)
    def _(ev, n, o, av):
        return Num(ev.ent(o, term(o))) if isinstance(o, Mesh) else None


_fixed("nverts", lambda o: (None, 0))
_fixed("nedges", lambda o: (None, 1))
_fixed("nfaces", lambda o: (None, 2))
_fixed("nregions", lambda o: (None, 3))
_fixed("nelems", lambda o: o.dim)


def over(dimf):
    def h(ev, n, o, av):
        return Arr(ev.ent(o, dimf(o, av))) if isinstance(o, Mesh) else None
    return h


for _n, _d in (("coords", lambda o, av: (None, 0)), ("ask_lengths", lambda o, av: (None, 1)), ("ask_qualities", lambda o, av: o.dim),
               ("ask_sizes", lambda o, av: o.dim), ("globals", lambda o, av: T(av[0])), ("owned", lambda o, av: T(av[0])),
               ("ask_levels", lambda o, av: T(av[0])), ("ask_leaves", lambda o, av: T(av[0]))):
    SIGS["Mesh::" + _n] = over(_d)


@sig("Mesh::get_array")
def _(ev, n, o, av):
    if not isinstance(o, Mesh):
        return NotImplemented
    name = strip(n["a"][1])
    while name.get("k") == "ctor" and name.get("a"):
        name = strip(name["a"][0])
    key = None
    if name.get("k") == "str":
        key = (o.key, T(av[0]), name["v"])
        if key in ev.tagarr:
            return ev.tagarr[key]
    a = Arr(ev.ent(o, T(av[0])))
    if key:
        ev.tagarr[key] = a
    return a


@sig("Mesh::add_tag", "Mesh::set_tag")
def _(ev, n, o, av):
    if isinstance(o, Mesh):
        for v in av[2:]:
            if isinstance(v, Arr):
                ev.unify(ev.ent(o, T(av[0])), v.dom, n, "field on dimension %s" % show(n["a"][0]))
                name = strip(n["a"][1])
                while name.get("k") == "ctor" and name.get("a"):
                    name = strip(name["a"][0])
                if name.get("k") == "str":
                    ev.tagarr[(o.key, T(av[0]), name["v"])] = v
    return None


@sig("Mesh::add_coords", "Mesh::set_coords")
def _(ev, n, o, av):
    if isinstance(o, Mesh) and isinstance(av[0], Arr):
        ev.unify(ev.ent(o, (None, 0)), av[0].dom, n, "coordinates")
    return None


@sig("Mesh::set_verts")
def _(ev, n, o, av):
    if isinstance(o, Mesh) and isinstance(av[0], Num) and av[0].s is not None:
        ev.setent(o, (None, 0), av[0].s)
    return None


@sig("Mesh::set_ents")
def _(ev, n, o, av):
    t = T(av[0])
    if isinstance(o, Mesh) and isinstance(av[1], Rec) and "ab2b" in av[1].f:
        if t is not None:
            ev.setent(o, t, av[1].f["ab2b"].dom)
            low = (None, 0) if t == (None, 1) else term_add(t, -1)
            ev.unify(ev.ent(o, low), av[1].f["ab2b"].el, n, "lower entities given to set_ents")
    return None


def down(ev, o, hi, lo, name="Adj"):
    H, L = ev.ent(o, hi), ev.ent(o, lo)
    return Rec(name, {"ab2b": Arr(H, L), "codes": Arr(H)})


def uprec(ev, o, lo, hi, name="Adj"):
    X = ev.up(o, lo, hi)
    return Rec(name, {"a2ab": Arr(ev.ent(o, lo), X), "ab2b": Arr(X, ev.ent(o, hi)), "codes": Arr(X)})


@sig("Mesh::ask_down")
def _(ev, n, o, av):
    return down(ev, o, T(av[0]), T(av[1])) if isinstance(o, Mesh) else None


@sig("Mesh::ask_up")
def _(ev, n, o, av):
    return uprec(ev, o, T(av[0]), T(av[1])) if isinstance(o, Mesh) else None


@sig("Mesh::ask_verts_of")
def _(ev, n, o, av):
    return Arr(ev.ent(o, T(av[0])), ev.ent(o, (None, 0))) if isinstance(o, Mesh) else None


@sig("Mesh::ask_elem_verts")
def _(ev, n, o, av):
    return Arr(ev.ent(o, o.dim), ev.ent(o, (None, 0))) if isinstance(o, Mesh) else None


@sig("Mesh::ask_star")
def _(ev, n, o, av):
    if not isinstance(o, Mesh):
        return None
    t = T(av[0])
    X, E = ev.up(o, ("star", t), t) if t is not None else S(), ev.ent(o, t)
    return Rec("Graph", {"a2ab": Arr(E, X), "ab2b": Arr(X, E)})


@sig("Mesh::ask_dual")
def _(ev, n, o, av):
    if not isinstance(o, Mesh):
        return None
    X, E = ev.up(o, ("dual", 0), o.dim), ev.ent(o, o.dim)
    return Rec("Graph", {"a2ab": Arr(E, X), "ab2b": Arr(X, E)})


@sig("Mesh::ask_graph", "Mesh::get_adj", "Mesh::ask_adj", "Mesh::derive_adj")
def _(ev, n, o, av):
    if not isinstance(o, Mesh):
        return None
    f, t = T(av[0]), T(av[1])
    A, B = ev.ent(o, f), ev.ent(o, t)
    X = S()
    if f is not None and t is not None and f[0] == t[0]:
        X = A if f[1] > t[1] else ev.up(o, f, t)
    return Rec("Graph", {"a2ab": Arr(A, X), "ab2b": Arr(X, B), "codes": Arr(X)})


@sig("Mesh::ask_parents")
def _(ev, n, o, av):
    if not isinstance(o, Mesh):
        return None
    E = ev.ent(o, T(av[0]))
    return Rec("Parents", {"parent_idx": Arr(E), "codes": Arr(E)})


@sig("Mesh::set_parents")
def _(ev, n, o, av):
    if isinstance(o, Mesh) and isinstance(av[1], Rec):
        ev.unify(ev.ent(o, T(av[0])), av[1].f["parent_idx"].dom, n, "parents")
    return None


@sig("Mesh::ask_children")
def _(ev, n, o, av):
    if not isinstance(o, Mesh):
        return None
    X = S()
    return Rec("Children", {"a2ab": Arr(ev.ent(o, T(av[0])), X), "ab2b": Arr(X, ev.ent(o, T(av[1]))), "codes": Arr(X)})


@sig("Mesh::ask_owners")
def _(ev, n, o, av):
    if not isinstance(o, Mesh):
        return None
    E = ev.ent(o, T(av[0]))
    return Rec("Remotes", {"ranks": Arr(E), "idxs": Arr(E, E)})


@sig("Mesh::set_owners")
def _(ev, n, o, av):
    if isinstance(o, Mesh) and isinstance(av[1], Rec):
        E = ev.ent(o, T(av[0]))
        ev.unival(Rec("Remotes", {"ranks": Arr(E), "idxs": Arr(E, E)}), av[1], n, "owners")
    return None


@sig("Mesh::ask_dist")
def _(ev, n, o, av):
    if not isinstance(o, Mesh):
        return None
    E = ev.ent(o, T(av[0]))
    t = T(av[0])
    X = ev.up(o, ("dist", t), t) if t is not None else S()
    return Rec("Dist", {"fr": E, "fi": E, "ri": X, "rr": E})


@sig("Mesh::sync_array", "Mesh::reduce_array", "Mesh::owned_array", "Mesh::isync_array")
def _(ev, n, o, av):
    if not isinstance(o, Mesh):
        return None
    E = ev.ent(o, T(av[0]))
    if isinstance(av[1], Arr):
        ev.unify(E, av[1].dom, n, "array synchronised on dimension %s" % show(n["a"][0]))
        return Arr(E, av[1].el)
    return Arr(E)


@sig("Mesh::sync_subset_array", "Mesh::owned_subset_array")
def _(ev, n, o, av):
    if not isinstance(o, Mesh):
        return None
    E = ev.ent(o, T(av[0]))
    if isinstance(av[1], Arr) and isinstance(av[2], Arr):
        ev.unify(av[1].dom, av[2].dom, n, "subset array and its map")
        ev.unify(av[2].el, E, n, "map of a subset array on dimension %s" % show(n["a"][0]))
    return Arr(av[1].dom if isinstance(av[1], Arr) else None)


@sig("Mesh::copy_meta")
def _(ev, n, o, av):
    return Mesh(ev.I.newkey(), o.dim if isinstance(o, Mesh) else None)


@sig("Mesh::set_parting", "Mesh::balance")
def _(ev, n, o, av):
    ev.rekey(n.get("o"), o)
    return None


# ---- dist ------------------------------------------------------------------------------------------------------
@sig("Dist::exch", "Dist::iexch")
def _(ev, n, o, av):
    if not isinstance(o, Rec):
        return NotImplemented
    if isinstance(av[0], Arr):
        ev.unify(o.f["fr"], av[0].dom, n, "data given to exch")
        return Arr(o.f["ri"], av[0].el)
    if isinstance(av[0], Rec):
        ev.unify(o.f["fr"], av[0].f["ranks"].dom, n, "data given to exch")
        return Rec("Remotes", {"ranks": Arr(o.f["ri"]), "idxs": Arr(o.f["ri"], av[0].f["idxs"].el)})
    return None


@sig("Dist::exch_reduce")
def _(ev, n, o, av):
    if not isinstance(o, Rec) or not isinstance(av[0], Arr):
        return NotImplemented
    ev.unify(o.f["fr"], av[0].dom, n, "data given to exch_reduce")
    return Arr(o.f["rr"], av[0].el)


@sig("Dist::invert")
def _(ev, n, o, av):
    if not isinstance(o, Rec):
        return NotImplemented
    f = o.f
    return Rec("Dist", {"fr": f["rr"], "fi": f["ri"], "ri": f["fi"], "rr": f["fr"]})


@sig("Dist::nitems")
def _(ev, n, o, av):
    return Num(o.f["fi"]) if isinstance(o, Rec) else NotImplemented


@sig("Dist::nroots")
def _(ev, n, o, av):
    return Num(o.f["fr"]) if isinstance(o, Rec) else NotImplemented


@sig("Dist::roots2items")
def _(ev, n, o, av):
    return Arr(o.f["fr"], o.f["fi"]) if isinstance(o, Rec) else NotImplemented


@sig("Dist::items2ranks", "Dist::items2msgs", "Dist::items2content")
def _(ev, n, o, av):
    return Arr(o.f["fi"]) if isinstance(o, Rec) else NotImplemented


@sig("Dist::items2dest_idxs")
def _(ev, n, o, av):
    return Arr(o.f["fi"]) if isinstance(o, Rec) else NotImplemented


@sig("Dist::items2dests")
def _(ev, n, o, av):
    return Rec("Remotes", {"ranks": Arr(o.f["fi"]), "idxs": Arr(o.f["fi"], o.f["rr"])}) if isinstance(o, Rec) else NotImplemented


@sig("Dist::set_dest_ranks")
def _(ev, n, o, av):
    if not isinstance(o, Rec):
        return NotImplemented
    d = av[0].dom if isinstance(av[0], Arr) else S()
    x = ev.I.sk("received items")
    setrec(ev, n, Rec("Dist", {"fr": d, "fi": d, "ri": x, "rr": x}))


@sig("Dist::set_parent_comm", "Dist::change_comm")
def _(ev, n, o, av):
    return None


@sig("reduce_data_to_owners")
def _(ev, n, o, av):
    if isinstance(av[0], Arr) and isinstance(av[1], Rec):
        ev.unify(av[0].dom, av[1].f["fr"], n, "data reduced to owners")
        return Arr(av[1].f["rr"], av[0].el)
    return NotImplemented


@sig("identity_remotes")
def _(ev, n, o, av):
    d = av[1].s if isinstance(av[1], Num) and av[1].s is not None else S()
    return Rec("Remotes", {"ranks": Arr(d), "idxs": Arr(d, d)})


# ---- mesh modification --------------------------------------------------------------------------------------------
@sig("modify_ents_adapt")
def _(ev, n, o, av):
    om, nm, d, kd, k2kd, k2p, pv2v, olow, *outs = av
    if not (isinstance(om, Mesh) and isinstance(nm, Mesh)):
        return NotImplemented
    t, kt = T(d), T(kd)
    P = S()
    if isinstance(olow, Arr):
        ev.unify(olow.dom, ev.ent(om, term_add(t, -1)), n, "map of the lower entities")
        ev.unify(olow.el, ev.ent(nm, term_add(t, -1)), n, "map of the lower entities (elements)")
    if isinstance(k2kd, Arr):
        ev.unify(k2kd.el, ev.ent(om, kt), n, "key entities of modify_ents_adapt")
    if isinstance(k2p, Arr) and isinstance(k2kd, Arr):
        ev.unify(k2kd.dom, k2p.dom, n, "keys and their products")
        P = k2p.el
    if not find(P).rig:
        ev.unify(P, ev.I.sk("products"), n, "products")
    if isinstance(pv2v, Arr):
        ev.unify(pv2v.dom, P, n, "vertices of the products")
        ev.unify(pv2v.el, ev.ent(nm, (None, 0)), n, "vertices of the products")
    new, old = ev.ent(nm, t), ev.ent(om, t)
    same = ev.I.sk("unchanged")
    vals = [Arr(P, new), Arr(same, old), Arr(same, new), Arr(old, new)]
    for v, x in zip(outs, vals):
        if isinstance(v, Ptr):
            v.set(ev, x)
    return None


def _user(old, new, dim, keys, kdim, p2n, so, sn, k2p=None, mids=None, doms=None):
    def h(ev, n, o, av):
        om, nm = (av[old], av[new])
        if not (isinstance(om, Mesh) and isinstance(nm, Mesh)):
            return None
        t = T(av[dim])

        def el(i, m, d, what):
            if i is not None and isinstance(av[i], Arr):
                ev.unify(av[i].el, ev.ent(m, d), n, what)
        el(keys, om, (None, kdim), "keys of the user's transfer")
        if t is not None:
            el(p2n, nm, t, "products of the user's transfer")
            el(so, om, t, "kept old entities of the user's transfer")
            el(sn, nm, t, "kept new entities of the user's transfer")
        el(mids, nm, (None, 0), "midpoint vertices of the user's transfer")
        A = [av[i] for i in (keys, k2p, mids) if i is not None and isinstance(av[i], Arr)]
        for a in A[1:]:
            ev.unify(A[0].dom, a.dom, n, "keys of the user's transfer")
        if isinstance(av[so], Arr) and isinstance(av[sn], Arr):
            ev.unify(av[so].dom, av[sn].dom, n, "kept entities of the user's transfer")
        if k2p is not None and isinstance(av[k2p], Arr) and isinstance(av[p2n], Arr):
            ev.unify(av[k2p].el, av[p2n].dom, n, "products of the user's transfer")
        return None
    return h


sig("UserTransfer::refine")(_user(0, 1, 4, 2, 1, 6, 7, 8, 5, 3))
sig("UserTransfer::coarsen")(_user(0, 1, 4, 2, 0, 5, 6, 7))
sig("UserTransfer::swap")(_user(0, 1, 2, 3, 1, 5, 6, 7, 4))


@sig("modify_ents")
def _(ev, n, o, av):
    om, nm, d, m2md, mdm, m2p, pv2v, olow, _k, _s, *outs = av
    if not (isinstance(om, Mesh) and isinstance(nm, Mesh)):
        return NotImplemented
    t = T(d)
    P = ev.I.sk("products")
    if isinstance(m2md, DimArr) and isinstance(m2p, DimArr):
        for k in list(m2md.by):
            E = ev.ent(om, k)
            ev.unify(m2md.by[k].el, E, n, "modified entities") if isinstance(m2md.by[k], Arr) else None
        for k in list(m2p.by):
            x, y = m2p.by[k], ev.dimget(m2md, Num(None, False, k))
            if isinstance(x, Arr) and isinstance(y, Arr):
                ev.unify(x.dom, y.dom, n, "modified entities and their products")
    if isinstance(mdm, DimArr):
        for k in list(mdm.by):
            if isinstance(mdm.by[k], Arr):
                ev.unify(mdm.by[k].dom, ev.ent(om, k), n, "marks of modified entities")
    if isinstance(pv2v, Arr):
        ev.unify(pv2v.dom, P, n, "vertices of the products")
        ev.unify(pv2v.el, ev.ent(nm, (None, 0)), n, "vertices of the products")
    if isinstance(olow, Arr):
        ev.unify(olow.dom, ev.ent(om, term_add(t, -1)), n, "map of the lower entities")
        ev.unify(olow.el, ev.ent(nm, term_add(t, -1)), n, "map of the lower entities (elements)")
    new, old = ev.ent(nm, t), ev.ent(om, t)
    same = ev.I.sk("unchanged")
    vals = [Arr(P, new), Arr(same, old), Arr(same, new), Arr(old, new)]
    for v, x in zip(outs, vals):
        if isinstance(v, Ptr):
            v.set(ev, x)
    return None


def setrec(ev, n, rec):
    x = strip_casts(n["o"])
    if x.get("k") == "ref":
        ev.env[x["d"]] = rec


@sig("Dist::set_roots2items")
def _(ev, n, o, av):
    if not isinstance(o, Rec):
        return NotImplemented
    f = dict(o.f)
    if av[0] is UNINIT:
        f["fr"] = f["fi"]
    elif isinstance(av[0], Arr):
        ev.unify(av[0].el, f["fi"], n, "items of a distributor")
        f["fr"] = av[0].dom
    setrec(ev, n, Rec("Dist", f))


@sig("Dist::set_dest_idxs")
def _(ev, n, o, av):
    if not isinstance(o, Rec):
        return NotImplemented
    f = dict(o.f)
    f["ri"] = ev.I.sk("received items")
    f["rr"] = S()
    if isinstance(av[0], Arr):
        ev.unify(av[0].dom, f["fr"], n, "destination indices of a distributor")
        if isinstance(av[1], Num) and av[1].s is not None:
            f["rr"] = av[1].s
            ev.unify(av[0].el, f["rr"], n, "destination indices")
    setrec(ev, n, Rec("Dist", f))


@sig("Dist::set_dest_globals")
def _(ev, n, o, av):
    if not isinstance(o, Rec):
        return NotImplemented
    f = dict(o.f)
    if isinstance(av[0], Arr):
        ev.unify(av[0].dom, f["fr"], n, "destination globals of a distributor")
    f["ri"] = f["rr"] = ev.I.sk("received items")
    setrec(ev, n, Rec("Dist", f))


@sig("build_from_elems2verts", "build_ents_from_elems2verts")
def _(ev, n, o, av):
    m = av[0]
    arr = next((v for v in av if isinstance(v, Arr)), None)
    dims = [v for v in av[1:] if isinstance(v, Num) and v.term is not None]
    if not isinstance(m, Mesh) or arr is None:
        return NotImplemented
    i = av.index(arr)
    edim = av[i - 1]
    V = arr.el
    rest = av[i + 1] if i + 1 < len(av) else None
    if isinstance(rest, Arr):
        if n["_q"].endswith("::build_ents_from_elems2verts"):
            V = ev.ent(m, (None, 0))
            ev.unify(arr.el, V, n, "vertices of the elements")
        else:
            ev.unify(arr.el, rest.dom, n, "vertices of the elements")
    elif isinstance(rest, Num) and rest.s is not None:
        ev.unify(arr.el, rest.s, n, "vertices of the elements")
    if n["_q"].endswith("build_from_elems2verts"):
        ev.setent(m, (None, 0), V)
    t = T(edim)
    if t is not None:
        ev.setent(m, t, arr.dom)
        m.dim = t
    return None


@sig("average_field")
def _(ev, n, o, av):
    if not isinstance(av[0], Mesh):
        return NotImplemented
    E = ev.ent(av[0], T(av[1]))
    if isinstance(av[-1], Arr):
        ev.unify(av[-1].dom, ev.ent(av[0], (None, 0)), n, "vertex field to be averaged")
    if len(av) == 5:
        if isinstance(av[2], Arr):
            ev.unify(av[2].el, E, n, "entities to average over")
            return Arr(av[2].dom)
        return Arr()
    return Arr(E)


def check(P):
    r = Result()
    dom._ALIAS.clear()
    dom._TRAILS[0] = 0
    I = Infer(P, SIGS, skip=skip)
    for f in P.fns:
        if f.file.startswith("src/") and f.body is not None and not skip(f):
            I.summary(f)
    primitives(P, I, r)
    finish(P, I, r)
    return r


class _At(Eval):
    """Unification outside any function body: a declared signature against an inferred one."""
    def __init__(self, I, f):
        Eval.__init__(self, I, f)
        self.this = None


def primitives(P, I, r):
    """The bodies of the primitives against their declared signatures, every letter a definite set of its own."""
    n = 0
    for name, alts in SIG.items():
        alts = BODY.get(name, alts)
        alts = [alts] if isinstance(alts, str) else alts
        for f in P.by_q.get("Omega_h::" + name, []):
            s = I.sum.get(f.fid)
            if s is None or not s.done or f.body is None:
                continue
            for a in alts:
                ps, ret = parse_sig(a)
                if len(ps) != len(s.params) and not (len(ps) < len(s.params)):
                    continue
                if not all(fits(p, v) for p, v in zip(ps, s.params)):
                    continue
                ev = _At(I, f)
                sets = {}
                for p in ps + [ret]:
                    for x in re.findall(r"!?\b[A-Z]\b", p.replace("R ", "")):
                        sets.setdefault(x, S(("letter", x, name)) if x[0] != "!" else S())
                memo = {}
                fs = _copier()
                node = f.body
                for p, v in zip(ps, s.params):
                    w = build(ev, p, sets, {"_q": name})
                    if w is not None:
                        ev.unival(w, copyval(v, fs, lambda k: k, lambda t: t, memo), node, "parameter declared %s" % p)
                if ret and s.ret is not None:
                    w = build(ev, ret, sets, {"_q": name})
                    ev.unival(w, copyval(s.ret, fs, lambda k: k, lambda t: t, memo), node, "result declared %s" % ret)
                n += 1
                break
    r.count("primitive bodies", n)


def _copier():
    m = {}

    def fs(x):
        x = find(x)
        if id(x) not in m:
            m[id(x)] = (x, S(x.rig))
        return m[id(x)][1]
    return fs


def skip(f):
    return "/tests/" in f.file or f.q.startswith("std::")


def setname(I, rg):
    def tm(t):
        if t is None:
            return "?"
        if t[0] is None:
            return str(t[1]) if isinstance(t[1], int) else str(t)
        s = t[0]
        b = "dim" if s[0] == "dim" else "d"
        if s in ("star", "dual", "dist"):
            return s
        return b + ("%+d" % t[1] if isinstance(t[1], int) and t[1] else "")
    def mk(k):
        return "mesh#%s" % (k[1],) if k[0] == "m" else "new mesh %s" % (k[1],)
    if rg[0] == "ent":
        return "entities of dimension %s of %s" % (tm(rg[2]), mk(rg[1]))
    if rg[0] == "up":
        return "adjacencies (%s,%s) of %s" % (tm(rg[2]), tm(rg[3]), mk(rg[1]))
    if rg[0] == "join":
        return " or ".join(setname(I, find(m).rig) if find(m).rig else "an unknown set" for m in rg[1])
    if rg[0] == "letter":
        return "set %s of the declared signature" % rg[1]
    return "a '%s' set" % rg[2]


def finish(P, I, r):
    for c in I.conf:
        key = "%s|%s|%s" % (c.fn.q, c.what, show(c.node)[:80])
        r.bad("sets", key, c.fn.where(c.node), "%s: %s — %s, but %s" % (c.fn.name, c.what, setname(I, c.a), setname(I, c.b)))
    for k, v in sorted(I.stats.items()):
        r.count(STAT.get(k, k), v)
    for k, v in (("unify", 6000), ("match", 900), ("sig", 2700), ("index", 1100), ("kernels", 250)):
        r.need(STAT[k], v)
    r.need("primitive bodies", 60)


STAT = {"unify": "sets required to be equal", "match": "definite sets compared", "calls": "calls evaluated", "sig": "calls of primitives with a declared signature",
        "index": "subscripts with an index of known set", "kernels": "kernels evaluated", "fns": "functions evaluated"}
