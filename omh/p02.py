"""Fields of several components are processed component by component."""
from .core import *

LEVEL = "other"
RULE = ("Every subscript of the form entity*width+component: the component stays below the width, loops over components run over all of them, "
        "inside such a loop every access of that width is to the loop's own component, and a whole array handed on together with a width has that width.")
ASSUMPTIONS = ["two different expressions for a width are different widths, except dim() and the constants 1 to 3",
               "an array of single values may be regrouped into groups of several"]


def assigned(fn):
    """How often each local is written after its definition."""
    w = {}
    for n in fn.nodes():
        k = n.get("k")
        t = None
        if k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            t = strip_casts(n["L"])
        elif k == "un" and n["op"] in ("++", "--", "&"):
            t = strip_casts(n["e"])
        if t is not None and t.get("k") == "ref":
            w[t["d"]] = w.get(t["d"], 0) + 1
    return w


class Scan:
    def __init__(self, fn, R):
        self.fn, self.R = fn, R
        self.w = assigned(fn)
        self.defs = {}
        for n in fn.nodes():
            if n.get("k") == "var" and n.get("i") is not None and not self.w.get(n["d"]):
                self.defs[n["d"]] = n["i"]
        self.loops = {}     # decl -> (lo, bound node)

    def res(self, n, depth=0):
        """Follow locals that are never written again."""
        n = strip(n)
        while n.get("k") == "ref" and n["d"] in self.defs and depth < 20:
            n = strip(self.defs[n["d"]])
            depth += 1
        return n

    def canon(self, n, depth=0):
        n = self.res(n)
        k = n.get("k")
        if depth > 10:
            return show(n)
        if k == "int":
            return str(n["v"])
        if k == "ref":
            return "%s#%s" % (n["n"], n["d"])
        if k == "bin":
            a, b = self.canon(n["L"], depth + 1), self.canon(n["R"], depth + 1)
            if n["op"] in ("+", "*") and b < a:
                a, b = b, a
            if a.isdigit() and b.isdigit() and n["op"] in ("+", "*", "-"):
                return str({"+": int(a) + int(b), "*": int(a) * int(b), "-": int(a) - int(b)}[n["op"]])
            return "(%s%s%s)" % (a, n["op"], b)
        if k == "call":
            xs = ([self.canon(n["o"], depth + 1)] if "o" in n else []) + [self.canon(a, depth + 1) for a in n["a"]]
            return "%s(%s)" % (n.get("_q", "?"), ",".join(xs))
        if k == "mem":
            return "%s.%s" % (self.canon(n["b"], depth + 1) if n.get("b") else "this", n["n"])
        return show(n)

    def terms(self, n, follow=True):
        n = self.res(n) if follow else strip(n)
        if n.get("k") == "bin" and n["op"] == "+":
            return self.terms(n["L"]) + self.terms(n["R"])
        return [n]

    def factors(self, n):
        n = self.res(n)
        if n.get("k") == "bin" and n["op"] == "*":
            return self.factors(n["L"]) + self.factors(n["R"])
        return [n]

    def split(self, idx):
        """index -> (list of products, list of offsets)"""
        P, O = [], []
        for t in self.terms(idx):
            fs = self.factors(t)
            if len(fs) > 1:
                P.append(fs)
            else:
                O.append(t)
        return P, O

    # -- loops -----------------------------------------------------------
    def counter(self, n):
        """for (T c = lo; c < N; ++c), or the while form, as (decl, name, lo node, N node)."""
        k = n.get("k")
        c = n.get("cond")
        if k not in ("for", "while") or not c:
            return None
        c = strip_casts(c)
        if c.get("k") != "bin" or c["op"] not in ("<", "!=", "<=", ">"):
            return None
        L, Rr, op = strip(c["L"]), strip(c["R"]), c["op"]
        if op == ">":
            L, Rr, op = Rr, L, "<"
        if L.get("k") != "ref":
            return None
        d = L["d"]
        if self.w.get(d, 0) != 1:
            return None
        step = None
        for x in walk(n):
            if x.get("k") == "un" and x["op"] == "++" and strip_casts(x["e"]).get("d") == d:
                step = x
            if x.get("k") == "bin" and x["op"] == "+=" and strip_casts(x["L"]).get("d") == d and strip(x["R"]).get("v") == 1:
                step = x
        if step is None:
            return None
        lo = self.inits.get(d)
        if lo is None:
            return None
        return d, L["n"], lo, Rr, op == "<=", n

    def visit(self):
        self.inits = {n["d"]: n["i"] for n in self.fn.nodes() if n.get("k") == "var" and n.get("i") is not None}
        out = []

        def go(n, loops):
            c = self.counter(n)
            if c:
                for x in kids(n):
                    go(x, loops + [c])
                return
            k = n.get("k")
            if k == "sub":
                out.append((n, n["i"], n["b"], loops))
            elif k == "call" and n.get("op") == "[]" and n["a"] and "o" in n:
                out.append((n, n["a"][0], n["o"], loops))
            for x in kids(n):
                go(x, loops)
        go(self.fn.body, [])
        return out

    # -- widths of whole arrays -------------------------------------------
    def tag(self, n):
        """Identity of the tag an expression denotes: its name."""
        n = self.res(n)
        q = n.get("_q", "").split("::")[-1]
        if n.get("k") == "call":
            if q == "as" and n["a"]:
                return self.tag(n["a"][0])
            if q in ("get_tag", "get_tagbase") and len(n["a"]) == 2:
                t = short(n["a"][1].get("t", ""))
                if t in ("int", "Int", "const int"):
                    return "tag(%s)" % ",".join(self.canon(a) for a in [n["o"]] + n["a"])
                return self.name(n["a"][1])
            if q == "get":
                return self.tag(n["o"])
            if n.get("op") in ("->", "*") and "o" in n:
                return self.tag(n["o"])
        if n.get("k") == "un" and n["op"] in ("*", "&"):
            return self.tag(n["e"])
        return self.canon(n)

    def name(self, n):
        n = self.res(n)
        while n.get("k") == "ctor" and n.get("a"):
            n = self.res(n["a"][0])
        if n.get("k") == "str":
            return '"%s"' % n["v"]
        if n.get("k") == "call" and n.get("_q", "").endswith("TagBase::name"):
            return self.tag(n["o"])
        return self.canon(n)

    def wd(self, n):
        """Canonical form of a width expression."""
        n = self.res(n)
        if n.get("k") == "call":
            q = n.get("_q", "")
            if q.endswith("TagBase::ncomps"):
                t = self.tag(n["o"])
                return tag_width(t) or "ncomps[%s]" % t
            if q.endswith("Mesh::dim"):
                return "dim"
        return self.canon(n)

    def width(self, n, depth=0):
        """Components per entity of the array an expression denotes, or None."""
        if depth > 12:
            return None
        n = self.res(n)
        k = n.get("k")
        q = n.get("_q", "")
        nm = q.split("::")[-1]
        if k == "ctor":
            t = short(n.get("t", ""))
            a = n.get("a", [])
            if len(a) == 1 and re.match(r"(const )?(Omega_h::)?(Read|Write|HostRead|HostWrite)<", n.get("t", "")):
                if a[0].get("t", "").replace("Omega_h::", "").replace("const ", "").startswith(("Read<", "Write<", "HostRead<", "HostWrite<")):
                    return self.width(a[0], depth + 1)
                return self.size_width(a[0])
            if len(a) >= 2 and re.match(r"(const )?(Omega_h::)?(Read|Write|HostWrite)<", n.get("t", "")):
                return self.size_width(a[0])
            return None
        if k != "call":
            return None
        if nm == "read" and len(n["a"]) == 1:
            return self.width(n["a"][0], depth + 1)
        if nm in APIS and len(n["a"]) > APIS[nm][1]:
            w = self.wd(n["a"][APIS[nm][1]]) if APIS[nm][2] else None
            if nm == "unmap" and w == "1" and self.width(n["a"][0], depth + 1) != "1":
                return None     # as wide as the indices
            return w
        if nm == "get_array" and "o" in n and len(n["a"]) == 2:
            t = self.name(n["a"][1])
            return tag_width(t)
        if nm == "array" and "o" in n and "Tag<" in q:
            t = self.tag(n["o"])
            return tag_width(t)
        if nm in ONE:
            return "1"
        if q.endswith("Mesh::coords"):
            return "dim"
        return None

    def size_width(self, n):
        """Write<T>(size): the factor of size that is no entity count."""
        fs = self.factors(n)
        ent = [x for x in fs if self.is_count(x)]
        rest = [x for x in fs if not self.is_count(x)]
        if len(ent) == 1 and len(rest) <= 1:
            return self.wd(rest[0]) if rest else "1"
        if len(fs) == 2:
            return ("of", frozenset(self.wd(x) for x in fs))
        return None

    def is_count(self, n):
        n = self.res(n)
        if n.get("k") == "call":
            nm = n.get("_q", "").split("::")[-1]
            return nm in ("nents", "nverts", "nelems", "nedges", "nfaces", "nregions", "nitems", "nroots", "nsrcs", "ndests")
        return False


# function -> (array arguments, width argument, whether the result has that width)
APIS = {"unmap": ((1,), 2, True), "map_onto": ((0,), 4, True), "map_into": ((0, 2), 3, False), "map_into_range": ((0, 3), 4, False), "unmap_range": ((2,), 3, True),
        "expand": ((0,), 2, True), "expand_into": ((0, 2), 3, False), "permute": ((0,), 2, True), "fan_reduce": ((1,), 2, True), "graph_reduce": ((1,), 2, True),
        "add_into": ((0, 2), 3, False), "exch": ((0,), 1, True), "iexch": ((0,), 1, False), "exch_reduce": ((0,), 1, True),
        "sync_array": ((1,), 2, True), "isync_array": ((1,), 2, False), "reduce_array": ((1,), 2, True), "owned_array": ((1,), 2, True),
        "sync_subset_array": ((1,), 4, True), "owned_subset_array": ((1,), 4, True), "add_tag": ((3,), 2, False),
        "graph_weighted_average": ((2,), 3, True), "get_component": ((0,), 1, False), "repro_sum": ((1,), 2, False),
        "reduce_data_to_owners": ((0,), 2, True), "compare_copy_data": ((1, 3), 5, False), "solve_laplacian": ((1,), 2, True),
        "get_interior_coeffs": ((1,), 2, False), "alltoallv": ((0,), 3, True)}
def tag_width(t):
    """A tag of one width everywhere, or one of its own (a named tag that is not created here may have any)."""
    return FIXED.get(t) or (None if t.startswith('"') else "ncomps[%s]" % t)


def made(P):
    """Tags that are only ever created with one constant width."""
    out = {}
    for f in P.fns:
        for n in f.nodes():
            if n.get("k") == "call" and n.get("_q", "").split("::")[-1] == "add_tag" and len(n["a"]) >= 3:
                a, w = strip(n["a"][1]), strip_casts(n["a"][2])
                while a.get("k") == "ctor" and a.get("a"):
                    a = strip(a["a"][0])
                if a.get("k") == "str":
                    out.setdefault('"%s"' % a["v"], set()).add(str(w["v"]) if w.get("k") == "int" else None)
    return {k: next(iter(v)) for k, v in out.items() if len(v) == 1 and None not in v}


FIXED = {'"level"': "1", '"leaf"': "1", '"global"': "1", '"class_id"': "1", '"class_dim"': "1", '"key"': "1", '"candidate"': "1", '"length"': "1", '"quality"': "1", '"size"': "1", '"coordinates"': "dim"}
ONE = {"globals", "owned", "ask_lengths", "ask_qualities", "ask_sizes", "mark_exposed_sides", "mark_by_class_dim", "measure_elements_real", "mark_by_exposure", "mark_down", "mark_up", "offset_scan",
       "get_component", "each_eq_to", "each_geq_to", "each_gt", "each_lt", "mark_sliver_layers", "collect_marked", "get_degrees", "find_indset"}


DIMS = ("1", "2", "3")


def is_array(t):
    return re.search(r"\b(Read|Write|HostRead|HostWrite)<", t or "") or re.search(r"\*|\]$", t or "")


def handed(P, S, f, SUM):
    """Arrays handed to another function together with (what determines) their width."""
    for n in f.nodes():
        if n.get("k") != "call" or not n.get("_q", "").startswith("Omega_h::"):
            continue
        nm = n["_q"].split("::")[-1]
        if nm in APIS:
            arrs, wi, _ = APIS[nm]
            if len(n["a"]) > wi:
                for i in arrs:
                    yield n, nm, i, S.wd(n["a"][wi]), show(n["a"][wi])
            continue
        for i, (how, j) in SUM.get(n["f"], {}).items():
            if i < len(n["a"]) and j < len(n["a"]):
                if how == "is":
                    yield n, nm, i, S.wd(n["a"][j]), show(n["a"][j])
                else:
                    t = S.tag(n["a"][j]) if how == "tag" else S.name(n["a"][j])
                    yield n, nm, i, tag_width(t) or "ncomps[%s]" % t, "that of " + show(n["a"][j])


def summaries(P):
    """function -> {array parameter: (how, parameter its width comes from)}"""
    SUM = {}
    R = Result()
    for rnd in range(2):
        for f in P.fns:
            if not f.body or not f.file.startswith("src/Omega_h") or not any(is_array(p["t"]) for p in f.params):
                continue
            ids = {p["d"]: i for i, p in enumerate(f.params)}
            if not any(p["n"] in ("width", "ncomps", "deg", "name") or "TagBase" in p["t"] for p in f.params):
                continue
            S = Scan(f, R)
            byw = {}
            for i, p in enumerate(f.params):
                key = "%s#%s" % (p["n"], p["d"])
                byw[key] = ("is", i)
                byw["ncomps[%s]" % key] = ("tag", i) if "TagBase" in p["t"] else ("name", i)
            out = {}
            for n, nm, i, w, _ in handed(P, S, f, SUM):
                a = S.res(n["a"][i])
                while a.get("k") == "ctor" and len(a.get("a", [])) == 1:
                    a = S.res(a["a"][0])
                if a.get("k") == "ref" and a["d"] in ids and w in byw:
                    out.setdefault(ids[a["d"]], set()).add(byw[w])
            SUM[f.fid] = {i: min(v) for i, v in out.items() if len(v) == 1}
    return SUM


def check(P):
    R = Result()
    for k, w in made(P).items():
        FIXED.setdefault(k, w)
    SUM = summaries(P)
    R.count("functions whose array parameters have a derived width", sum(1 for v in SUM.values() if v))
    for f in P.fns:
        if not f.body or not f.file.startswith("src/"):
            continue
        S = Scan(f, R)
        fname = f.q.split("::")[-1]
        subs = S.visit()
        info = {}
        for n, idx, base, loops in subs:
            ps, offs = S.split(idx)
            info[id(n)] = (n, idx, base, loops, ps, offs)
            if len(ps) != 1:
                continue
            fac = [S.wd(x) for x in ps[0]]
            cst = [int(x) for x in fac if x.isdigit()]
            o = [strip(S.res(x)) for x in offs]
            key = "%s|%s" % (f.file + "|" + fname, show(base) + "[" + show(idx) + "]")
            b = S.res(base)
            if b.get("k") == "ctor" and b.get("a") and re.match(r"(const )?(Omega_h::)?(Read|Write|HostWrite)<", b.get("t", "")) and not is_array(b["a"][0].get("t")):
                sz = set(S.wd(x) for x in S.factors(b["a"][0]))
                sym = [x for x in fac if re.match(r"ncomps\[|[a-z_]+#\d+$", x) and re.match(r"n|width|dim|deg|stride", x)]
                R.count("allocations compared with the index")
                if sym and not (set(fac) & sz) and not any("::size(" in x or ("::last(" in x and "ncomps[" not in sym[0]) for x in sz):
                    R.bad("allocation", key, f.where(n), "%s: `%s` was allocated for `%s` values but is addressed with width %s" % (fname, show(n), show(b["a"][0]), sym[0].split("#")[0]))
            if len(o) == 1 and o[0].get("k") == "int" and len(cst) == 1:
                R.count("constant components compared with the width")
                if not 0 <= o[0]["v"] < cst[0]:
                    R.bad("component", key, f.where(n), "%s: component %d of %d in `%s`" % (fname, o[0]["v"], cst[0], show(n)))
            if len(o) == 1 and o[0].get("k") == "ref":
                c = [l for l in loops if l[0] == o[0]["d"]]
                if not c:
                    continue
                c = c[-1]
                R.count("component loops compared with the width")
                N = S.wd(c[3])
                if c[4]:
                    N = "%s+1" % N
                if N in fac:
                    continue
                b = S.res(c[3])
                if b.get("k") == "ref" and any(l[0] == b["d"] and S.wd(l[3]) in fac for l in loops):
                    continue        # bounded by another component index
                if b.get("k") == "call" and b.get("_q", "").split("::")[-1] in ("min2", "min") and any(S.wd(a) in fac for a in b["a"]):
                    continue
                if N.isdigit() and cst and int(N) <= max(cst):
                    continue
                if cst and not N.isdigit() and max(cst) >= 3 and "ncomps" not in N:
                    continue        # a dimension against room for three
                R.bad("component", key, f.where(n), "%s: `%s` runs over %s components of an array of width %s" % (fname, show(n), show(c[3]), " or ".join(show(x) for x in ps[0])))
        # stores
        for st in f.nodes():
            if st.get("k") != "bin" or not st["op"].endswith("=") or st["op"] in ("==", "!=", "<=", ">="):
                continue
            L = strip_casts(st["L"])
            if id(L) not in info:
                continue
            n, idx, base, loops, ps, offs = info[id(L)]
            o = [strip(S.res(x)) for x in offs]
            if len(ps) != 1 or len(o) != 1 or o[0].get("k") != "ref":
                continue
            fac = [S.wd(x) for x in ps[0]]
            c = [l for l in loops if l[0] == o[0]["d"]]
            if not c:
                continue
            c = c[-1]
            key = "%s|%s" % (f.file + "|" + fname, show(base) + "[" + show(idx) + "]")
            R.count("component-wise stores")
            lo = S.res(c[2])
            if lo.get("k") == "int" and lo["v"] != 0:
                R.bad("component", key + "|from", f.where(st), "%s: the components of `%s` are filled from %d on only" % (fname, show(L), lo["v"]))
            W = S.wd(c[3])
            r = strip_casts(S.res(st["R"]))
            if id(r) in info and not W.isdigit():
                R.count("component-wise copies")
                own = set(l[0] for l in loops[loops.index(c):])
                own |= set(x["d"] for x in walk(c[5]) if x.get("k") == "var")
                if not any(x.get("k") == "ref" and x["d"] in own for y in (info[id(r)][1], info[id(r)][2]) for x in list(walk(y)) + list(walk_res(S, [y]))):
                    R.bad("lane", key + "|copy", f.where(st), "%s: every component of `%s` gets the same value `%s`" % (fname, show(L), show(r)))
        # lanes: inside a loop over a symbolic width
        for n, idx, base, loops in subs:
            _, _, _, _, ps, offs = info[id(n)]
            if len(ps) != 1:
                continue
            fac = [S.wd(x) for x in ps[0]]
            for c in loops:
                W = S.wd(c[3])
                if W.isdigit() or W not in fac:
                    continue
                R.count("accesses inside component loops")
                own = set(l[0] for l in loops[loops.index(c):])
                if not any(x.get("k") == "ref" and x["d"] in own for x in walk_res(S, offs)):
                    key = "%s|%s" % (f.file + "|" + fname, show(base) + "[" + show(idx) + "]")
                    R.bad("lane", key, f.where(n), "%s: inside the loop over the %s components, `%s` does not depend on the component" % (fname, show(c[3]), show(n)))
        # whole arrays
        for n, nm, i, w, wshow in handed(P, S, f, SUM):
            if True:
                v = S.width(n["a"][i])
                if v == "1" and w != "1" and S.res(n["a"][i]).get("k") == "ctor":
                    R.bad("width", "%s|%s|%s" % (f.file, fname, nm + "(" + show(n["a"][i]) + ")"), f.where(n),
                          "%s: `%s` holds one value per entity but is handed to %s with width %s" % (fname, show(n["a"][i]), nm, wshow))
                if v is None or v == w or v == "1":
                    R.count("whole arrays whose width is known" if v else "whole arrays whose width is not known")
                    continue
                R.count("whole arrays whose width is known")
                if isinstance(v, tuple):
                    if w in v[1] or w != "1" or not any(x.startswith("ncomps") for x in v[1]):
                        continue
                    v = "*".join(sorted(v[1]))
                elif "dim" in (v, w) and (v in DIMS or w in DIMS):
                    continue
                R.bad("width", "%s|%s|%s" % (f.file, fname, nm + "(" + show(n["a"][i]) + ")"), f.where(n),
                      "%s: `%s` has width %s but is handed to %s with width %s" % (fname, show(n["a"][i]), v, nm, wshow))
    R.need("component-wise stores", 30)
    R.need("whole arrays whose width is known", 60)
    return R


def walk_res(S, offs):
    for o in offs:
        o = S.res(o)
        yield from walk(o)
        for x in walk(o):
            if x.get("k") == "ref" and x["d"] in S.defs:
                yield from walk(S.defs[x["d"]])
