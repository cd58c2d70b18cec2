"""P08: what a mesh answers is about its present contents."""
from .core import *
import itertools
from .own import *
from .own import Obj, Own, It, Violation, Failed, Unseen, OPAQUE

LEVEL = "other"
RULE = ("The members of Mesh are applied to abstract meshes (contents are names; every derived answer already asked for, or none). After every "
        "operation that changes contents, each answer must equal the one computed from nothing but the contents; answers must be derived from the "
        "adjacencies, parents and owners of the dimensions asked about; tags are found, replaced and removed by exact dimension and name; "
        "changing partition or communicator leaves the state that was requested.")
ASSUMPTIONS = ["invert_adj, transit, measure_* and the other functions outside Mesh compute what they name (P06, P10, P14, P18, P24)",
               "operations marked internal (adaptation, migration, reading) replace the whole mesh and are not followed by invalidation, as documented in add_tag"]
TRUSTED = ["omh/own.py"]
NS = "Omega_h::"
INPUTS = {"measure_edges_metric": ("coordinates", "metric"), "measure_qualities": ("coordinates", "metric"), "measure_elements_real": ("coordinates",),
          "mark_exposed_sides": ()}


class Arr:
    """An array: what it is, and how long."""
    def __init__(self, t, n):
        self.t, self.n = t, n


class Val:
    """A value of class type: copied when the program copies it."""
    def __init__(self, cls, **kw):
        self.cls, self.f, self.dead = cls, kw, False

    def use(self):
        pass


def frz(v):
    if isinstance(v, Arr):
        return ("array", v.t)
    if isinstance(v, Val):
        return (v.cls,) + tuple((k, frz(x)) for k, x in sorted(v.f.items()))
    if isinstance(v, Box):
        return frz(v.v)
    if isinstance(v, Obj):
        return (v.cls, v.addr)
    if isinstance(v, list):
        return tuple(frz(x) for x in v)
    return v


class Box:
    """What a shared pointer points to."""
    def __init__(self, v):
        self.v = v


DEG = {0: {(1, 0): 2, (2, 0): 3, (2, 1): 3, (3, 0): 4, (3, 1): 6, (3, 2): 4}, 1: {(1, 0): 2, (2, 0): 4, (2, 1): 4, (3, 0): 8, (3, 1): 12, (3, 2): 6}}


class M(Own):
    def __init__(self, P, dim, family, size=1):
        Own.__init__(self, P, {"objects": {}, "made": [], "VERT": 0, "EDGE": 1, "FACE": 2, "REGION": 3})
        self.dim, self.family, self.csize, self.log = dim, family, size, []
        self.had = size
        self.comm = self.newcomm("comm")
        self.mesh = Obj(NS + "Mesh", family_=family, dim_=dim, comm_=self.comm, parting_=-1, nghost_layers_=-1, nents_=[100 + 10 * d if d <= dim else -1 for d in range(4)],
                        tags_=[[] for _ in range(4)], adjs_=[[None] * 4 for _ in range(4)], owners_=[Val("Remotes", ranks=Arr(None, 0), idxs=Arr(None, 0)) for _ in range(4)],
                        dists_=[None] * 4, rib_hints_=None, parents_=[None] * 4, children_=[[None] * 4 for _ in range(4)], library_=("library",), class_sets=("class_sets",))

    def newcomm(self, nm):
        return ("comm", nm)

    # ---- values
    def copyval(self, v):
        return Val(v.cls, **v.f) if isinstance(v, Val) else v

    def n_str(self, n):
        return n.get("v", n.get("s", OPAQUE))

    def n_init(self, n):
        return OPAQUE

    def fresh(self, t):
        if "vector<" in t and t.startswith("std::vector"):
            return []
        return self.make(t, [], None)

    def make(self, t, a, n):
        t = t.replace("const ", "").strip()
        if t.endswith("]"):
            e, k = t[:t.index("[")], [int(x) for x in re.findall(r"\[(\d+)\]", t)]

            def arr(k):
                return [arr(k[1:]) if len(k) > 1 else [] if e.startswith("std::vector") else self.make(e, [], n) for _ in range(k[0])]
            return arr(k)
        b = t.split("<")[0].replace(NS, "")
        if b in ("Read", "Write", "LOs", "Reals", "Bytes", "GOs", "HostWrite"):
            if not a:
                return Arr(None, 0)
            if isinstance(a[0], Arr):
                return a[0]
            if isinstance(a[0], int):
                return Arr(("fill",) + tuple(frz(x) for x in a if x is not OPAQUE and x != ""), a[0])
        if "shared_ptr" in t:
            return a[0] if a else None
        if b == "basic_string" or "basic_string" in b:
            return a[0] if a else ""
        if b in ("Remotes", "Parents", "Adj", "Graph", "Children", "Dist"):
            if b == "Dist" and len(a) == 3:
                return Val("Dist", comm=a[0], owners=self.copyval(a[1]), n=a[2])
            names = {"Remotes": ("ranks", "idxs"), "Parents": ("parent_idx", "codes"), "Graph": ("a2ab", "ab2b"), "Adj": ("a2ab", "ab2b", "codes"), "Children": ("a2ab", "ab2b", "codes")}.get(b, ())
            v = Val(b)
            if len(a) == 1 and isinstance(a[0], Val):
                v.f.update(a[0].f)
                return v
            if b == "Adj" and a and len(a) < 3:
                names = ("ab2b", "codes") if len(a) == 2 or not isinstance(a[0], Val) else names
            for k, x in zip(names, a):
                v.f[k] = x
            if len(a) > len(names):
                raise Unseen("constructor of " + b)
            for k in {"Adj": ("a2ab", "ab2b", "codes")}.get(b, names):
                v.f.setdefault(k, Arr(None, 0))
            return v
        if b == "Mesh":
            if a and isinstance(a[0], Obj):
                return a[0]
            m = Obj(NS + "Mesh")
            f = [g for g in self.P.fns if g.q == NS + "Mesh::Mesh" and g.body is not None and len(g.params) == len(a) and not (a and "Mesh" in g.params[0]["t"])]
            if len(f) != 1:
                raise Unseen("constructor of Mesh")
            m.f.update(nents_=[-1] * 4, tags_=[[] for _ in range(4)], adjs_=[[None] * 4 for _ in range(4)], owners_=[Val("Remotes", ranks=Arr(None, 0), idxs=Arr(None, 0)) for _ in range(4)],
                       dists_=[None] * 4, rib_hints_=None, parents_=[None] * 4, children_=[[None] * 4 for _ in range(4)], comm_=None, class_sets=None)
            self.call(f[0], m, a)
            return m
        return OPAQUE

    def n_ctor(self, n):
        t = n["t"]
        if n.get("cp") and n["a"]:
            return self.copyval(self(n["a"][0]))
        if t.startswith("std::vector") and not t.endswith("]"):
            return []
        a = [self(x) for x in n["a"]]
        if len(a) == 1 and (isinstance(a[0], It) or isinstance(a[0], Obj) and ("_ptr<" in t or "Ptr" in t)):
            return a[0]
        return self.make(t, a, n)

    def n_new(self, n):
        t, i = n["t"], n.get("i")
        if i is not None and i["k"] == "ctor":
            a = [self(x) for x in i["a"]]
            if "Tag<" in t:
                return self.tag(t, a)
            if len(a) == 1 and isinstance(a[0], (Val, tuple)):
                return Box(self.copyval(a[0]))
            return Box(self.make(t, a, n))
        return Own.n_new(self, n)

    @staticmethod
    def tag(t, a):
        return Obj("Tag", type=t[t.index("Tag<") + 4:t.rindex(">")].split(">")[0], name=a[0], ncomps=a[1], array=Arr(None, 0))

    def place(self, n):
        n0 = strip_casts(n)
        if n0["k"] == "mem":
            b = self(n0["b"]) if n0.get("b") else self.this
            if isinstance(b, Val):
                return b.f, n0["n"]
            if isinstance(b, Box) and isinstance(b.v, (Val, Obj)):
                return b.v.f, n0["n"]
            if b is None:
                raise Violation("follows a null pointer")
        if n0["k"] == "call" and n0.get("op") in ("*", "[]"):
            a = [n0["o"]] + n0["a"] if n0.get("o") else n0["a"]
            v = self(a[0])
            if isinstance(v, It):
                if not 0 <= v.i < len(v.l):
                    raise Violation("writes past the end of a list")
                return v.l, v.i
            if isinstance(v, list):
                i = self(a[1])
                if not 0 <= i < len(v):
                    raise Violation("index %d outside a list of %d" % (i, len(v)))
                return v, i
        if n0["k"] == "sub":
            b, i = self(n0["b"]), self(n0["i"])
            if isinstance(b, list) and not 0 <= i < len(b):
                raise Violation("index %d outside a list of %d" % (i, len(b)))
        return Own.place(self, n)

    @staticmethod
    def truth(v):
        if isinstance(v, (Box, Arr, Val)):
            return True
        if isinstance(v, tuple) and v[:1] == ("comm",):
            return True
        return Own.truth(v)

    def asint(self, v):
        if isinstance(v, Box):
            return id(v)
        return Own.asint(v)

    def arith(self, op, a, b):
        if isinstance(a, str) and isinstance(b, str) and op in ("==", "!="):
            return (a == b) == (op == "==")
        if op in ("==", "!=") and (a is None or b is None) and not isinstance(a, int) and not isinstance(b, int):
            return ((a is None) == (b is None)) == (op == "==")
        if isinstance(a, str) or isinstance(b, str):
            return OPAQUE
        return Own.arith(self, op, a, b)

    # ---- calls
    def n_call(self, n):
        q = n.get("_q") or ""
        nm = q.split("::")[-1]
        op = n.get("op")
        if op and not (self.P.by_fid.get(n.get("f")) is not None and q.startswith(NS)):
            a = [n["o"]] + n["a"] if n.get("o") else n["a"]
            if op == "->" and len(a) == 1:
                v = self(a[0])
                if v is None:
                    raise Violation("follows a null pointer")
                if isinstance(v, It):
                    if not 0 <= v.i < len(v.l):
                        raise Violation("reads past the end of a list")
                    return v.l[v.i]
                return v.v if isinstance(v, Box) else v
            if op == "*" and len(a) == 1:
                v = self(a[0])
                if v is None:
                    raise Violation("follows a null pointer")
                if isinstance(v, Box):
                    return v.v
                if isinstance(v, It):
                    if not 0 <= v.i < len(v.l):
                        raise Violation("reads past the end of a list")
                    return v.l[v.i]
                return v
            if op == "=" and len(a) == 2:
                v = self(a[1])
                d, k = self.place(a[0])
                d[k] = self.copyval(v)
                return v
            if op in ("==", "!=") and len(a) == 2:
                return self.arith(op, self(a[0]), self(a[1]))
            if op == "<<":
                return OPAQUE
        if nm == "operator bool":
            return self.truth(self(n["o"]))
        if q == "std::make_shared":
            a = [self(x) for x in n["a"]]
            t = n.get("t", "")
            t = t[t.index("<") + 1:t.rindex(">")] if "<" in t else t
            if "Tag<" in t:
                return self.tag(t, a)
            if len(a) == 1 and isinstance(a[0], (Val, tuple)):
                return Box(self.copyval(a[0]))
            return Box(self.make(t, a, n))
        if q in ("std::move", "std::forward"):
            return self(n["a"][0])
        o = None
        if n.get("o"):
            o = self(n["o"])
            if o is None and not q.startswith("std::"):
                raise Violation("follows a null pointer")
            if isinstance(o, Obj) and o.cls == "Tag":
                if nm in ("name", "ncomps"):
                    return o.f[nm]
                if nm == "array":
                    return o.f["array"]
                if nm == "set_array":
                    o.f["array"] = self(n["a"][0])
                    return None
                if nm == "get":
                    return o
            if isinstance(o, Arr):
                if nm == "exists":
                    return o.t is not None
                if nm == "size":
                    return o.n
            if isinstance(o, Val) and o.cls == "Dist":
                a = [self(x) for x in n["a"]]
                if nm == "change_comm":
                    r = o.f["owners"].f
                    o.f["owners"] = Val("Remotes", ranks=Arr(("ranks in", frz(a[0]), r["ranks"].t), r["ranks"].n), idxs=r["idxs"])
                    o.f["comm"] = a[0]
                    return None
                if nm == "items2ranks":
                    return o.f["owners"].f["ranks"]
                if nm == "parent_comm":
                    return o.f["comm"]
                return Val("Dist." + nm, of=Val("Dist", **o.f)) if nm == "invert" else Arr((nm, frz(o), tuple(frz(x) for x in a)), 0)
            if isinstance(o, Val) and o.cls.startswith("Dist."):
                a = [self(x) for x in n["a"]]
                return Arr((nm, frz(o), tuple(frz(x) for x in a)), 0)
            if isinstance(o, tuple) and o[:1] == ("comm",) or o == ("world",):
                a = [self(x) for x in n["a"]]
                return {"size": lambda: self.csize if o[0] == "comm" else self.csize, "rank": lambda: 0, "allreduce": lambda: self.had}.get(nm, lambda: OPAQUE)()
            if o == ("library",):
                return {"world": ("world",), "self": ("comm", "self")}.get(nm, OPAQUE)
            if nm == "get" and isinstance(o, (Box, Obj)):
                return o.v if isinstance(o, Box) else o
            if nm == "reset" and q.startswith("std::"):
                d, k = self.place(n["o"])
                d[k] = None if not n["a"] else self(n["a"][0])
                return None
        f = self.P.by_fid.get(n.get("f"))
        if f is not None and f.body is not None and f.cls == NS + "Mesh":
            args = [self(x) for x in n["a"]]
            env = self.env, self.this
            try:
                return self.call(f, o if o is not None else self.this, args)
            finally:
                self.env, self.this = env
        if f is not None and f.body is not None and q.startswith(NS) and not f.cls and f.file.endswith("Omega_h_mesh.cpp") and f.name not in ("fail",):
            args = [self(x) for x in n["a"]]
            env = self.env, self.this
            try:
                return self.call(f, None, args)
            finally:
                self.env, self.this = env
        if q.startswith(NS):
            a = [self(x) for x in n["a"]]
            if nm == "fail":
                raise Failed()
            if nm == "as" and len(a) == 1:
                return a[0]
            if nm == "is" and len(a) == 1:
                return OPAQUE
            if nm in ("begin_code", "end_code"):
                return None
            if nm == "divide_no_remainder":
                if a[1] <= 0 or a[0] % a[1]:
                    raise Failed()
                return a[0] // a[1]
            if nm == "element_degree":
                d = DEG[a[0]].get((a[1], a[2]))
                if d is None:
                    raise Violation("asks for the degree of %s" % (tuple(a[1:]),))
                return d
            if nm == "check_tag_name":
                return None
            if nm in ("partition_by_elems", "ghost_mesh", "partition_by_verts", "migrate_mesh", "bcast_mesh", "recursively_bisect"):
                self.log.append((nm,) + tuple(frz(x) for x in a[1:]))
                return None
            if nm in ("topological_plural_name", "topological_singular_name"):
                return OPAQUE
            if nm in ("max2", "min2"):
                return OPAQUE if OPAQUE in a else max(a) if nm == "max2" else min(a)
            t = self.term(nm, a)
            rt = (n.get("t") or "").replace("const ", "").replace(NS, "").split("<")[0].strip()
            if rt in ("Adj", "Graph", "Children", "Parents"):
                v = Val(rt)
                for k in ("a2ab", "ab2b", "codes") if rt != "Parents" else ("parent_idx", "codes"):
                    v.f[k] = Arr((k, t), 0)
                return v
            if rt in ("Read", "Reals", "LOs", "Bytes", "GOs"):
                return Arr(t, self.length(nm, a))
            return t
        return Own.n_call(self, n)

    def term(self, nm, a):
        out = [nm]
        for x in a:
            if isinstance(x, Obj) and x.cls == NS + "Mesh":
                want = INPUTS.get(nm, ("coordinates", "metric"))
                out.append(("mesh",) + tuple((w, self.tagval(x, w)) for w in want))
            elif x is not OPAQUE:
                out.append(frz(x))
        return tuple(out)

    def tagval(self, m, w):
        for t in m.f["tags_"][0]:
            if t.f["name"] == w:
                return t.f["array"].t
        return None

    def length(self, nm, a):
        return {"measure_edges_metric": self.nents(1), "measure_qualities": self.nents(self.dim), "measure_elements_real": self.nents(self.dim)}.get(nm, 0)

    def nents(self, d):
        return self.mesh.f["nents_"][d]


class Ob:
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.used = set()

    def fn(self, name, n=None, pred=lambda f: True):
        fs = [f for f in self.P.fns if f.cls == NS + "Mesh" and f.name == name and f.body is not None and (n is None or len(f.params) == n) and pred(f)]
        if not fs:
            raise Broken("Mesh::%s" % name)
        self.used.add(fs[0].fid)
        return fs[0]

    def do(self, w, name, *a, pred=lambda f: True):
        w.steps = 0
        return w.call(self.fn(name, len(a), pred), w.mesh, [w.copyval(x) for x in a])

    def bad(self, what, name, msg):
        f = self.fn(name)
        self.R.bad("mesh", "mesh|%s|%s" % (name, what), "%s:%d" % (f.file, f.line), "Mesh::%s: %s" % (name, msg))


REAL = lambda f: "<double>" in f.q or "Real" in (f.d.get("clst") or "") or any("double" in p["t"] or "Real" in p["t"] for p in f.params)


def filled(o, dim, family, size=1, nm="0"):
    """A mesh with coordinates, a metric, adjacencies to one dimension down, owners and parents."""
    w = M(o.P, dim, family, size)
    f = w.mesh.f
    f["parting_"], f["nghost_layers_"] = 0, 0
    f["tags_"][0] += [Obj("Tag", type="Real", name="coordinates", ncomps=dim, array=Arr("coords" + nm, dim * f["nents_"][0])),
                      Obj("Tag", type="Real", name="metric", ncomps=1, array=Arr("metric" + nm, f["nents_"][0]))]
    for d in range(1, dim + 1):
        f["adjs_"][d][d - 1] = Box(Val("Adj", a2ab=Arr(None, 0), ab2b=Arr(("down", d), 0), codes=Arr(("codes", d), 0) if d > 1 else Arr(None, 0)))
    for d in range(dim + 1):
        f["owners_"][d] = Val("Remotes", ranks=Arr(("ranks", d, nm), f["nents_"][d]), idxs=Arr(("idxs", d, nm), f["nents_"][d]))
        f["parents_"][d] = Box(Val("Parents", parent_idx=Arr(("parents", d, nm), f["nents_"][d]), codes=Arr(("pcodes", d, nm), f["nents_"][d])))
    return w


def askers(dim, family):
    r = [("ask_lengths",), ("ask_qualities",), ("ask_sizes",)]
    r += [("ask_children", a, b) for a in range(dim + 1) for b in range(a + 1)]
    r += [("ask_dist", d) for d in range(dim + 1)] + [("ask_owners", d) for d in range(dim + 1)] + [("ask_parents", d) for d in range(dim + 1)]
    for a in range(dim + 1):
        for b in range(dim + 1):
            if a != b or a in (0, dim) and (dim > 1 or a == dim and a == 0) or dim == 1 and a == b or family == 0 and (a, b) == (1, 1):
                r.append(("ask_adj", a, b))
    return r


def forget(w):
    """A mesh with the same contents and nothing derived."""
    f = w.mesh.f
    down = {d: f["adjs_"][d][d - 1] for d in range(1, w.dim + 1)}
    f["adjs_"] = [[None] * 4 for _ in range(4)]
    for d, x in down.items():
        f["adjs_"][d][d - 1] = x
    f["dists_"] = [None] * 4
    f["children_"] = [[None] * 4 for _ in range(4)]
    for d in range(4):
        f["tags_"][d] = [t for t in f["tags_"][d] if t.f["name"] not in ("length", "quality", "size")]


def answer(o, w, a):
    try:
        return frz(o.do(w, *a))
    except Failed:
        return ("failed",)


def coherence(o, R):
    for dim in (1, 2, 3):
        for family in (0, 1):
            asks = askers(dim, family)
            n0 = 100
            coords = Arr("coords1", dim * n0)
            ops = [("set_coords", coords), ("add_tag", 0, "coordinates", dim, coords), ("add_tag", 0, "metric", 1, Arr("metric1", n0)), ("add_tag", 0, "metric", 3, Arr("metric3", 3 * n0)),
                   ("set_tag", 0, "metric", Arr("metric1", n0)), ("set_tag", 0, "coordinates", coords), ("add_coords", coords)]
            for d in range(dim + 1):
                n = 100 + 10 * d
                ops.append(("set_owners", d, Val("Remotes", ranks=Arr(("ranks", d, "1"), n), idxs=Arr(("idxs", d, "1"), n))))
                ops.append(("set_parents", d, Val("Parents", parent_idx=Arr(("parents", d, "1"), n), codes=Arr(("pcodes", d, "1"), n))))
            ops.append(("set_comm", ("comm", "other")))
            for op in ops:
                R.count("states", len(asks))
                w = filled(o, dim, family, 2)
                w.had = 2
                try:
                    for a in asks:
                        answer(o, w, a)
                    args = list(op[1:])
                    if op[0] in ("add_tag", "set_tag"):
                        args.append(False)
                    o.do(w, op[0], *args, pred=REAL if op[0] in ("add_tag", "set_tag") else lambda f: True)
                    got = [answer(o, w, a) for a in asks]
                    forget(w)
                    want = [answer(o, w, a) for a in asks]
                except Violation as e:
                    o.bad("%s" % e, op[0], "after derived data were asked for: %s" % e)
                    continue
                except Failed:
                    o.bad("failed", op[0], "a valid change is refused")
                    continue
                for a, g, e in zip(asks, got, want):
                    if g != e:
                        o.bad("stale|%s" % a[0], op[0], "after it, %s%s still answers from before (dimension %d)" % (a[0], a[1:], dim))


def derived(o, R):
    """First answers come from the contents of the dimensions asked about; second answers are the same."""
    for dim in (1, 2, 3):
        for family in (0, 1):
            for a in askers(dim, family):
                R.count("states")
                w = filled(o, dim, family, 1)
                try:
                    one = answer(o, w, a)
                    two = answer(o, w, a)
                except Violation as e:
                    o.bad("%s" % e, a[0], str(e))
                    continue
                if one == ("failed",):
                    o.bad("failed", a[0], "%s of a complete mesh of dimension %d fails" % (a, dim))
                    continue
                if one != two:
                    o.bad("second", a[0], "%s answers differently the second time" % (a,))
                want = expected(w, a)
                if want is not None and want[0] == "adj":
                    one = ("adj",) + tuple(set(v[1][1][1] for v in one[1:] if v[0] in ("a2ab", "ab2b") and v[1][1][0] == v[0]))
                if want is not None and one != want:
                    o.bad("derived", a[0], "%s of a mesh of dimension %d is not derived from the contents asked about: %s" % (a[0] + str(a[1:]), dim, str(one)[:300]))


def adj(k, t):
    return Val(k, **{x: Arr((x, t), 0) for x in ("a2ab", "ab2b", "codes")})


def expected(w, a):
    f, dim, fam = w.mesh.f, w.dim, w.family
    nents = f["nents_"]

    def A(x, y):
        if x == y + 1:
            return f["adjs_"][x][y].v
        if y < x:
            return adj("Adj", ("transit", frz(A(x, y + 1)), frz(A(y + 1, y)), fam, x, y))
        if x < y:
            return adj("Adj", ("invert_adj", frz(A(y, x)), DEG[fam][(y, x)], nents[x], y, x))
        return None
    if a[0] == "ask_adj":
        x, y = a[1:]
        if x != y:
            return frz(A(x, y))
        g = None
        if x == dim:
            g = ("elements_across_sides", fam, dim, frz(A(dim, dim - 1)), frz(A(dim - 1, dim)), ("array", ("mark_exposed_sides", ("mesh",))))
        elif x == 0:
            g = ("verts_across_edges", frz(A(1, 0)), frz(A(0, 1)))
        elif x == 1:
            g = ("edges_across_tris", frz(A(2, 1)), frz(A(1, 2)))
            if dim == 3:
                two = lambda t: frz(Val("Graph", **{k: Arr((k, t), 0) for k in ("a2ab", "ab2b", "codes")}))
                g = ("add_edges", two(g), two(("edges_across_tets", frz(A(3, 1)), frz(A(1, 3)))))
        return ("adj", g)
    if a[0] == "ask_children":
        return frz(adj("Children", ("invert_parents", frz(f["parents_"][a[2]].v), a[1], nents[a[1]])))
    if a[0] == "ask_dist":
        return frz(Val("Dist", comm=f["comm_"], owners=f["owners_"][a[1]], n=nents[a[1]]))
    if a[0] == "ask_owners":
        return frz(f["owners_"][a[1]])
    if a[0] == "ask_parents":
        return frz(f["parents_"][a[1]].v)
    if a[0] in ("ask_lengths", "ask_qualities", "ask_sizes"):
        q = {"ask_lengths": "measure_edges_metric", "ask_qualities": "measure_qualities", "ask_sizes": "measure_elements_real"}[a[0]]
        return ("array", (q, ("mesh",) + tuple((x, x.replace("coordinates", "coords") + "0") for x in INPUTS[q])))
    return None


def defaults(o, R):
    """What a mesh without owners, parents or levels answers."""
    for dim in (1, 2, 3):
        for d in range(dim + 1):
            w = filled(o, dim, 0, 1)
            f = w.mesh.f
            n = f["nents_"][d]
            f["parents_"] = [None] * 4
            f["owners_"] = [Val("Remotes", ranks=Arr(None, 0), idxs=Arr(None, 0)) for _ in range(4)]
            cases = [("ask_parents", frz(Val("Parents", parent_idx=Arr(("fill", n, -1), n), codes=Arr(("fill", n, 0), n)))),
                     ("ask_owners", frz(Val("Remotes", ranks=Arr(("fill", n, 0), n), idxs=Arr(("fill", n, 0, 1), n)))),
                     ("ask_levels", ("array", ("fill", n, 0))), ("ask_leaves", ("array", ("fill", n, 1)))]
            for a, want in cases:
                R.count("obligations")
                try:
                    got = answer(o, w, (a, d))
                except Violation as e:
                    got = str(e)
                if got != want:
                    o.bad("default", a, "of a mesh that never had any, %s(%d) answers %s" % (a, d, got))


OUT = [x for n in range(4) for x in itertools.combinations(("length", "quality", "size"), n)]


def tags(o, R):
    """Tags are found by exact dimension and name, and operations on one leave the others alone."""
    def state(w):
        return {(d, t.f["name"]): (t.f["type"], t.f["ncomps"], frz(t.f["array"])) for d in range(4) for t in w.mesh.f["tags_"][d]}

    def many(w):
        return sum(len(l) for l in w.mesh.f["tags_"])
    dim = 3

    def base(without=()):
        w = filled(o, dim, 0, 1)
        for d in range(4):
            n = w.nents(d)
            for nm, c in (("length", 1), ("quality", 1), ("size", 1), ("ab", 2), ("a", 1), ("metric", 1)):
                if not (d == 0 and nm == "metric") and nm not in without:
                    w.mesh.f["tags_"][d].append(Obj("Tag", type="Real", name=nm, ncomps=c, array=Arr((nm, d), c * n)))
        return w
    for d in range(4):
        for nm in ("a", "ab", "abc", "lengt", "length", "metric", "coordinates", "b"):
            for internal, c, out in itertools.product((False, True), (1, 3), OUT if d == 0 and nm in ("metric", "coordinates") else OUT[:1]):
                if True:
                    R.count("states")
                    w = base(out)
                    before = state(w)
                    n = w.nents(d)
                    try:
                        o.do(w, "add_tag", d, nm, c, Arr("new", c * n), internal, pred=REAL)
                    except (Violation, Failed) as e:
                        o.bad("add|%s" % e, "add_tag", "a valid tag cannot be added: %s" % e)
                        continue
                    want = dict(before)
                    want[(d, nm)] = (None, c, ("array", "new"))
                    drop = set()
                    if not internal and d == 0 and nm in ("coordinates", "metric"):
                        drop = before.keys() & {(1, "length"), (dim, "quality")} | ({(dim, "size")} & before.keys() if nm == "coordinates" else set())
                    got = state(w)
                    cmp = {k: (None,) + v[1:] if k == (d, nm) else v for k, v in got.items()}
                    if many(w) != len(got):
                        o.bad("twice", "add_tag", "two tags of one name remain")
                    for k in set(want) | set(cmp):
                        if (k in drop) != (k not in cmp) or k in cmp and k not in drop and cmp[k] != want.get(k):
                            o.bad("add|%s" % ("kept" if k in drop else "lost"), "add_tag", "adding tag %s to dimension %d%s: tag %s of dimension %d %s" %
                                  (nm, d, " (internal)" if internal else "", k[1], k[0], "should be dropped" if k in drop else "is lost or changed"))
            R.count("states")
            w = base()
            before = state(w)
            try:
                h = o.do(w, "has_tag", d, nm)
                if bool(h) != ((d, nm) in before):
                    o.bad("has", "has_tag", "has_tag(%d, %s) is %s" % (d, nm, h))
                if state(w) != before:
                    o.bad("changes", "has_tag", "asking for a tag changes the tags")
                o.do(w, "remove_tag", d, nm)
                before.pop((d, nm), None)
                if state(w) != before:
                    o.bad("remove", "remove_tag", "removing tag %s of dimension %d changes other tags or leaves it" % (nm, d))
            except (Violation, Failed) as e:
                o.bad("remove|%s" % e, "remove_tag", "has_tag or remove_tag of tag %s: %s" % (nm, e or "fails"))
            w = base()
            try:
                t = o.do(w, "get_tagbase", d, nm)
                if (d, nm) not in state(w) or t not in w.mesh.f["tags_"][d] or t.f["name"] != nm:
                    o.bad("get", "get_tagbase", "get_tagbase(%d, %s) returns another tag" % (d, nm))
            except Failed:
                if (d, nm) in state(w):
                    o.bad("get", "get_tagbase", "tag %s of dimension %d is not found" % (nm, d))
            except Violation as e:
                o.bad("get", "get_tagbase", "tag %s of dimension %d: %s" % (nm, d, e))
        w = base()
        k = len(w.mesh.f["tags_"][d])
        R.count("obligations")
        byidx = lambda f: f.params[1]["t"] == "int"
        try:
            if o.do(w, "ntags", d) != k or any(o.do(w, "get_tag", d, i, pred=byidx) is not w.mesh.f["tags_"][d][i] for i in range(k)):
                o.bad("index", "ntags", "ntags and get_tag(dimension, i) do not enumerate the tags")
        except (Violation, Failed) as e:
            o.bad("index", "ntags", "enumerating the tags: %s" % e)
        for i in (-1, k, k + 1):
            try:
                o.do(w, "get_tag", d, i, pred=byidx)
                o.bad("range", "get_tag", "accepts index %d of %d tags" % (i, k))
            except Failed:
                pass
            except Violation as e:
                o.bad("range", "get_tag", "does not reject index %d of %d tags: %s" % (i, k, e))
        for c in (1, 2):
            R.count("obligations")
            w = base()
            try:
                o.do(w, "add_tag", d, "new", c, Arr("short", c * w.nents(d) - 1), True, pred=REAL)
                o.bad("size", "add_tag", "accepts an array that does not have one value per component and entity")
            except Failed:
                pass
            except Violation as e:
                o.bad("size", "add_tag", str(e))
    for d in (-1, 4):
        R.count("obligations")
        w = base()
        try:
            o.do(w, "add_tag", d, "new", 1, Arr("x", 5), True, pred=REAL)
            o.bad("dim", "add_tag", "accepts dimension %d" % d)
        except Failed:
            pass
        except Violation as e:
            o.bad("dim", "add_tag", "does not reject dimension %d before using it: %s" % (d, e))


def parting(o, R):
    E, G, V = 0, 1, 2
    es = {c["n"]: c["v"] for en in [e for e in o.P.enums.values() if any(x.get("n") == "OMEGA_H_GHOSTED" for x in e.get("c", e.get("cs", [])))] for c in en.get("c", en.get("cs", []))} if hasattr(o.P, "enums") else {}
    E, G, V = es.get("OMEGA_H_ELEM_BASED", E), es.get("OMEGA_H_GHOSTED", G), es.get("OMEGA_H_VERT_BASED", V)
    act = {E: "partition_by_elems", G: "ghost_mesh", V: "partition_by_verts"}
    for size in (1, 2):
        for p0, n0 in ((-1, -1), (E, 0), (G, 1), (G, 2), (G, 3), (V, 1)):
            for p1, n1 in ((E, 0), (G, 1), (G, 2), (G, 3), (V, 1)):
                R.count("states")
                w = filled(o, 2, 0, size)
                f = w.mesh.f
                f["parting_"], f["nghost_layers_"] = p0, n0
                try:
                    o.do(w, "set_parting", p1, n1, False)
                except (Violation, Failed) as e:
                    o.bad("fails", "set_parting", "from %s to %s: %s" % ((p0, n0), (p1, n1), e or "fails"))
                    continue
                if (f["parting_"], f["nghost_layers_"]) != (p1, n1):
                    o.bad("state", "set_parting", "asked for %s the mesh is left at %s" % ((p1, n1), (f["parting_"], f["nghost_layers_"])))
                acts = [x for x in w.log]
                if size == 1 or p0 == -1 or (p0, n0) == (p1, n1):
                    if acts:
                        o.bad("needless", "set_parting", "redistributes a mesh that already has the partition asked for, or is alone")
                    continue
                if not acts or acts[-1][0] != act[p1]:
                    o.bad("action", "set_parting", "from %s to %s runs %s" % ((p0, n0), (p1, n1), acts))
                elif p1 == G and acts[-1][1] != n1:
                    o.bad("layers", "set_parting", "asked for %d layers of ghosts makes %s" % (n1, acts[-1][1]))
                elif p1 == G and (p0 == V or p0 == G and n1 < n0) and [x[0] for x in acts] != ["partition_by_elems", "ghost_mesh"]:
                    o.bad("stale ghosts", "set_parting", "from %s to %s keeps ghosts of the old partition: %s" % ((p0, n0), (p1, n1), acts))
            R.count("states")
        for p in (E, G, V):
            w = filled(o, 2, 0, size)
            w.mesh.f["parting_"], w.mesh.f["nghost_layers_"] = -1, -1
            try:
                o.do(w, "set_parting", p, False)
                if (w.mesh.f["parting_"], w.mesh.f["nghost_layers_"]) != (p, 0 if p == E else 1):
                    o.bad("default layers", "set_parting", "without a number of layers, %s is set" % ((w.mesh.f["parting_"], w.mesh.f["nghost_layers_"]),))
            except (Violation, Failed) as e:
                o.bad("default layers", "set_parting", str(e))
    # who may be shared, and who sees all upward
    for size in (1, 2):
        for p in (E, G, V):
            for d in (0, 1, 2):
                w = filled(o, 2, 0, size)
                w.mesh.f["parting_"] = p
                R.count("obligations", 3)
                for nm, want in (("could_be_shared", size > 1 and not (p == E and d == 2)), ("owners_have_all_upward", size == 1 or p == G or p == V and d == 0)):
                    if bool(o.do(w, nm, d)) != want:
                        o.bad("value", nm, "of dimension %d in partition %d on %d ranks is not %s" % (d, p, size, want))
                if bool(o.do(w, "have_all_upward")) != (size == 1 or p == G):
                    o.bad("value", "have_all_upward", "in partition %d on %d ranks" % (p, size))


def meta(o, R):
    w = filled(o, 2, 0, 2)
    f = w.mesh.f
    f["parting_"], f["nghost_layers_"], f["rib_hints_"] = 1, 2, Box(("rib",))
    R.count("states")
    try:
        m = w.call(o.fn("copy_meta"), w.mesh, [])
    except (Violation, Failed) as e:
        o.bad("fails", "copy_meta", str(e))
        return
    for k in ("family_", "dim_", "comm_", "parting_", "nghost_layers_", "rib_hints_", "library_", "class_sets"):
        if frz(m.f.get(k)) != frz(f[k]):
            o.bad(k, "copy_meta", "the copy has another %s" % k.rstrip("_"))
    if any(x is not None for r in ("adjs_", "children_") for l in m.f[r] for x in l) or any(m.f["dists_"]) or any(m.f["tags_"]) or any(m.f["parents_"]) or any(x >= 0 for x in m.f["nents_"]):
        o.bad("contents", "copy_meta", "the copy carries contents or derived data of the original")


def check(P):
    R = Result()
    o = Ob(P, R)
    try:
        derived(o, R)
        defaults(o, R)
        tags(o, R)
        coherence(o, R)
        parting(o, R)
        meta(o, R)
    except Unseen as e:
        raise Broken("mesh state analysis: %s" % e)
    R.count("functions analysed", len(o.used))
    return R
