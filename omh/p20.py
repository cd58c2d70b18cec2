"""Adaptation carries every field to the new mesh exactly once."""
from .core import *
from . import tagloop
from .absint import *

LEVEL = "other"
RULE = ("Each transfer function is partially evaluated for every dimension and every kind of field (name, element type, transfer rule); on every "
        "path the field must be added to the new mesh exactly once, with its name, type and number of components, kept values mapped from "
        "the same entities and new values from the rule's source; the drivers must call the transfer for every dimension.")
ASSUMPTIONS = ["map_into, unmap, expand and average_field do what their names say",
               "the numerical kernels (interpolation, intersection, fitting) are not examined, only what they read and write"]
TY = {"OMEGA_H_I8": 0, "OMEGA_H_I32": 2, "OMEGA_H_I64": 3, "OMEGA_H_F64": 5}
CT = {"signed char": 0, "int": 2, "long": 3, "double": 5, "long long": 3}


class Tag:
    def __init__(self, name, dims, type, ncomps, xfer=None):
        self.name, self.dims, self.type, self.ncomps, self.xfer = name, dims, type, ncomps, xfer

    def __repr__(self):
        return "%s%s (type %d, %d component%s)" % ("%s field " % self.xfer.replace("OMEGA_H_", "").lower() if self.xfer else "", self.name, self.type, self.ncomps, "s" * (self.ncomps > 1))


def enums(P):
    out = {}
    for e in P.enums.values():
        for c in e.get("c", e.get("vals", [])):
            out[c["n"]] = c["v"]
    return out


class World:
    def __init__(self, P, D, tags, en, user=False, called=()):
        self.P, self.D, self.tags, self.en = P, D, tags, en
        self.called = set(called)
        self.user = user
        self.bad = []

    def at(self, d):
        return [t for t in self.tags if d in t.dims]

    def byname(self, d, name):
        for t in self.at(d):
            if name == ("s", t.name):
                return t
        return None

    def hook(self, I, n, nm, q, o, a):
        D = self.D
        if o is not None and o[0] == "mesh":
            old = o[1] == "old"
            if nm == "dim" and not a:
                return ("c", D)
            if nm == "family":
                return ("family",)
            if nm == "ntags" and old:
                d = I.val(a[0])
                return ("c", len(self.at(d))) if d is not None else None
            if nm in ("get_tag", "get_tagbase") and old:
                d = I.val(a[0])
                if d is None:
                    return None
                i = I.val(a[1])
                t = self.at(d)[i] if i is not None and i < len(self.at(d)) else self.byname(d, a[1])
                if t is None:
                    return ("f", nm, o) + tuple(a)
                self.typed(I, n, t)
                return ("tag", d, self.tags.index(t))
            if nm == "has_tag" and old:
                d = I.val(a[0])
                return None if d is None else ("c", int(self.byname(d, a[1]) is not None))
            if nm == "get_array":
                d = I.val(a[0])
                if old and d is not None:
                    t = self.byname(d, a[1])
                    if t:
                        self.typed(I, n, t)
                return ("arr", o[1], a[0], a[1])
            if nm == "coords":
                return ("arr", o[1], ("c", 0), ("s", "coordinates"))
            if nm in ("nverts", "nedges", "nfaces", "nregions", "nelems"):
                d = {"nverts": 0, "nedges": 1, "nfaces": 2, "nregions": 3, "nelems": D}[nm]
                return ("nents", o[1], ("c", d))
            if nm == "nents":
                return ("nents", o[1], a[0])
            if nm in ("add_tag", "set_tag"):
                ty = self.P.callee[n["f"]].get("ta") or ["?"]
                data = a[3] if len(a) > 3 else a[2] if nm == "set_tag" else None
                I.event("add", o[1], a[0], a[1], a[2] if nm == "add_tag" else None, ty[0], data, n)
                return ("void",)
            if nm == "set_parents":
                I.event("add", o[1], a[0], ("s", "parents"), ("c", 1), "parents", a[1], n)
                return ("void",)
            if nm == "remove_tag":
                I.event("remove", o[1], a[0], a[1], n)
                return ("void",)
            if nm in ("ask_levels", "ask_leaves"):
                return ("arr", o[1], a[0], ("s", nm[4:-1].replace("leave", "leaf")))
            if nm == "ask_parents":
                return ("asked", o[1], a[0])
            if nm == "copy_meta":
                return ("mesh", "new")
        if o is not None and o[0] == "tag":
            t = self.tags[o[2]]
            if nm == "name":
                return ("s", t.name)
            if nm == "type":
                return ("c", t.type)
            if nm == "ncomps":
                return ("c", t.ncomps)
            if nm == "array":
                return ("arr", "old", ("c", o[1]), ("s", t.name))
        if nm in ("as", "is") and a and a[0][0] == "tag":
            t = self.tags[a[0][2]]
            ok = self.typed(I, n, t, nm == "as")
            return a[0] if nm == "as" else ("c", int(ok))
        if o is not None and o[0] == "m" and o[1] in ("type_map", "integral_map", "velocity_density_map", "velocity_momentum_map", "integral_diffuse_map"):
            if nm in ("count",):
                if o[1] != "type_map":
                    return ("c", 1)
                return ("c", int(any(a[0] == ("s", t.name) and t.xfer for t in self.tags)))
            if nm in ("find", "at") or n.get("op") == "[]":
                v = None
                if a[0][0] == "s":
                    for t in self.tags:
                        if a[0][1] == t.name and t.xfer and o[1] == "type_map":
                            v = ("c", self.en[t.xfer])
                    if o[1] != "type_map":
                        v = ("s", a[0][1] + "_" + o[1].split("_")[0])
                if v is None:
                    return ("end",) if nm == "find" else None
                return ("it", a[0], v) if nm == "find" else v
            if nm in ("end", "cend"):
                return ("end",)
        if n.get("op") in ("==", "!=") and len(a) + (o is not None) == 2:
            l, r = (o, a[0]) if o is not None else a
            if "end" in (l[0], r[0]) and {l[0], r[0]} <= {"it", "end"}:
                return ("c", int((l[0] == r[0]) == (n["op"] == "==")))
        if o is not None and contains(o, lambda t: t[:2] == ("m", "user_xfer")) and nm in ("refine", "coarsen", "swap", "swap_copy_verts"):
            I.event("user", nm, tuple(a))
            return ("void",)
        if nm == "begin_code" or nm == "end_code":
            return ("void",)
        if n["k"] == "ctor" and re.match(r"(const )?Omega_h::(Host)?Write<", n.get("t", "")):
            if a and a[0][0] in ("w", "arr") and len(a) == 1:
                return a[0]
            if a:
                return I.fresh(a[0])
        if nm == "map_into" and len(a) >= 3:
            I.event("fill", a[2], "map", a[0], a[1], n)
            return ("void",)
        if nm == "map_onto":
            w = I.fresh(a[2])
            I.event("fill", w, "map", a[0], a[1], n)
            return w
        if nm == "parallel_for":
            for x in a:
                if x[0] == "lam":
                    for w in x[1]:
                        for y in find(w, lambda t: t and t[0] == "w"):
                            I.event("fill", y, "kernel", x[2], None, n)
            return ("void",)
        if nm in self.called and q.startswith("Omega_h::"):
            I.event("call", nm, tuple(a), n)
            # out-parameters get a value of their own
            for i, y in enumerate(n["a"]):
                y = strip_casts(y)
                if y.get("k") == "un" and y["op"] == "&":
                    p = I.path(y["e"])
                    if p and a[i][0] != "mesh":
                        I.store(p, ("out", nm, ("c", i)))
            return ("f", nm) + tuple(a)
        if nm == "symm_ncomps" and a and I.val(a[0]) is not None:
            v = I.val(a[0])
            return ("c", v * (v + 1) // 2)
        return None

    def typed(self, I, n, t, must=True):
        ta = (self.P.callee[n["f"]].get("ta") or [None])[0]
        if ta is None or ta not in CT:
            return True
        if CT[ta] != t.type:
            if must:
                I.out.append(("fail",))
                I.stopped = True
            return False
        return True

    def fold(self, t):
        if t[0] == "m" and t[1] == "user_xfer":
            return self.user
        if t[0] == "m" and t[1] == "second" and t[2][0] == "it":
            return t[2][2][1] if t[2][2][0] == "c" else None
        if t[0] == "m" and t[1] == "verbosity":
            return 0
        return None


class TransferInt(Absint):
    def x(self, n):
        t = super().x(n)
        if t[0] == "m" and t[1] == "second" and t[2][0] == "it":
            return t[2][2]
        return t


def reach_add(P):
    if getattr(P, "_reach_add", None) is None:
        callers = {}
        work = []
        for f in P.fns:
            for n in f.nodes():
                if "f" in n:
                    q = n.get("_q", "")
                    if q in ("Omega_h::Mesh::add_tag", "Omega_h::Mesh::set_tag", "Omega_h::Mesh::set_parents", "Omega_h::map_into"):
                        work.append(f.fid)
                    for t in P.targets(n):
                        callers.setdefault(t.fid, set()).add(f.fid)
        seen = set(work)
        while work:
            x = work.pop()
            for c in callers.get(x, ()):
                if c not in seen:
                    seen.add(c)
                    work.append(c)
        P._reach_add = seen
    return P._reach_add


def inliner(P):
    reach = reach_add(P)

    def inl(f):
        if f.q.startswith(("Omega_h::Mesh::", "Omega_h::Read", "Omega_h::Write", "Omega_h::map_into", "Omega_h::Comm", "Omega_h::Dist")):
            return False
        ps = " ".join(p["t"] for p in f.params)
        if "TransferOpts" in ps or "TagBase" in ps:
            return True
        return f.fid in reach and "Omega_h::" in f.q and "Mesh" in ps
    return inl


def run(P, f, W, args):
    I = TransferInt(P, W.hook, inliner(P), W.fold)
    ev = I.run(f, args)
    return I, ev


def one(P, q):
    v = [f for f in P.fn(q) if f.body]
    if len(v) != 1:
        raise Broken("%s: %d definitions" % (q, len(v)))
    return v[0]


def by_type(f, W, given):
    """Arguments: meshes in order, then the values in `given` by position, then named terms."""
    out = []
    nm = 0
    for i, p in enumerate(f.params):
        if i in given:
            out.append(given[i])
        elif "Mesh" in p["t"]:
            out.append(("mesh", ("old", "new")[min(nm, 1)]))
            nm += 1
        elif "Opts" in p["t"]:
            out.append(("opts",))
        else:
            out.append(("arg", i))
    return out


def kinds(D):
    V, E, A = (0,), (1,), tuple(range(D + 1))
    el = (D,)
    symm = D * (D + 1) // 2
    F = TY["OMEGA_H_F64"]
    out = [Tag("field", A, t, nc, "OMEGA_H_INHERIT") for t in TY.values() for nc in (1, 3)]
    out += [Tag("class_id", A, 2, 1), Tag("class_dim", A, 0, 1), Tag("momentum_velocity_fixed", A, 0, 1)]
    out += [Tag("field", V, F, 3, "OMEGA_H_LINEAR_INTERP"), Tag("coordinates", V, F, D), Tag("warp", V, F, D), Tag("field", V, F, D, "OMEGA_H_MOMENTUM_VELOCITY")]
    out += [Tag("metric", V, F, symm), Tag("metric", V, F, 1), Tag("target_metric", V, F, symm), Tag("field", V, F, symm, "OMEGA_H_METRIC")]
    out += [Tag("field", el, F, 2, x) for x in ("OMEGA_H_CONSERVE", "OMEGA_H_DENSITY", "OMEGA_H_POINTWISE")]
    out += [Tag("length", E, F, 1), Tag("quality", el, F, 1), Tag("size", el, F, 1)]
    if D >= 2:
        out.append(Tag("magnetic face flux", (2,), F, 1))
    out.append(Tag("field", A, F, 1))        # no rule: not carried
    return out


def derived_from(t, fills, pred, seen=None):
    """Does the value of t come (through kernels and maps) from a term satisfying pred?"""
    seen = set() if seen is None else seen
    if contains(t, pred):
        return True
    for w in find(t, lambda x: x and x[0] == "w"):
        if w in seen:
            continue
        seen.add(w)
        for e in fills.get(w, ()):
            if e[3] == "map":
                if derived_from(e[4], fills, pred, seen):
                    return True
            elif any(derived_from(r, fills, pred, seen) for r in e[4]):
                return True
    return False


def carried(R, P, f, ev, D, d, T, op, same_old, same_new, prods):
    key = "%s|%s|%s%s" % (f.q, op, T.xfer or "", T.name)
    name = ("s", T.name)
    what = "%s in %d-D, %s of dimension %d: %r" % (op, D, "entities", d, T)
    adds = [e for e in events(ev) if e[1] == "add" and e[2] == "new" and e[4] == name]
    c = counts(ev, lambda e: e[1] == "add" and e[2] == "new" and e[4] == name and e[3] == ("c", d))
    R.count("field kinds evaluated")
    plain = T.xfer is None and T.name == "field"
    want = 0 if plain else 1
    if not c:
        R.bad("carried", key + "|fails", f.where(), "%s: every path fails" % what)
        return
    if c != {want}:
        R.bad("carried", key + "|count", f.where(), "%s is added to the new mesh %s times instead of %d" % (what, "/".join(map(str, sorted(c))), want))
        return
    for e in adds:
        if e[3] != ("c", d):
            R.bad("carried", key + "|dim", f.where(e[8]), "%s is added to dimension %s" % (what, tstr(e[3])))
    if plain:
        return
    fills = {}
    for e in events(ev):
        if e[1] == "fill":
            fills.setdefault(e[2], []).append(e)
    for e in adds:
        R.count("additions to the new mesh examined")
        if e[5] != ("c", T.ncomps):
            R.bad("carried", key + "|ncomps", f.where(e[8]), "%s is added with %s components" % (what, tstr(e[5])))
        if e[6] in CT and CT[e[6]] != T.type:
            R.bad("carried", key + "|type", f.where(e[8]), "%s is added as an array of %s" % (what, e[6]))
        data = e[7]
        if op == "copy":
            if data != ("arr", "old", ("c", d), name):
                R.bad("carried", key + "|copy", f.where(e[8]), "%s: the new array is `%s`, not the old one" % (what, tstr(data)))
            continue
        w = find(data, lambda x: x and x[0] == "w")
        if not w:
            R.bad("carried", key + "|data", f.where(e[8]), "%s: the new array `%s` is not built from the transfer maps" % (what, tstr(data)[:80]))
            continue
        w = w[0]
        fs = fills.get(w, [])
        # size
        sz = w[2]
        if not sized(sz, d, D, T.ncomps):
            R.bad("carried", key + "|size", f.where(e[8]), "%s: the new array has size `%s`, not (number of new entities) * %d" % (what, tstr(sz), T.ncomps))
        same = [x for x in fs if x[3] == "map" and x[5] == same_new]
        good = [x for x in same if contains(x[4], lambda t: t == ("arr", "old", ("c", d), name)) and contains(x[4], lambda t: t == same_old)]
        R.count("kept values traced")
        if not good:
            R.bad("carried", key + "|same", f.where(e[8]), "%s: values of unchanged entities are not the old values (unmapped by the old, mapped by the new indices of the same entities)" % what)
        pf = [x for x in fs if x not in same]
        if op == "coarsen" and d == 0:
            continue
        R.count("new values traced")
        if prods is not None and not [x for x in pf if (x[3] == "map" and (x[5] == prods)) or (x[3] == "kernel" and any(contains(r, lambda t: t == prods) or derived_from(r, fills, lambda t: t == prods) for r in x[4]))]:
            R.bad("carried", key + "|prods", f.where(e[8]), "%s: nothing is stored on the new entities" % what)
            continue
        src(R, P, f, e, T, D, d, op, pf, fills, key, what)


def sized(t, d, D, nc):
    for r in find(t, lambda x: x and x[0] == "nents"):
        if r[1] == "new" and r[2] == ("c", d):
            if t == r:
                return nc == 1
            if t[0] == "b" and t[1] == "*" and {t[2], t[3]} == {r, ("c", nc)}:
                return True
    return False


def src(R, P, f, e, T, D, d, op, pf, fills, key, what):
    """Where the values on new entities come from."""
    name = ("s", T.name)

    def frm(pred):
        for x in pf:
            for r in ([x[4]] if x[3] == "map" else list(x[4])):
                if derived_from(r, fills, pred):
                    return True
        return False
    old = lambda dd: (lambda t: t == ("arr", "old", ("c", dd), name))
    if T.name == "magnetic face flux":
        return
    if T.name in ("length", "quality", "size"):
        ok = frm(lambda t: t[:1] == ("f",) and len(t) > 2 and t[1].startswith("measure") and ("mesh", "new") in t)
        if not ok:
            R.bad("carried", key + "|source", f.where(e[8]), "%s: new values are not measured on the new mesh" % what)
        return
    inherit = T.xfer == "OMEGA_H_INHERIT" or T.name in ("class_id", "class_dim", "momentum_velocity_fixed")
    elem = T.xfer in ("OMEGA_H_CONSERVE", "OMEGA_H_DENSITY", "OMEGA_H_POINTWISE")
    if op == "refine" and (inherit or elem):
        need = ([d] if d > 0 else []) + ([d + 1] if d < D else [])
    elif inherit and op == "swap":
        need = [1]
    elif inherit and op == "amr":
        need = list(range(max(d, 1), D + 1))
        need = []
    else:
        need = [d]
    for dd in need:
        if not frm(old(dd)):
            R.bad("carried", key + "|source%d" % (dd - d), f.where(e[8]), "%s: the values on new entities do not come from the old array of dimension %d" % (what, dd))
    # an array of one dimension is indexed by a graph to that dimension
    for x in fills.get(None, ()):
        pass
    for ws, xs in fills.items():
        for x in xs:
            if x[3] != "kernel":
                continue
            ad = {t[2] for r in x[4] for t in find(r, lambda t: t and t[0] == "arr" and t[1] == "old" and t[3] == name)}
            gd = {t[4] for r in x[4] for t in find(r, lambda t: t and t[0] == "f" and t[1] in ("ask_graph", "ask_up", "ask_down") and len(t) > 4 and t[2] == ("mesh", "old"))}
            if ad and gd and op == "refine" and not ad & gd:
                R.bad("carried", key + "|graph", f.where(e[8]), "%s: a kernel reads the values of dimension %s but walks the entities of dimension %s" % (what, tstr(min(ad)), tstr(min(gd))))


OPS = {"refine": ("Omega_h::transfer_refine", 5), "coarsen": ("Omega_h::transfer_coarsen", 5), "swap": ("Omega_h::transfer_swap", 3), "copy": ("Omega_h::transfer_copy", 3)}


def check(P):
    R = Result()
    en = enums(P)
    for op, (q, pd) in OPS.items():
        f = one(P, q)
        lo = [i for i, p in enumerate(f.params) if p["t"] in ("int", "Omega_h::Int")]
        if len(lo) != 1:
            raise Broken("%s: product dimension parameter not found" % q)
        n = len(f.params)
        for D in (1, 2, 3):
            if op in ("swap", "copy") and D == 1:
                continue
            ks = kinds(D)
            first = ks[0]
            for T in ks:
                for d in range(D + 1):
                    if d not in T.dims:
                        continue
                    if op == "swap" and d == 0 or op == "copy" and d != 0:
                        continue
                    if op == "copy" and T.name == "field" and T.xfer == "OMEGA_H_POINTWISE":
                        continue
                    W = World(P, D, [T], en)
                    given = {lo[0]: ("c", d)}
                    if op == "refine" and d == 0:
                        given[4] = ("arg", n - 3)       # the midpoint vertices are the new vertices
                    I, ev = run(P, f, W, by_type(f, W, given))
                    A = lambda k: ("arg", n + k)
                    if T is first:
                        W = World(P, D, [T], en, user=True)
                        I, ev = run(P, f, W, by_type(f, W, given))
                        want = {"copy": "swap_copy_verts"}.get(op, op)
                        c = counts(ev, lambda e: e[1] == "user" and e[2] == want and (op == "copy" or e[3][-3:] == (A(-3), A(-2), A(-1))))
                        R.count("user transfer calls counted")
                        if c != {1}:
                            R.bad("user", "%s|%s" % (f.q, d), f.where(), "%s in %d-D: the user's transfer is called %s times for dimension %d" % (op, D, "/".join(map(str, sorted(c))), d))
                    carried(R, P, f, ev, D, d, T, op, A(-2), A(-1), A(-3))
    amr(P, R, en)
    drivers(P, R, en)
    R.need("field kinds evaluated", 100)
    R.need("kept values traced", 100)
    tagloop.check(P, R)
    return R


def amr(P, R, en):
    F = TY["OMEGA_H_F64"]
    for D in (2, 3):
        A = tuple(range(D + 1))
        jobs = []
        f = one_with(P, "Omega_h::amr::transfer_inherit", "TransferOpts")
        for t in TY.values():
            for nc in (1, 3):
                jobs.append((f, Tag("field", A, t, nc, "OMEGA_H_INHERIT"), A, {}, 2, 3, 4))
        jobs += [(f, Tag("class_id", A, 2, 1), A, {}, 2, 3, 4), (f, Tag("class_dim", A, 0, 1), A, {}, 2, 3, 4)]
        f = one(P, "Omega_h::amr::transfer_linear_interp")
        for T in (Tag("field", (0,), F, 3, "OMEGA_H_LINEAR_INTERP"), Tag("coordinates", (0,), F, D)):
            jobs.append((f, T, (0,), {}, 3, 4, 5))
        for nm, fn in (("level", "transfer_levels"), ("leaf", "transfer_leaves")):
            f = one(P, "Omega_h::amr::" + fn)
            for d in A if nm == "level" else A[1:]:
                jobs.append((f, Tag(nm, A, 0, 1), (d,), {2: ("c", d)}, 4, 5, 6))
        f = one(P, "Omega_h::amr::transfer_parents")
        jobs.append((f, Tag("parents", (), 0, 1), A, {}, 3, 4, 5))
        for f, T, ds, given, pr, so, sn in jobs:
            W = World(P, D, [T], en)
            W.ask = True
            I, ev = run(P, f, W, by_type(f, W, given))
            for d in ds:
                amr_one(R, f, ev, D, d, T, pr, so, sn)


def amr_one(R, f, ev, D, d, T, pr, so, sn):
    name = ("s", T.name)
    key = "%s|%s%s" % (f.q, T.xfer or "", T.name)
    what = "uniform split in %d-D, entities of dimension %d: %r" % (D, d, T)
    c = counts(ev, lambda e: e[1] == "add" and e[2] == "new" and e[4] == name and e[3] == ("c", d))
    R.count("field kinds evaluated")
    if c != {1}:
        R.bad("carried", key + "|count", f.where(), "%s is added to the new mesh %s times instead of once" % (what, "/".join(map(str, sorted(c))) or "no"))
        return
    fills = {}
    for e in events(ev):
        if e[1] == "fill":
            fills.setdefault(e[2], []).append(e)
    for e in events(ev):
        if e[1] != "add" or e[4] != name or e[3] != ("c", d):
            continue
        R.count("additions to the new mesh examined")
        if e[5] != ("c", T.ncomps):
            R.bad("carried", key + "|ncomps", f.where(e[8]), "%s is added with %s components" % (what, tstr(e[5])))
        for w in sorted(set(find(e[7], lambda x: x and x[0] == "w")), key=str):
            if not sized(w[2], d, D, T.ncomps):
                R.bad("carried", key + "|size", f.where(e[8]), "%s: the new array has size `%s`, not (number of new entities) * %d" % (what, tstr(w[2]), T.ncomps))
            fs = fills.get(w, [])
            arg = lambda i: (lambda t: t == ("arg", i) or t == ("m", "[%d]" % d, ("arg", i)))
            few = lambda i: "Few" in f.params[i]["t"]
            one = lambda i: (lambda t: t == (("m", "[%d]" % d, ("arg", i)) if few(i) else ("arg", i)))
            same = [x for x in fs if x[3] == "map" and one(sn)(x[5])]
            R.count("kept values traced")
            if not [x for x in same if contains(x[4], one(so)) and (T.name == "parents" or contains(x[4], lambda t: t[:1] in (("arr",), ("asked",)) and t[1] == "old" and t[2] == ("c", d)))]:
                R.bad("carried", key + "|same", f.where(e[8]), "%s: values of unchanged entities are not the old values" % what)
            R.count("new values traced")
            if not [x for x in fs if x not in same and (x[3] == "map" and contains(x[5], lambda t: t == ("arg", pr)) or x[3] == "kernel" and any(r == ("arg", pr) or contains(r, one(pr)) for r in x[4]))]:
                R.bad("carried", key + "|prods", f.where(e[8]), "%s: nothing is stored on the new entities" % what)


def one_with(P, q, typ):
    v = [f for f in P.fn(q) if f.body and any(typ in p["t"] for p in f.params)]
    if len(v) != 1:
        raise Broken("%s: %d definitions" % (q, len(v)))
    return v[0]


TRANSFERS = ("transfer_refine", "transfer_coarsen", "transfer_swap", "transfer_copy")
MODIFY = ("modify_ents_adapt", "modify_ents")


def drivers(P, R, en):
    by = {}
    for f in P.fns:
        if not f.q.startswith("Omega_h::") or not f.body:
            continue
        for n in f.nodes():
            nm = last(n.get("_q", ""))
            if n.get("_q", "") in ("Omega_h::transfer_refine", "Omega_h::transfer_coarsen", "Omega_h::transfer_swap"):
                by.setdefault(f.fid, set()).add(nm)
    # lift to the function that takes nothing but the mesh and the options
    tops = {}
    callers = {}
    for f in P.fns:
        for n in f.nodes():
            if "f" in n:
                callers.setdefault(n["f"], set()).add(f.fid)
    work = list(by)
    seen = set(work)
    for fid in work:
        f = P.by_fid[fid]
        ps = [p["t"] for p in f.params]
        if len(ps) == 2 and "Mesh" in ps[0] and "AdaptOpts" in ps[1]:
            tops[fid] = by[fid]
            continue
        for c in callers.get(fid, ()):
            if c not in seen:
                seen.add(c)
                work.append(c)
                by[c] = by[fid]
    got = {}
    for fid, kinds_ in tops.items():
        for k in kinds_:
            got.setdefault(k, []).append(P.by_fid[fid])
    for k in TRANSFERS[:3]:
        if not got.get(k):
            raise Broken("no caller of %s with a mesh and options" % k)
    for k, fs in got.items():
        for f in fs:
            driver(P, R, en, f, k)
    amr_driver(P, R, en)


class DriverWorld(World):
    def __init__(self, P, D, en):
        super().__init__(P, D, [], en, called=TRANSFERS + MODIFY)
        self.k = 0

    def hook(self, I, n, nm, q, o, a):
        if n.get("op") == "=" and o is not None and o[0] == "mesh" and a and a[0][0] == "mesh":
            I.event("become", o[1], a[0][1])
            return o
        if o is not None and o[0] == "mesh" and nm in ("set_verts", "set_owners", "set_ents"):
            I.event("mesh", nm, o[1], tuple(a))
            return ("void",)
        if nm in self.called and q.startswith("Omega_h::"):
            self.k += 1
            I.event("call", nm, tuple(a), self.k, n)
            for i, y in enumerate(n["a"]):
                y = strip_casts(y)
                if y.get("k") == "un" and y["op"] == "&":
                    p = I.path(y["e"])
                    if p and a[i][0] != "mesh":
                        I.store(p, ("out", self.k, ("c", i)))
            return ("f", nm)
        if nm == "transfer_linear_interp" or q.startswith("Omega_h::amr::transfer_"):
            self.k += 1
            I.event("call", "amr::" + nm, tuple(a), self.k, n)
            return ("void",)
        return super().hook(I, n, nm, q, o, a)


def evaluate(P, f, W, args, extra=()):
    reach = set()
    work = [g.fid for g in P.fns if any(n.get("_q", "") in ["Omega_h::" + t for t in TRANSFERS + MODIFY] + list(extra) for n in g.nodes())]
    callers = {}
    for g in P.fns:
        for n in g.nodes():
            if "f" in n:
                callers.setdefault(n["f"], set()).add(g.fid)
    reach = set(work)
    while work:
        for c in callers.get(work.pop(), ()):
            if c not in reach:
                reach.add(c)
                work.append(c)
    names = set(TRANSFERS + MODIFY)
    I = TransferInt(P, W.hook, lambda g: g.fid in reach and last(g.q) not in names and not g.q.startswith("Omega_h::Mesh::"), W.fold)
    return I, I.run(f, args)


def driver(P, R, en, f, kind):
    dims = [D for D in (1, 2, 3)]
    ok = 0
    if kind == "transfer_swap":
        dims = [2] if "2" in f.q else [3] if "3" in f.q else [2, 3]
    for D in dims:
        W = DriverWorld(P, D, en)
        I, ev = evaluate(P, f, W, [("mesh", "old"), ("opts",)])
        es = [e for e in events(ev) if e[1] in ("call", "become", "mesh")]
        if not es:
            continue
        ok += 1
        R.count("adaptation drivers evaluated")
        bad = lambda k, m: R.bad("driver", "%s|%s" % (f.q, k), f.where(), "%s in %d-D: %s" % (last(f.q), D, m))
        mods = {}
        for d in range(D + 1):
            first = kind == "transfer_swap" and d == 0
            if first:
                c = counts(ev, lambda e: e[1] == "call" and e[2] == "transfer_copy" and e[3][:1] == (("mesh", "old"),) and e[3][2:4] == (("mesh", "new"), ("c", 0)))
                if c != {1}:
                    bad("copy", "fields of vertices are copied to the new mesh %s times" % sorted(c))
                continue
            pm = lambda e: e[1] == "call" and e[2] == "modify_ents_adapt" and ("mesh", "new") in e[3] and e[3][2] == ("c", d)
            pt = lambda e: e[1] == "call" and e[2] == kind and e[3][dimpos(P, kind)] == ("c", d)
            for pr, w in ((pm, "entities"), (pt, "fields")):
                c = counts(ev, pr)
                R.count("driver steps counted")
                if c != {1}:
                    bad("%s" % w, "%s of dimension %d are carried to the new mesh %s times instead of once" % (w, d, "/".join(map(str, sorted(c)))))
            m = [e for e in es if pm(e)]
            t = [e for e in es if pt(e)]
            if len(m) != 1 or len(t) != 1:
                continue
            m, t = m[0], t[0]
            mods[d] = m
            if t[3][0] != ("mesh", "old") or t[3][2] != ("mesh", "new"):
                bad("meshes", "fields of dimension %d go from %s to %s mesh" % (d, t[3][0][1], t[3][2][1]))
            want = tuple(("out", m[4], ("c", i)) for i in (8, 9, 10))
            got = t[3][-3:]
            R.count("index maps matched")
            if got != want:
                names = ("new-entity", "old same-entity", "new same-entity")
                w = [names[i] for i in range(3) if got[i] != want[i]]
                bad("maps|%s" % w[0], "the transfer of dimension %d is given something else than the %s map computed for that dimension" % (d, w[0]))
            keydim = {"transfer_refine": 1, "transfer_coarsen": 0, "transfer_swap": 1}[kind]
            if m[3][3] != ("c", keydim):
                bad("keydim", "the cavities of dimension %d are keyed by dimension %s instead of %d" % (d, tstr(m[3][3]), keydim))
            if m[3][4] != t[3][{"transfer_swap": 4}.get(kind, 3)]:
                bad("keys", "entities and fields of dimension %d use different keys" % d)
            prev = mods.get(d - 1)
            if prev is not None and m[3][7] != ("out", prev[4], ("c", 11)):
                bad("lows", "entities of dimension %d are not built on the new numbering of dimension %d" % (d, d - 1))
            if kind == "transfer_refine" and d and t[3][4] != ("out", mods[0][4], ("c", 8)):
                bad("midverts", "the transfer of dimension %d is not given the new vertices as edge midpoints" % d)
            kp = {"transfer_refine": 6, "transfer_swap": 5}.get(kind)
            if kp and m[3][5] != t[3][kp]:
                bad("prods", "entities and fields of dimension %d use different products" % d)
        c = counts(ev, lambda e: e[1] == "become" and e[2] == "old" and e[3] == "new")
        if c != {1}:
            bad("become", "the mesh is replaced by the new one %s times" % sorted(c))
        last_ = [e for e in es if e[1] in ("become", "call")][-1]
        if last_[1] != "become":
            bad("order", "%s runs after the mesh has been replaced" % last_[2])
    if not ok:
        raise Broken("%s: no step of the driver was seen" % f.q)


def dimpos(P, kind):
    f = one(P, "Omega_h::" + kind)
    return [i for i, p in enumerate(f.params) if p["t"] in ("int", "Omega_h::Int")][0]


def amr_driver(P, R, en):
    fs = [f for f in P.fns if f.body and len(f.params) == 2 and "Mesh" in f.params[0]["t"] and "TransferOpts" in f.params[1]["t"]
          and f.q.startswith("Omega_h::amr::") and any(n.get("_q") == "Omega_h::amr::transfer_inherit" for n in f.nodes())]
    if not fs:
        raise Broken("no caller of amr::transfer_inherit with a mesh and options")
    steps = ("transfer_linear_interp", "transfer_levels", "transfer_leaves", "transfer_parents", "transfer_inherit")
    for f in fs:
        for D in (2, 3):
            W = DriverWorld(P, D, en)
            I, ev = evaluate(P, f, W, [("mesh", "old"), ("opts",)], ["Omega_h::amr::" + s for s in steps])
            R.count("adaptation drivers evaluated")
            bad = lambda k, m: R.bad("driver", "%s|%s" % (f.q, k), f.where(), "%s in %d-D: %s" % (last(f.q), D, m))
            mods = {}
            for d in range(D + 1):
                pm = lambda e: e[1] == "call" and e[2] == "modify_ents" and e[3][2] == ("c", d)
                c = counts(ev, pm)
                if c != {1}:
                    bad("entities", "entities of dimension %d are carried to the new mesh %s times instead of once" % (d, "/".join(map(str, sorted(c)))))
                    continue
                mods[d] = [e for e in events(ev) if pm(e)][0]
                if d and d - 1 in mods and mods[d][3][7] != ("out", mods[d - 1][4], ("c", 13)):
                    bad("lows", "entities of dimension %d are not built on the new numbering of dimension %d" % (d, d - 1))
                for s in ("transfer_levels", "transfer_leaves"):
                    pt = lambda e: e[1] == "call" and e[2] == "amr::" + s and e[3][2] == ("c", d)
                    c = counts(ev, pt)
                    R.count("driver steps counted")
                    if c != {1}:
                        bad(s, "%s runs %s times for dimension %d" % (s, "/".join(map(str, sorted(c))), d))
                        continue
                    t = [e for e in events(ev) if pt(e)][0]
                    R.count("index maps matched")
                    want = tuple(("out", mods[d][4], ("c", i)) for i in (10, 11, 12))
                    if t[3][4:7] != want:
                        bad(s + "|maps", "%s for dimension %d is not given the maps computed for that dimension" % (s, d))
            for s in ("transfer_linear_interp", "transfer_parents", "transfer_inherit"):
                c = counts(ev, lambda e: e[1] == "call" and e[2] == "amr::" + s and e[3][:2] == (("mesh", "old"), ("mesh", "new")))
                R.count("driver steps counted")
                if c != {1}:
                    bad(s, "%s runs %s times" % (s, "/".join(map(str, sorted(c)))))
            seq = [e for e in events(ev) if e[1] in ("call", "become")]
            if not seq or seq[-1][1] != "become" or counts(ev, lambda e: e[1] == "become") != {1}:
                bad("become", "the mesh is not replaced by the new one after the transfer")
            pos = {e[2]: i for i, e in enumerate(seq) if e[1] == "call"}
            if pos.get("amr::transfer_inherit", 0) < pos.get("amr::transfer_parents", 0):
                bad("order", "fields are inherited before the parents are known")
