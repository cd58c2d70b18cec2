"""P21: adaptation only applies modifications that passed every criterion it was asked to respect.

Two layers, both over functional normal forms (kern.py):
  * lemmas: each kernel that rejects candidates is shown to let a candidate through only under the
    condition it exists for (the condition is written down here, the kernel's is derived);
  * composition: the drivers are executed symbolically from the public entry point to the call that
    modifies the mesh, and every entity that reaches it is shown to have passed all the filters."""
from .core import *
from .kern import *
from .cav import Tab
from .kern import Kern, Event
from .iox import last

RULE = ("normal forms of the rejecting kernels imply the rejection conditions; "
        "candidate lists, codes and qualities that reach the modification carry the facts of every filter")

_K = object.__new__(Kern)
MESH = ("p", "mesh")
VERT, EDGE = ("c", 0), ("c", 1)


def c(v):
    return ("c", v)


def at(a, *i):
    return ("at", a) + i


def call(n, *a):
    return ("call", n) + a


def eq(a, b):
    return _K.cmp("==", a, b)


def lt(a, b):
    return ("<", a, b)


def le(a, b):
    return ("<=", a, b)


def up(l, h):
    return call("ask_up", MESH, c(l), c(h))


def mem(n, t):
    return ("mem", n, t)


def verts_of(d):
    return call("ask_verts_of", MESH, c(d))


def around(adj, x, depth=1):
    a = mem("a2ab", adj)
    return ("bv", at(a, x), at(a, add(c(1), x)), depth)


def canon(t, memo=None):
    """One spelling for the mesh queries that are the same array."""
    if memo is None:
        memo = {}
    if not isinstance(t, tuple):
        return t
    k = id(t)
    if k in memo:
        return memo[k][1]
    r = tuple(canon(x, memo) for x in t)
    if r[:2] == ("mem", "ab2b") and r[2][:2] == ("call", "ask_down") and r[2][4:5] == (VERT,):
        r = ("call", "ask_verts_of", r[2][2], r[2][3])
    if r[:1] == ("==",) and len(r) == 3:
        r = _K.cmp("==", r[1], r[2])
    elif r[:1] in (("min",), ("max",), ("*",)):
        r = (r[0],) + tuple(sorted(r[1:], key=repr))
    elif r[:1] == ("+",) and len(r) == 3:
        d = {1: r[1]}
        for n, x in r[2]:
            d[x] = d.get(x, 0) + n
        r = unlin(d)
    memo[k] = (t, r)
    return r


class Lem:
    """One analysed function."""

    def __init__(self, P, R, q, names, rule, inline=None, pick=None):
        self.P, self.R, self.q, self.rule = P, R, q, rule
        self.fns = [f for f in P.fn(q) if f.body and (pick is None or pick(f))]
        self.names = names
        self.inline = inline

    def each(self):
        if not self.fns:
            raise Broken("no function %s" % self.q)
        for f in self.fns:
            if len(f.params) < len([n for n in self.names if n]):
                raise Broken("%s has %d parameters" % (self.q, len(f.params)))
            K = Kern(self.P, inline=self.inline or (lambda g: g.file == f.file))
            args = [("p", n) for n in self.names] + [("p", p["n"]) for p in f.params[len(self.names):]]
            K.res = K.run(f, args)
            K.f = f
            self.R.count("functions analysed")
            self.R.samples and None
            yield f, K

    def bad(self, f, what, msg):
        self.R.bad(self.rule, "%s|%s|%s" % (self.rule, short(self.q).split("<")[0], what), f.where() if hasattr(f, "where") else "%s:%d" % (f.file, f.line), "%s: %s" % (f.sig(), msg))

    def want(self, f, ok, what, msg):
        self.R.count("obligations")
        if not ok:
            self.bad(f, what, msg)


    def missing(self, f, K, arr, what):
        """Nothing is stored at the index of the candidate: a violation if something is stored elsewhere."""
        if not stores(K, arr):
            raise Broken("%s: no %s is stored" % (self.q, what))
        self.bad(f, "stored|" + what, "the %s of a candidate is not stored at its place, but at %s" % (what, tshow(stores(K, arr)[0].data[1])[:80]))
        return True


def synced(t):
    """(array, list, default, width) of a result that was synchronised over a subset."""
    t = strip_ite(t)
    if t[:2] == ("call", "sync_subset_array"):
        return t[4], t[5], t[6], t[7]
    return t, None, None, None


def strip_ite(t):
    return t


def stores(K, arr):
    return [e for e in K.events if e.kind == "store" and e.data[0] == arr]


def value(K, arr, off, stride):
    """Value written at stride*i+off as a conditional over path conditions, and the kernel index."""
    es = stores(K, arr)
    base = dflt(arr)
    r = base
    idx = None
    for e in es:
        i = [b for b in e.binders if b[0] == "i"]
        if not i:
            return None, None
        i = i[0]
        want = add(mul(c(stride), i), c(off))
        if e.data[1] != want:
            if stride == 1:
                return None, None
            continue
        idx = i
        pc = conj(*e.pc)
        r = ite(pc, e.data[2], r) if pc != TRUE else e.data[2]
    return r, idx


def dflt(arr):
    if arr[0] == "alloc":
        return arr[3] if len(arr) > 3 else ("undef", "uninitialised")
    if arr[:2] == ("call", "deep_copy"):
        return ("copyof", arr[2])
    return ("undef", "?")


def rejected(t):
    return isc(t) and int(t[1]) == 0 or t[0] == "f" and float(t[1]) < 0 or isc(t) and int(t[1]) < 0


# ------------------------------------------------------------------ collapse codes
def codes_lemma(P, R, q, names, goals, sync, rule, inline=None, pick=None):
    L = Lem(P, R, q, names, rule, inline, pick)
    for f, K in L.each():
        arr, lst, de, w = synced(K.res)
        if sync and lst is None:
            L.bad(f, "sync", "the codes are returned without synchronising the candidates between ranks")
        if lst is not None:
            L.want(f, isc(de) and de[1] == 0, "default", "candidates of other ranks default to code %s instead of DONT_COLLAPSE" % tshow(de))
            L.want(f, lst == ("p", "cands"), "subset", "codes are synchronised over %s, not the candidate list" % tshow(lst)[:80])
        v, i = value(K, arr, 0, 1)
        if v is None or i is None:
            if L.missing(f, K, arr, "code"):
                continue
        src = ("at", ("p", "codes"), i)
        B = Bits([src])
        for d in (0, 1):
            b = canon(B.bit(v, d))
            L.want(f, proves(b, ("bit", src, d)), "kept|%d" % d, "direction %d may be allowed although the incoming code forbids it" % d)
            for what, g, given, msg in goals(f, K, i, d):
                L.want(f, proves(b, g, given), "%s|%d" % (what, d), msg + " (direction %d is allowed when %s)" % (d, tshow(b)[:300]))


def E_of(i):
    return at(("p", "cands"), i)


def V_of(i, d):
    return at(verts_of(1), add(mul(c(2), E_of(i)), c(d)))


def cdim(d, x):
    return at(call("get_array", MESH, d if isinstance(d, tuple) else c(d), ("s", "class_dim")), x)


def class_goals(f, K, i, d):
    e = cdim(1, E_of(i))
    a, b = cdim(0, V_of(i, 0)), cdim(0, V_of(i, 1))
    trans = conj(*[disj(neg_deep(conj(eq(x, y), eq(y, z))), eq(x, z))
                   for x, y, z in ((a, b, e), (b, a, e), (a, e, b))])
    yield "class", eq(cdim(0, V_of(i, d)), e), trans, \
        "a vertex may collapse along an edge classified on another dimension"


def exposure_goals(f, K, i, d):
    cd = ("p", "cell_dim")
    upc = call("ask_up", MESH, EDGE, cd)
    k = around(upc, E_of(i))
    code = at(mem("codes", upc), k)
    cell = at(mem("ab2b", upc), k)
    rot = call("code_rotation", code)
    rot = rot if d == 1 else ("^", c(1), rot)
    onto = call("simplex_down_template", cd, EDGE, call("code_which_down", code), rot)
    opp = call("simplex_opposite_template", cd, VERT, onto)
    low = add(cd, c(-1))
    side = at(mem("ab2b", call("ask_down", MESH, cd, low)),
              add(mul(cell, call("simplex_degree", cd, low)), opp))
    yield "exposure", neg(ex(k, neg(eq(cdim(low, side), cdim(cd, cell))))), TRUE, \
        "a collapse may expose a side classified below the cells it bounds"


def overshoot_goals(f, K, i, d):
    m = re.search(r"<(\d+),\s*(\d+)>", f.sig())
    ve = up(0, 1)
    k = around(ve, V_of(i, d))
    e2 = at(mem("ab2b", ve), k)
    wd = call("code_which_down", at(mem("codes", ve), k))
    onto = V_of(i, 1 - d)
    # the kernel's own measurer: any object of the metric edge length class for this mesh
    meas = None
    for t in find(K, lambda t: t[:2] == ("call", "measure")):
        meas = t[2]
    if meas is None or not (meas[0] == "new" and re.match(r"MetricEdgeLengths<", meas[1]) and MESH in meas):
        raise Broken("overshoot: no edge length is measured in the metric")
    new = ("upd", ("upd", ("undef", "Few<int, 2>"), wd, onto), add(c(1), wd, -1), at(verts_of(1), add(add(c(1), mul(c(2), e2)), wd, -1)))
    alt = ("upd", ("upd", ("undef", "Few<int, 2>"), add(c(1), wd, -1), at(verts_of(1), add(add(c(1), mul(c(2), e2)), wd, -1))), wd, onto)
    L = ("p", "max_length")
    out = None
    for x in (new, alt):
        g = neg(ex(k, conj(neg(eq(e2, E_of(i))), neg(lt(call("measure", meas, x), L)))))
        g2 = g
        if any(t == call("measure", meas, x) for t in find(K, lambda t: t[:2] == ("call", "measure"))):
            out = g
    if out is None:
        out = neg(ex(k, conj(neg(eq(e2, E_of(i))), neg(lt(call("measure", meas, new), L)))))
    yield "overshoot", out, TRUE, "a collapse may stretch an edge to the maximum length or beyond"


def find(K, pred):
    """All subterms of the run's stored values and conditions."""
    out, seen = [], set()

    def go(t):
        if not isinstance(t, tuple) or id(t) in seen:
            return
        seen.add(id(t))
        if pred(t) and t not in out:
            out.append(t)
        for x in t:
            go(x)
    for e in K.events:
        for x in e.data:
            if isinstance(x, tuple):
                go(x)
        for x in e.pc:
            go(x)
    return [canon(t) for t in out]


def flip_goals(f, K, i, d):
    m = re.search(r"<(\d+)>", f.sig())
    if not m:
        raise Broken("flip: dimension of %s unknown" % f.sig())
    dim = int(m.group(1))
    sd = dim - 1
    n = dim
    vs = up(0, sd)
    k = around(vs, V_of(i, d))
    s = at(mem("ab2b", vs), k)
    wd = call("code_which_down", at(mem("codes", vs), k))
    onto = V_of(i, 1 - d)
    sv = lambda j: at(verts_of(sd), add(mul(c(n), s), c(j)))
    new = ("upd", call("gather_verts<%d>" % n, verts_of(sd), s), wd, onto)
    N = call("gather_vectors<%d,%d>" % (n, dim), ("p", "normals"), new)
    X = call("gather_vectors<%d,%d>" % (n, dim), call("coords", MESH), new)
    sn = call("get_side_vector", X)
    dots = []
    for j in range(n):
        dots.append([("va", "*", at(N, c(j)), sn), ("va", "*", sn, at(N, c(j)))])
    have = find(K, lambda t: t[:2] == ("va", "*"))
    bads = []
    for j, alts in enumerate(dots):
        x = next((a for a in alts if a in have), alts[0])
        bads.append(neg(le(("p", "eps"), x)))
    gone = disj(*[eq(onto, sv(j)) for j in range(n)])
    g = neg(ex(k, conj(at(("p", "sides"), s), neg_deep(gone), disj(*bads))))
    yield "flip", disj(neg(at(("p", "verts"), V_of(i, d))), g), TRUE, \
        "a collapse may turn an exposed side over"


# ------------------------------------------------------------------ minimum over new elements
def leaves(t, pc=TRUE):
    if t[0] == "ite":
        yield from leaves(t[2], conj(pc, t[1]))
        yield from leaves(t[3], conj(pc, neg_deep(t[1])))
    elif pc != FALSE:
        yield pc, t


def operands(t):
    return list(t[1:]) if t[0] == "min" else [t]


def is_measure(t, cls):
    return t[:2] == ("call", "measure") and t[2][0] == "new" and re.match(cls, t[2][1]) is not None


def perm_of(v, n, base=None):
    """The elements of a small vertex array built by assignments at constant positions."""
    out = {}
    while v[0] == "upd":
        if isc(v[2]):
            out.setdefault(v[2][1], v[3])
        else:
            out.setdefault(v[2], v[3])
        v = v[1]
    return out, v


def coarsen_quals(P, R):
    L = Lem(P, R, "Omega_h::coarsen_qualities_tmpl", ["mesh", "cands", "codes"], "quality")
    for f, K in L.each():
        md = int(re.search(r"<(\d+),", f.sig()).group(1))
        arr, lst, de, w = synced(K.res)
        L.want(f, lst == ("p", "cands"), "sync", "the qualities are not synchronised over the candidates")
        L.want(f, lst is None or de[0] == "f" and float(de[1]) < 0, "default", "the quality of a candidate nobody evaluated is not negative")
        L.want(f, w in (c(2), None), "width", "two qualities per candidate are not synchronised as two")
        for d in (0, 1):
            v, i = value(K, arr, d, 2)
            if i is None:
                L.missing(f, K, arr, "quality of direction %d" % d)
                continue
            B = Bits([at(("p", "codes"), i)])
            v = canon(elem_verts(v, md))
            for pc, leaf in leaves(v):
                if leaf[0] == "f" and float(leaf[1]) < 0:
                    continue
                if leaf[0] != "fold":
                    L.bad(f, "min|%d" % d, "a candidate gets quality %s" % tshow(leaf)[:120])
                    continue
                _, b, init, step, brk, mu = leaf
                vc = up(0, md)
                k = around(vc, V_of(i, d), b[3])
                L.want(f, b == k, "cavity|%d" % d, "the quality is taken over %s, not over the elements around the vertex that collapses" % tshow(b))
                L.want(f, init in (("f", 1.0), ("f", "1.0")) or init[0] == "f", "start|%d" % d, "the minimum starts from %s" % tshow(init))
                L.want(f, brk == FALSE or brk is None, "all|%d" % d, "the loop over the elements may stop early")
                cell = at(mem("ab2b", vc), b)
                wd = call("code_which_down", at(mem("codes", vc), b))
                onto = V_of(i, 1 - d)
                cv = [cell_vert(md, cell, j) for j in range(md + 1)]
                dies = disj(*[eq(onto, x) for x in cv])
                notself = conj(*[neg_deep(conj(eq(onto, x), eq(wd, c(j)))) for j, x in enumerate(cv)])
                for p, l in leaves(step):
                    if l == mu:
                        L.want(f, implies(norm_ev(p), dies, notself), "skipped|%d" % d, "an element that survives the collapse is left out of the minimum when %s" % tshow(p)[:200])
                        continue
                    L.want(f, implies(norm_ev(p), neg_deep(disj(*[conj(eq(onto, x), neg(eq(wd, c(j)))) for j, x in enumerate(cv)]))), "dead|%d" % d, "an element that contains both vertices, and disappears, is judged")
                    ops = operands(l)
                    L.want(f, l[0] == "min" and mu in ops, "least|%d" % d, "the running value becomes %s instead of a minimum" % tshow(l)[:160])
                    ok = any(is_measure(o, "MetricElementQualities<") and o[3] == ("upd", call("gather_verts<%d>" % (md + 1), EV(md), cell), wd, onto) for o in map(norm_ev, ops))
                    L.want(f, ok, "element|%d" % d, "the quality of the element with the vertex moved onto its neighbour is not part of the minimum")


def EV(md):
    return verts_of(md)


def norm_ev(t):
    """mesh->ask_elem_verts() is mesh->ask_verts_of(dim)."""
    return t


def cell_vert(md, cell, j):
    return at(EV(md), add(mul(c(md + 1), cell), c(j)))


# the element vertices of a mesh of known dimension
def elem_verts(t, md):
    return subst(t, lambda x: verts_of(md) if x == call("ask_elem_verts", MESH) else None)



# ------------------------------------------------------------------ cases
def rebuild(t, f, memo=None):
    """Substitute and re-simplify: constants propagate through arithmetic, small arrays and choices."""
    if memo is None:
        memo = {}
    if not isinstance(t, tuple):
        return t
    k = id(t)
    if k in memo:
        return memo[k][1]
    r = f(t)
    if r is None:
        x = tuple(rebuild(y, f, memo) for y in t)
        h = x[0] if x else ""
        if h == "+":
            r = c(x[1])
            for n, y in x[2]:
                r = add(r, mul(c(n), y))
        elif h == "*":
            r = mul(x[1], x[2]) if len(x) == 3 else x
        elif h in ("<", "<=", "=="):
            r = _K.cmp(h, x[1], x[2])
        elif h == "ite":
            r = ite(x[1], x[2], x[3])
        elif h == "and":
            r = conj(*x[1:])
        elif h == "not":
            r = neg_deep(x[1])
        elif h in ("^", "&", "|"):
            r = _K.arith(h, x[1], x[2])
        elif h == "b":
            r = _K.arith(x[1], x[2], x[3])
        elif h == "at" and len(x) == 3:
            r = _K.sel(x[1], x[2])
        elif h in ("min", "max"):
            r = (h,) + tuple(sorted(set(x[1:]), key=repr))
        else:
            r = x
        g = f(r)
        if g is not None:
            r = g
    memo[k] = (t, r)
    return r


def few(t, n):
    return [_K.sel(t, c(j)) for j in range(n)]


def even(p):
    """Sign of the permutation that takes range(len(p)) to p."""
    s = 0
    for i in range(len(p)):
        for j in range(i):
            s += p[j] > p[i]
    return s % 2 == 0


def same_simplex(a, b):
    """Two vertex lists are the same oriented simplex."""
    if sorted(map(repr, a)) != sorted(map(repr, b)) or len(set(map(repr, a))) != len(a):
        return False
    return even([b.index(x) for x in a])


# ------------------------------------------------------------------ qualities of splits
def refine_quals(P, R):
    L = Lem(P, R, "Omega_h::refine_qualities_tmpl", ["mesh", "cands"], "quality",
            inline=lambda g: "refine_" in g.file)
    for f, K in L.each():
        md = int(re.search(r"<(\d+),", f.sig()).group(1))
        arr, lst, de, w = synced(K.res)
        L.want(f, lst == ("p", "cands"), "sync", "the qualities are not synchronised over the candidates")
        L.want(f, lst is None or de[0] == "f" and float(de[1]) < 0, "default", "the quality of a candidate nobody evaluated is not negative")
        L.want(f, w in (c(1), None), "width", "one quality per candidate is synchronised as %s" % tshow(w or ("?",)))
        v, i = value(K, arr, 0, 1)
        if i is None:
            L.missing(f, K, arr, "quality")
            continue
        v = canon(v)
        for pc, leaf in leaves(v):
            if leaf[0] == "f" and float(leaf[1]) < 0:
                continue
            if leaf[0] != "fold":
                L.bad(f, "min", "a candidate gets quality %s" % tshow(leaf)[:120])
                continue
            _, b, init, step, brk, mu = leaf
            L.want(f, b == around(up(1, md), E_of(i), b[3]), "cavity", "the quality is taken over %s, not over the elements around the edge" % tshow(b))
            L.want(f, brk == FALSE or brk is None, "all", "the loop over the elements may stop early")
            L.want(f, init[0] == "f", "start", "the minimum starts from %s" % tshow(init))
            for p, l in leaves(step):
                ops = operands(l)
                L.want(f, l[0] == "min" and mu in ops, "least", "the running value becomes %s instead of a minimum" % tshow(l)[:160])
                q = [o for o in ops if o != mu and not (o[0] == "f")]
                L.want(f, len(q) == 2, "halves", "%d new elements per old one are judged instead of 2" % len(q))
                for x in q:
                    halves(L, f, md, i, b, x)
                for dde in range(len(EDGES[md])):
                    for rot in (0, 1):
                        got = [half(L, f, md, i, b, x, dde, rot) for x in q]
                        ends = [TAB.down(md, 1, dde, 0), TAB.down(md, 1, dde, 1)]
                        want = [["m" if j == e else j for j in range(md + 1)] for e in ends]
                        ok = all(any(g is not None and same_simplex(g, w) for g in got) for w in want)
                        L.want(f, ok, "split", "for edge %d of an element, rotated by %d, the elements judged are %s, not the two it is split into" % (dde, rot, got))


EDGES = {1: [0], 2: [0, 1, 2], 3: [0, 1, 2, 3, 4, 5]}
TAB = None


def half(L, f, md, i, b, q, dde, rot):
    """Local vertices ("m": the midpoint) of a judged element, for an edge at place dde of its element."""
    if q[:1] != ("call",) or not q[1].startswith("metric_element_quality"):
        return None
    codes = at(mem("codes", up(1, md)), b)
    cell = at(mem("ab2b", up(1, md)), b)
    EVERT = call("gather_verts<2>", verts_of(1), E_of(i))
    ep = call("gather_vectors<2,%d>" % md, call("coords", MESH), EVERT)
    mid = ("va", "/", ("va", "+", at(ep, c(0)), at(ep, c(1))), ("f", 2.0))

    def g(x):
        if x == call("code_which_down", codes):
            return c(dde)
        if x == call("code_rotation", codes):
            return c(rot)
        return TAB(x)

    def vert(t):
        for j in range(md + 1):
            if t == cell_vert(md, cell, j) or t == at(call("gather_verts<%d>" % (md + 1), verts_of(md), cell), c(j)):
                return j
        return None
    r = rebuild(q, g)
    ps = []
    for p in few(r[2], md + 1):
        if p == mid:
            ps.append("m")
        elif p[:1] == ("call",) and p[1].startswith("get_vector") and p[2] == call("coords", MESH):
            ps.append(vert(p[3]))
        else:
            ps.append(None)
    ms = []
    m = r[3]
    if m[:1] != ("call",) or not m[1].startswith("maxdet_metric"):
        return None
    for p in few(m[2], md + 1):
        if p[:1] != ("call",) or not p[1].startswith("get_symm") or p[2][:1] != ("mem",):
            ms.append(None)
        elif p[2][1] == "midpt_metrics":
            ms.append("m" if p[3] == i else None)
        elif p[2][1] == "vert_metrics":
            ms.append(vert(p[3]))
    if None in ps or sorted(map(repr, ps)) != sorted(map(repr, ms)):
        return None
    return ps


def halves(L, f, md, i, b, q):
    L.want(f, q[:1] == ("call",) and q[1].startswith("metric_element_quality"), "measure", "a new element is judged by %s" % tshow(q)[:80])


# ------------------------------------------------------------------ measures and direction codes
def measures(P, R):
    want = {"MetricElementQualities": lambda d, m: "metric_element_quality", "MetricEdgeLengths": None}
    for cls in ("MetricElementQualities", "MetricEdgeLengths", "MetricRefineQualities"):
        fs = [f for f in P.fns if re.match(r"Omega_h::%s<" % cls, f.q) and (f.body or f.d.get("inits"))]
        if not fs:
            raise Broken("no measure %s" % cls)
        for f in fs:
            d, m = map(int, re.search(r"<(\d+), ?(\d+)>", f.q).groups())
            R.count("functions analysed")

            def want(ok, what, msg):
                R.count("obligations")
                if not ok:
                    R.bad("measure", "measure|%s|%s" % (cls, what), "%s:%d" % (f.file, f.line), "%s: %s" % (f.q, msg))
            if f.name == "measure":
                K = Kern(P, inline=lambda g: False)
                a = [("p", p["n"]) for p in f.params]
                r = K.run(f, a)
                this = lambda n: mem(n, ("this",))
                if cls == "MetricElementQualities":
                    w = call("metric_element_quality<%d>" % d, call("gather_vectors<%d,%d>" % (d + 1, d), this("coords"), a[0]),
                             call("maxdet_metric<%d,%d>" % (m, d + 1), call("gather_symms<%d,%d>" % (d + 1, m), this("metrics"), a[0])))
                    want(unthis(r) == w, "measure", "an element is measured as %s" % tshow(r)[:200])
                elif cls == "MetricEdgeLengths":
                    want(unthis(r) == call("metric_edge_length<%d,%d>" % (d, m), a[0], this("coords"), this("metrics")), "measure", "an edge is measured as %s" % tshow(r)[:200])
            else:
                K = Kern(P, inline=lambda g: False)
                K.fn = f
                for p in f.params:
                    K.env[(p["d"],)] = ("p", p["n"])
                metric = call("get_array", ("p", f.params[0]["n"]), c(0), ("s", "metric"))
                for n in f.d.get("inits") or ():
                    t = K.x(n["e"])
                    if n.get("deleg"):
                        want(t[-1] == metric and t[2] == ("p", f.params[0]["n"]), "metric", "the metric used is %s" % tshow(t[-1])[:160])
                        continue
                    w = {"coords": call("coords", ("p", f.params[0]["n"])), "vert_metrics": metric}.get(n["n"])
                    if n["n"] == "metrics":
                        w = ("p", f.params[-1]["n"])
                    if n["n"] == "midpt_metrics":
                        want(t[:2] == ("call", "get_mident_metrics") and t[3:6] == (c(1), ("p", f.params[1]["n"]), metric), "midpoint", "the metric of midpoints is %s" % tshow(t)[:160])
                    elif w is not None:
                        want(t == w, n["n"], "%s are %s" % (n["n"], tshow(t)[:160]))


def unthis(t):
    """Members of the object itself, however it is named."""
    return subst(t, lambda x: ("this",) if x in (("call", "this"), ("this",)) else None) if t else t


def direction_codes(P, R):
    """collapses, do_collapse and dont_collapse work on one bit per direction."""
    for q, w in (("collapses", lambda k, d: int(bool(k >> d & 1))), ("do_collapse", lambda k, d: k | 1 << d), ("dont_collapse", lambda k, d: k & ~(1 << d))):
        for k in range(4):
            for d in (0, 1):
                R.count("obligations")
                v = TAB.val(q, k, d)
                if v != w(k, d):
                    f = P.fn("Omega_h::" + q)[0]
                    R.bad("codes", "codes|" + q, "%s:%d" % (f.file, f.line), "%s(%d, %d) is %s, not %d" % (q, k, d, v, w(k, d)))


# ------------------------------------------------------------------ swaps
def pairwise(md, E, i):
    """The two triangles of an edge and its two opposite vertices, by rotation."""
    u = up(1, md)
    e0 = at(mem("a2ab", u), E)
    out = []
    for j in (0, 1):
        et = add(e0, c(j))
        code = at(mem("codes", u), et)
        tri = at(mem("ab2b", u), et)
        opp = at(verts_of(2), add(mul(c(3), tri), call("simplex_opposite_template", c(2), EDGE, call("code_which_down", code))))
        out.append((call("code_rotation", code), opp))
    return out


def swap2d_quals(P, R):
    L = Lem(P, R, "Omega_h::swap2d_qualities_tmpl", ["mesh", "opts", "cands"], "swap")
    for f, K in L.each():
        arr, lst, de, w = synced(K.res)
        L.want(f, lst == ("p", "cands"), "sync", "the qualities are not synchronised over the candidates")
        L.want(f, lst is None or de[0] == "f" and float(de[1]) < 0, "default", "the quality of a candidate nobody evaluated is not negative")
        L.want(f, w in (c(1), None), "width", "one quality per candidate is synchronised as %s" % tshow(w or ("?",)))
        v, i = value(K, arr, 0, 1)
        if i is None:
            L.missing(f, K, arr, "quality")
            continue
        E = E_of(i)
        (r0, o0), (r1, o1) = pairwise(2, E, i)
        ev = [at(verts_of(1), add(mul(c(2), E), c(j))) for j in (0, 1)]
        for case in (0, 1):
            ov = [o0, o1] if case == 0 else [o1, o0]
            t = rebuild(canon(v), lambda x: c(case) if x == r0 else c(1 - case) if x == r1 else None)
            for pc, leaf in leaves(t):
                if leaf[0] == "f" and float(leaf[1]) < 0:
                    continue
                short_ = []
                for a in atoms(pc):
                    if a[0] == "<" and is_measure(a[2], "MetricEdgeLengths<") and a[1] == mem("max_length_allowed", ("p", "opts")):
                        if sorted(map(repr, few(a[2][3], 2))) == sorted(map(repr, ov)):
                            short_.append(neg(a))
                L.want(f, any(implies(pc, s) for s in short_), "length", "a swap may create an edge longer than the allowed maximum (accepted when %s)" % tshow(pc)[:300])
                owned = at(call("owned", MESH, EDGE), E)
                L.want(f, implies(pc, owned), "owner", "a rank judges the cavity of an edge it does not own")
                ops = operands(leaf)
                for j in (0, 1):
                    tri = [ev[1 - j], ov[j], ov[1 - j]]
                    ok = leaf[0] == "min" and any(is_measure(o, "MetricElementQualities<") and same_simplex(few(o[3], 3), tri) for o in ops)
                    L.want(f, ok, "tri|%d" % j, "the quality of new triangle %d is not part of the minimum" % j)


def memo(t):
    """Values remembered in a table by the index they were computed from."""
    def g(x):
        if x[:1] == ("ite",) and x[1][:1] == ("at",) and x[1][1][:1] == ("mu",) and x[2][:1] == ("at",) and \
                x[2][1][:1] == ("mu",) and x[1][2] == x[2][2] and x[1][1] != x[2][1]:
            return memo(x[3])
        return None
    return subst(t, g)


def swap3d_choice(P, R):
    L = Lem(P, R, "Omega_h::swap3d::choose", ["loop", "quality", "length", "maxlen"], "swap")
    for f, K in L.each():
        r = K.res
        d = dict(r[1:]) if r[0] == "rec" else {}
        m, q = d.get(("mesh",)), d.get(("quality",))
        if m is None or q is None or m[0] != "fold" or q[0] != "fold":
            raise Broken("swap3d::choose: the choice is not built up by a loop over the configurations")
        L.want(f, m[1] == q[1], "loop", "configuration and quality are chosen over different ranges")
        L.want(f, isc(m[2]) and m[2][1] < 0, "none", "without an acceptable configuration, configuration %s is reported" % tshow(m[2]))
        L.want(f, q[2][0] == "f" and q[2][1] >= 0 or isc(q[2]) and q[2][1] >= 0, "floor", "a configuration of negative quality may be chosen")
        floor = float(q[2][1]) if q[2][0] in "fc" else 0.0
        size = mem("size", ("p", "loop"))
        b = m[1]
        got = [(pc, l) for pc, l in leaves(m[3]) if l != m[5]]
        gotq = [(pc, l) for pc, l in leaves(q[3]) if l != q[5]]
        L.want(f, bool(got) and len(got) == len(gotq) and all(a[0] == bq[0] for a, bq in zip(got, gotq)), "together",
               "configuration and quality are not replaced under the same condition")
        L.want(f, all(l == b for pc, l in got), "index", "the configuration recorded is not the one examined")
        for pc, Q in gotq:
            Q0 = Q
            if not implies(pc, lt(q[5], Q)):
                L.bad(f, "better", "a configuration replaces the choice without being better")
            for s in range(4):
                if Q[0] == "ite":
                    Q = Q[3] if Q[3][0] == "fold" else Q[2]
            if Q[0] != "fold":
                L.bad(f, "min", "the quality of a configuration is %s" % tshow(Q)[:160])
                continue
            _, b1, i1, st, br, mu1 = Q
            sizes = at(("g", "swap_mesh_sizes"), size)
            L.want(f, b1[1] == c(0) and b1[2] == sizes, "tris", "the minimum runs over %s, not over the triangles of the configuration" % tshow(b1))
            ok = br == FALSE or br is None or br[0] == "<" and br[1] == st and br[2][0] == "f" and br[2][1] <= floor
            L.want(f, ok, "early", "the loop over the new elements may stop early when %s" % tshow(br)[:160])
            ops = operands(memo(st))
            ops = [o for o in ops]
            tri = at(at(("g", "swap_triangles"), size), at(at(("g", "swap_meshes"), size), add(mul(sizes, b), b1)))
            t = [at(mem("loop_verts2verts", ("p", "loop")), at(tri, c(j))) for j in range(3)]
            e = [at(mem("eev2v", ("p", "loop")), c(j)) for j in range(2)]
            flat = []
            for o in ops:
                flat.extend(operands(o))
            L.want(f, mu1 in flat, "least", "the running minimum of the configuration is dropped")
            for j, tet in enumerate(([t[0], t[1], t[2], e[1]], [t[0], t[2], t[1], e[0]])):
                ok = any(o[:2] == ("call", "measure") and o[2] == ("p", "quality") and same_simplex(few(o[3], 4), tet) for o in flat)
                L.want(f, ok, "tet|%d" % j, "the quality of new tet %d of each triangle is not part of the minimum" % j)
        for pc, l in got:
            ne = at(("g", "nedges"), size)
            ok = False
            for x in atoms(pc):
                if x[0] == "ex" and implies(pc, neg(x)):
                    k = x[1]
                    body = memo(x[2])
                    if k[1] != c(0) or k[2] != ne:
                        continue
                    u = at(at(at(("g", "edges2unique"), size), b), k)
                    ue = [at(mem("loop_verts2verts", ("p", "loop")), at(at(at(("g", "unique_edges"), size), u), c(j))) for j in (0, 1)]
                    for a in atoms(body):
                        if a[0] == "<" and a[1] == ("p", "maxlen") and a[2][:3] == ("call", "measure", ("p", "length")) and \
                                sorted(map(repr, few(a[2][3], 2))) == sorted(map(repr, ue)) and implies(a, body):
                            ok = True
            L.want(f, ok, "length", "a configuration may be chosen although one of its new edges is longer than the allowed maximum")


def swap3d_quals(P, R):
    L = Lem(P, R, "Omega_h::swap3d_qualities_tmpl", ["mesh", "opts", "cands", "quals", "configs"], "swap")
    for f, K in L.each():
        outs = {}
        for j, nm in ((3, "quality"), (4, "mesh")):
            t = K.env.get((f.params[j]["d"],))
            if t is None:
                raise Broken("swap3d_qualities: output %s is never set" % f.params[j]["n"])
            arr, lst, de, w = synced(t)
            L.want(f, lst == ("p", "cands"), "sync|" + nm, "the %s of the candidates is not synchronised" % nm)
            L.want(f, w in (c(1), None), "width|" + nm, "one %s per candidate is synchronised as %s" % (nm, tshow(w or ("?",))))
            L.want(f, lst is None or rejected(de) and de[1] < 0, "default|" + nm, "the default %s of a candidate nobody evaluated is %s" % (nm, tshow(de)))
            v, i = value(K, arr, 0, 1)
            if i is None:
                L.missing(f, K, arr, nm)
                continue
            for pc, leaf in leaves(canon(v)):
                if (leaf[0] == "f" or isc(leaf)) and leaf[1] < 0:
                    continue
                if not (leaf[0] == "mem" and leaf[1] == nm and leaf[2][:2] == ("call", "choose")):
                    L.bad(f, "choice|" + nm, "the %s of a candidate is %s" % (nm, tshow(leaf)[:160]))
                    continue
                ch = leaf[2]
                outs.setdefault(nm, []).append(ch)
                loop, ql, ln, mx = ch[2:6]
                u = up(1, 3)
                want = call("find_loop", mem("a2ab", u), mem("ab2b", u), mem("codes", u), verts_of(1), verts_of(3), E_of(i))
                L.want(f, loop == want, "loop|" + nm, "the loop of vertices examined is not that of the candidate edge")
                L.want(f, ql[0] == "new" and ql[1].startswith("MetricElementQualities<") and ln[0] == "new" and ln[1].startswith("MetricEdgeLengths<"), "measures|" + nm, "qualities and lengths are not measured in the metric")
                L.want(f, mx == mem("max_length_allowed", ("p", "opts")), "maxlen|" + nm, "new edges are compared to %s, not to the allowed maximum" % tshow(mx))
                L.want(f, implies(pc, le(mem("size", loop), c(7))), "size|" + nm, "loops of more than 7 vertices are looked up in the swap tables")
                L.want(f, implies(pc, at(call("owned", MESH, EDGE), E_of(i))), "owner|" + nm, "a rank judges the cavity of an edge it does not own")
        L.want(f, outs.get("mesh") == outs.get("quality"), "same", "configuration and quality come from different choices")


# ------------------------------------------------------------------ filters of directions
def filter_dirs(P, R):
    L = Lem(P, R, "Omega_h::filter_coarsen_dirs", ["codes", "keep"], "dirs")
    for f, K in L.each():
        v, i = value(K, K.res, 0, 1)
        if i is None:
            raise Broken("filter_coarsen_dirs: no code is stored per candidate")
        src = at(("p", "codes"), i)
        B = Bits([src])
        for d in (0, 1):
            b = B.bit(v, d)
            L.want(f, implies(b, conj(("bit", src, d), at(("p", "keep"), add(mul(c(2), i), c(d))))), "keep|%d" % d,
                   "direction %d survives although it is not to be kept" % d)
    see = lambda g: True
    OPQ = {"each_geq_to", "gt_each", "filter_coarsen_dirs", "unmap", "graph_reduce"}
    for q, names, goal in (
            ("Omega_h::filter_coarsen_min_qual", ["codes", "quals", "min"], lambda: call("each_geq_to", ("p", "quals"), ("p", "min"))),
            ("Omega_h::filter_coarsen_improve", ["mesh", "cands", "codes", "quals"],
             lambda: call("gt_each", ("p", "quals"), call("unmap", ("p", "cands"), call("unmap", verts_of(1), call("sync_array", MESH, VERT, call("graph_reduce", call("ask_up", MESH, VERT, call("dim", MESH)), call("ask_qualities", MESH), c(1), MIN(P)), c(1)), c(1)), c(2))))):
        L = Lem(P, R, q, names, "dirs")
        for f, K in L.each():
            v, i = value(K, K.res, 0, 1)
            if i is None:
                raise Broken("%s: no code is stored per candidate" % q)
            src = at(("p", "codes"), i)
            B = Bits([src])
            g = goal()
            for d in (0, 1):
                b = canon(B.bit(v, d))
                L.want(f, implies(b, conj(("bit", src, d), at(g, add(mul(c(2), i), c(d))))), "keep|%d" % d,
                       "direction %d survives without passing %s; it survives when %s" % (d, tshow(g)[:160], tshow(b)[:300]))


def MIN(P):
    return ("c", P.enum("OMEGA_H_MIN")) if hasattr(P, "enum") else ("c", 0)


# ------------------------------------------------------------------ rails
def rails(P, R):
    L = Lem(P, R, "Omega_h::choose_rails", ["mesh", "cands", "codes", "quals", "vcands", "vquals", "vrails"], "rails")
    for f, K in L.each():
        arrs = {}
        for j, nm in ((4, "cand"), (5, "qual"), (6, "rail")):
            t = K.env.get((f.params[j]["d"],))
            if t is None:
                raise Broken("choose_rails: output %s is never set" % f.params[j]["n"])
            ok = t[:2] == ("call", "sync_array") and t[3] == VERT
            L.want(f, ok, "sync|" + nm, "the %s of the vertices is not synchronised between ranks" % nm)
            arr = t[4] if ok else t
            v, i = value(K, arr, 0, 1)
            if i is None:
                raise Broken("choose_rails: no %s is stored per vertex" % nm)
            arrs[nm] = canon(v)
        folds = {k: v for k, v in arrs.items() if v[0] == "fold"}
        if len(folds) != 3:
            # one of the outputs may be derived from another
            c1 = arrs["cand"]
            if c1[0] != "fold" and arrs["rail"][0] == "fold":
                ok = c1 in (neg(eq(arrs["rail"], c(-1))), ite(neg(eq(arrs["rail"], c(-1))), c(1), c(0)))
                L.want(f, ok, "cand", "a vertex is a candidate when %s" % tshow(c1)[:200])
        ve = up(0, 1)
        new = {}
        for nm, v in folds.items():
            _, b, init, step, brk, mu = v
            L.want(f, b == around(ve, i, b[3]), "edges|" + nm, "edges other than those of the vertex are considered")
            L.want(f, rejected(init) or isc(init) and int(init[1]) <= 0, "init|" + nm, "without a candidate edge, the %s of a vertex is %s" % (nm, tshow(init)))
            new[nm] = [(pc, l) for pc, l in leaves(step) if l != mu]
        e = at(mem("ab2b", ve), b)
        wd = call("code_which_down", at(mem("codes", ve), b))
        cand = at(call("invert_injective_map", ("p", "cands"), call("nedges", MESH)), e)
        allow = call("collapses", at(("p", "codes"), cand), wd)
        want = {"cand": TRUE, "rail": at(call("globals", MESH, EDGE), e), "qual": at(("p", "quals"), add(mul(c(2), cand), wd))}
        conds = {}
        for nm, ls in new.items():
            conds[nm] = set(tshow_key(pc) for pc, l in ls)
            for pc, l in ls:
                L.want(f, implies(pc, allow), "allowed|" + nm, "a vertex is given a collapse its code does not allow")
                L.want(f, implies(pc, neg(eq(cand, c(-1)))), "iscand|" + nm, "an edge that is no candidate supplies a collapse")
                ok = l == want[nm] or nm == "cand" and l == c(1)
                L.want(f, ok, "value|" + nm, "the %s recorded is %s, not that of the chosen edge" % (nm, tshow(l)[:160]))
        L.want(f, len(set(map(frozenset, conds.values()))) <= 1, "together", "candidate flag, quality and rail are not taken from the same edge")
        if "rail" in new and "qual" in folds:
            shortest(L, f, K, folds, new, e, want["qual"])
    L = Lem(P, R, "Omega_h::find_rails", ["mesh", "keys", "rails", "edges", "dirs"], "rails")
    for f, K in L.each():
        both = {}
        for j, nm in ((3, "edge"), (4, "dir")):
            arr = K.env.get((f.params[j]["d"],))
            if arr is None:
                raise Broken("find_rails: output %s is never set" % f.params[j]["n"])
            es = stores(K, arr)
            L.want(f, bool(es), "some|" + nm, "the %s of a key is never found" % nm)
            for e in es:
                i = [b for b in e.binders if b[0] == "i"][0]
                V = at(("p", "keys"), i)
                ve = up(0, 1)
                v = canon(e.data[2])
                ks = [t for t in subterms(v) if t[:1] == ("bv",)]
                k = ks[0] if ks else None
                ok = k is not None and k[1:3] == around(ve, V)[1:3] and e.data[1] == i
                L.want(f, ok, "range|" + nm, "the %s of a key is searched in %s" % (nm, tshow(k) if k else "?"))
                if not ok:
                    continue
                ed = at(mem("ab2b", ve), k)
                wd = call("code_which_down", at(mem("codes", ve), k))
                L.want(f, v == (ed if nm == "edge" else wd), "value|" + nm, "%s is recorded as the %s of the collapse" % (tshow(v)[:160], nm))
                m = eq(at(call("globals", MESH, EDGE), ed), at(("p", "rails"), V))
                L.want(f, implies(canon(conj(*e.pc)), m), "match|" + nm, "an edge is taken although its global number is not the chosen one")
    if not True:
        pass


def shortest(L, f, K, folds, new, e, q):
    """The edge kept is the shortest, and among those of equal length one of best quality."""
    U = disj(*[pc for pc, l in new["rail"]])
    ln = at(call("ask_lengths", MESH), e)
    mq, mr = folds["qual"][5], folds["rail"][5]
    mc = folds["cand"][5] if "cand" in folds else None
    state = {}
    for b, brk, st in K.loops:
        if mr in st:
            state = {k: (canon(i), canon(s) if s is not None else k) for k, (i, s) in st.items()}
            L.want(f, brk == FALSE, "all", "the search for the best edge may stop early")
    ml = [k for k, (i, s) in state.items() if any(l == ln for pc, l in leaves(s))]
    L.want(f, len(ml) == 1, "length", "the length of the edge kept is not remembered")
    if len(ml) != 1:
        return
    ml = ml[0]
    L.want(f, {tshow_key(pc) for pc, l in leaves(state[ml][1]) if l != ml} == {tshow_key(pc) for pc, l in new["rail"]}, "lengthtoo", "the length remembered is not that of the edge kept")
    for had in (False, True):
        for o1 in (-1, 0, 1):
            for o2 in (-1, 0, 1):
                def g(x):
                    if x == mc:
                        return c(had)
                    if x[0] == "==" and mr in x[1:] and c(-1) in x[1:]:
                        return c(not had)
                    for a, b, o in ((ln, ml, o1), (q, mq, o2)):
                        if x[0] in ("<", "<=", "==") and set(x[1:]) == {a, b}:
                            s = o if x[1] == a else -o
                            return c(s < 0 if x[0] == "<" else s <= 0 if x[0] == "<=" else s == 0)
                    return None
                r = rebuild(U, g)
                ok = conj(*[y for y in ([r] if r[0] != "and" else list(r[1:]))])
                free = isc(r) and not r[1]
                if not had or o1 < 0 or o1 == 0 and o2 > 0:
                    L.want(f, not free, "shortest", "a vertex does not collapse along its shortest allowed edge (length %s, quality %s the one kept)" % ("=<>"[o1] if o1 >= 0 else "<", "=<>"[o2] if o2 >= 0 else "<"))
                elif o1 > 0 or o1 == 0 and o2 < 0:
                    L.want(f, free, "shortest", "a longer edge, or one of equal length and lower quality, replaces the one kept")


def tshow_key(t):
    return repr(t)


def subterms(t, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if isinstance(t, tuple) and id(t) not in seen:
        seen.add(id(t))
        out.append(t)
        for x in t:
            subterms(x, out, seen)
    return out


# ------------------------------------------------------------------ independent sets
def indset(P, R):
    NOT_IN, IN, UNK = c(0), c(1), c(2)
    old = ("p", "old")
    L = Lem(P, R, "Omega_h::indset::local_iteration", ["xadj", "adj", "old", "cmp"], "indset")
    for f, K in L.each():
        arr = K.res
        L.want(f, arr[:3] == ("call", "deep_copy", old), "copy", "the new state does not start from the old state")
        es = stores(K, arr)
        L.want(f, len(es) >= 2, "stores", "states are no longer decided")
        for e in es:
            i = [b for b in e.binders if b[0] == "i"][0]
            k = ("bv", at(("p", "xadj"), i), at(("p", "xadj"), add(c(1), i)), 1)
            u = at(("p", "adj"), k)
            pc = conj(*e.pc)
            L.want(f, e.data[1] == i, "own", "the state of another entity than the one examined is written")
            L.want(f, proves(pc, eq(at(old, i), UNK)), "undecided", "an entity already decided is decided again")
            v = e.data[2]
            if v == IN:
                L.want(f, proves(pc, neg(ex(k, eq(at(old, u), IN)))), "in|in", "an entity next to a chosen one may be chosen")
                L.want(f, proves(pc, neg(ex(k, conj(neg(eq(at(old, u), NOT_IN)), neg_deep(at(("p", "cmp"), u, i)))))), "in|max",
                       "an entity is chosen without being better than each neighbour that is still in play")
            elif v == NOT_IN:
                some = [a for a in conjuncts(pc) if a[0] == "==" and IN in a and any(t[:1] == ("bv",) and t[1:3] == k[1:3] for t in subterms(a))]
                L.want(f, bool(some) or implies(pc, ex(k, eq(at(old, u), IN))), "out", "an entity may be rejected although no neighbour was chosen")
            else:
                L.bad(f, "state", "state %s is written" % tshow(v))
    L = Lem(P, R, "Omega_h::indset::find", ["mesh", "dim", "xadj", "adj", "cands", "cmp"], "indset")
    for f, K in L.each():
        init = [e for e in K.events if e.kind == "store" and e.data[0][0] == "alloc"]
        v, i = value(K, init[0].data[0], 0, 1) if init else (None, None)
        if i is None:
            raise Broken("indset::find: no initial state is stored")
        for pc, l in leaves(v):
            if l == UNK:
                L.want(f, implies(pc, at(("p", "cands"), i)), "cands", "an entity that is no candidate may be chosen")
            else:
                L.want(f, l == NOT_IN, "init", "an entity starts in state %s" % tshow(l))
                L.want(f, implies(pc, neg(at(("p", "cands"), i))), "all", "a candidate is left out from the start")
        ws = [e for e in K.events if e.kind == "while"]
        ok = len(ws) == 1 and ws[0].data[0][0] == "==" and UNK in ws[0].data[0] and any(t[:2] == ("call", "get_max") for t in ws[0].data[0] if isinstance(t, tuple))
        L.want(f, ok, "until", "the iteration does not go on until no rank has an undecided entity")
        sy = [e for e in K.events if e.kind == "call" and e.data[0] == "sync_array"]
        L.want(f, any(e.data[1][3] == ("p", "dim") for e in sy), "sync", "states are not synchronised between ranks after an iteration")
    L = Lem(P, R, "Omega_h::QualityCompare::operator()", ["u", "v"], "indset")
    for f, K in L.each():
        u, v = ("p", "u"), ("p", "v")
        t = K.res
        sw = rebuild(t, lambda x: v if x == u else u if x == v else None)
        qs = [x for x in subterms(t) if x[:1] == ("at",) and len(x) == 3 and x[2] in (u, v)]
        arrs = []
        for x in qs:
            if x[1] not in arrs:
                arrs.append(x[1])
        given = []
        same = []
        for a in arrs:
            p, q, e = lt(at(a, u), at(a, v)), lt(at(a, v), at(a, u)), eq(at(a, u), at(a, v))
            given.append(disj(conj(p, neg(q), neg_deep(e)), conj(q, neg(p), neg_deep(e)), conj(e, neg(p), neg(q))))
            same.append((a, e))
        g = conj(*given)
        L.want(f, implies(conj(t, sw), FALSE, g), "antisymmetric", "two neighbours can each be better than the other")
        glob = [e for a, e in same if "global" in repr(a)]
        L.want(f, bool(glob) and implies(TRUE, disj(t, sw, *glob), g), "total", "two neighbours of different global number can tie, so the choice may never end")
    L = Lem(P, R, "Omega_h::find_indset", ["mesh", "dim", "quals", "cands"], "indset", pick=lambda f: len(f.params) == 4)
    for f, K in L.each():
        r = K.res
        for pc, l in leaves(r):
            if l == ("p", "cands"):
                L.want(f, implies(pc, eq(("p", "dim"), call("dim", MESH))), "shortcut", "candidates are all accepted when %s" % tshow(pc)[:160])
                continue
            fs = [t for t in subterms(l) if t[:1] == ("call",) and t[1].startswith("find")]
            ok = any(call("ask_star", MESH, ("p", "dim")) in subterms(t) and ("p", "cands") in t for t in fs) or \
                any(("p", "cands") in t for t in fs) and call("ask_star", MESH, ("p", "dim")) in subterms(l)
            L.want(f, ok, "star", "independence is not judged over the entities sharing an element (%s)" % tshow(l)[:200])
        own = [e for e in K.events if e.kind == "fail" and any(t[:2] == ("call", "owners_have_all_upward") for x in e.pc for t in subterms(x))]
        L.want(f, bool(own), "ghosts", "nothing ensures that owners see their whole neighbourhood")


def conjuncts(t):
    return list(t[1:]) if t[0] == "and" else [t]


# ------------------------------------------------------------------ dispatch on dimensions
DIMS = ((1, 1), (2, 1), (2, 2), (3, 1), (3, 3))


def tname(K, n, nm):
    ta = [x for x in (K.P.callee[n["f"]].get("ta") or []) if re.match(r"^-?\d+$", x)]
    return nm + ("<%s>" % ",".join(ta) if ta else "")


def dispatch(P, R):
    cases = {
        "check_collapse_exposure": (3, ["mesh", "cands", "codes"], {"check_collapse_exposure"}),
        "prevent_coarsen_overshoot": (4, ["mesh", "max", "cands", "codes"], {"prevent_coarsen_overshoot_tmp"}),
        "prevent_coarsen_flip": (3, ["mesh", "cands", "codes"], {"prevent_coarsen_flip2_dim", "compute_flip_normals_dim"}),
        "coarsen_qualities": (3, ["mesh", "cands", "codes"], {"coarsen_qualities_tmpl"}),
        "refine_qualities": (2, ["mesh", "cands"], {"refine_qualities_tmpl"}),
        "swap2d_qualities": (3, ["mesh", "opts", "cands"], {"swap2d_qualities_tmpl"}),
        "swap3d_qualities": (5, ["mesh", "opts", "cands", "quals", "configs"], {"swap3d_qualities_tmpl"}),
    }
    C, D, M = ("p", "cands"), ("p", "codes"), MESH
    for q, (np, names, opq) in cases.items():
        L = Lem(P, R, "Omega_h::" + q, names, "dispatch", pick=lambda f: len(f.params) == np)
        if not L.fns:
            raise Broken("no function %s" % q)
        for f in L.fns:
            for d, m in DIMS:
                if q == "swap2d_qualities" and d != 2 or q == "swap3d_qualities" and d != 3:
                    continue

                def hook(K, n, nm, qq, o, args):
                    if qq == "Omega_h::Mesh::dim":
                        return c(d)
                    if nm in ("get_metric_dim", "get_metrics_dim"):
                        return c(m)
                    if nm in opq and (nm != "check_collapse_exposure" or len(args) == 4):
                        t = ("call", tname(K, n, nm)) + tuple(args)
                        K.events.append(Event("call", (nm, t), list(K.pc), list(K.binders), n, K.fn))
                        return t
                    return None
                K = Kern(P, inline=lambda g: g.file == f.file, hook=hook)
                r = canon(K.run(f, [("p", n) for n in names]))
                w = "%dD mesh, %dD metric" % (d, m)
                key = "%s|%d%d" % (q, d, m)

                def want(ok, msg):
                    R.count("obligations")
                    if not ok:
                        R.bad("dispatch", "dispatch|" + key, "%s:%d" % (f.file, f.line), "%s (%s): %s; it is %s" % (f.sig(), w, msg, tshow(r)[:300]))
                if q == "check_collapse_exposure":
                    t, lst, de, wd = synced(r)
                    want(lst == C and isc(de) and de[1] == 0, "codes are not synchronised with a rejecting default")
                    dims = set()
                    while t[:2] == ("call", "check_collapse_exposure<>") or t[:2] == ("call", "check_collapse_exposure"):
                        want(t[2] == M and t[3] == C, "exposure is judged for other candidates")
                        if isc(t[5]):
                            dims.add(t[5][1])
                        t = t[4]
                    want(t == D, "the incoming codes are not the ones filtered")
                    want(dims >= set(range(2, d + 1)), "exposure is not judged for the cells of every dimension")
                    p = [e for e in K.events if e.kind == "fail" and any(x[:2] == ("call", "parting") for y in e.pc for x in subterms(y))]
                    want(bool(p), "nothing ensures that cavities are complete")
                elif q == "prevent_coarsen_overshoot":
                    want(r == call("prevent_coarsen_overshoot_tmp<%d,%d>" % (d, m), M, ("p", "max"), C, D), "lengths are not checked with these arguments")
                elif q == "prevent_coarsen_flip":
                    if d == 1:
                        want(r == D, "codes change in 1D")
                        continue
                    want(r[:2] == ("call", "prevent_coarsen_flip2_dim<%d>" % d) and r[6:8] == (C, D), "flips are not checked with these arguments")
                    if r[0] != "call" or len(r) < 9:
                        continue
                    sides, verts = r[3], r[4]
                    exposed = call("mark_exposed_sides", M)
                    near = call("mark_up", M, VERT, c(d - 1), call("mark_down", M, EDGE, VERT, call("mark_image", C, call("nedges", M))))
                    ok = sides == exposed or sides[:2] == ("call", "land_each") and set(sides[2:]) == {exposed, near}
                    want(ok, "some exposed sides around the candidates are not considered")
                    want(verts == call("mark_down", M, c(d - 1), VERT, sides), "some vertices of exposed sides are not considered")
                    want(r[5][:2] == ("call", "compute_flip_normals_dim<%d>" % d), "sides are not compared to the normals of the surface")
                elif q == "coarsen_qualities":
                    if d == 1:
                        want(r[0] == "call" or r[0] == "alloc", "no qualities are given to collapses in 1D")
                    else:
                        want(r == call("coarsen_qualities_tmpl<%d,%d>" % (d, m), M, C, D), "qualities are not judged with these arguments")
                elif q == "refine_qualities":
                    if d == 1:
                        want(r == call("get_1d_cavity_qualities", M, EDGE, C), "no qualities are given to splits in 1D")
                    else:
                        want(r == call("refine_qualities_tmpl<%d,%d>" % (d, m), M, C), "qualities are not judged with these arguments")
                elif q == "swap2d_qualities":
                    want(r == call("swap2d_qualities_tmpl<%d>" % m, M, ("p", "opts"), C), "qualities are not judged with these arguments")
                else:
                    es = [e for e in K.events if e.kind == "call" and e.data[0] == "swap3d_qualities_tmpl"]
                    want(len(es) == 1 and es[0].data[1] == call("swap3d_qualities_tmpl<%d>" % m, M, ("p", "opts"), C, ("p", "quals"), ("p", "configs")),
                         "qualities are not judged with these arguments")


# ------------------------------------------------------------------ composition
SEE = re.compile(r"Omega_h_(coarsen|refine|swap|swap2d|swap3d|mark|adapt)\.(c|h)pp$")
PRIM = {"check_collapse_class", "check_collapse_exposure", "prevent_coarsen_overshoot", "prevent_coarsen_flip",
        "coarsen_qualities", "filter_coarsen_min_qual", "filter_coarsen_improve", "choose_rails", "find_rails",
        "find_indset", "refine_qualities", "swap2d_qualities", "swap3d_qualities", "mark_sliver_layers",
        "mark_down", "mark_up", "collect_marked", "mark_image", "map_onto", "unmap", "modify_ents_adapt",
        "swap2d_topology", "swap3d_topology", "swap3d_keys_to_prods", "refine_products", "coarsen_topology",
        "find_coarsen_domains", "mark_dead_ents", "get_verts_onto", "transfer_coarsen", "transfer_refine",
        "transfer_swap", "transfer_copy", "set_owners_by_indset", "get_rep2md_order_adapt"}
CMP = {"each_gt": "gt", "each_lt": "lt", "each_geq_to": "ge", "each_leq_to": "le", "each_neq_to": "ne", "each_eq_to": "eq"}
CMP2 = {"gt_each": "gt", "lt_each": "lt", "geq_each": "ge", "leq_each": "le", "eq_each": "eq"}


class Unaligned(Exception):
    pass


class Flow:
    """What is known about the entities of lists and marks built from array combinators."""

    def __init__(self, K, assume):
        self.K = K
        self.assume = assume
        self.memo = {}

    def norm(self, t, pc):
        """Resolve choices that the path condition decides."""
        return rebuild(t, lambda x: self.assume.get(x) if x[:1] in (("mem",),) else
                       self.pick(x, pc) if x[:1] == ("ite",) else None)

    def pick(self, x, pc):
        if x[1] in pc:
            return x[2]
        if neg_deep(x[1]) in pc:
            return x[3]
        g = conj(*pc)
        if len(atoms(g)) + len(atoms(x[1])) <= 14:
            if implies(g, x[1]):
                return x[2]
            if implies(g, neg_deep(x[1])):
                return x[3]
        return None

    # an array is indexed by the entities of the mesh, or runs parallel to a list
    def align(self, A):
        if A[0] == "call":
            n = A[1].split("<")[0]
            if n == "unmap":
                idx, X = A[2], A[3]
                a = self.align(X)
                if a == "ent":
                    return ("list", idx)
                if a[0] == "list":
                    if idx[:2] != ("call", "collect_marked"):
                        raise Unaligned("values are picked by %s out of a list" % tshow(idx)[:80])
                    k = self.align(idx[2])
                    if k != a:
                        raise Unaligned("values of one list are picked by marks of another")
                    return ("list", ("call", "unmap", idx, a[1], c(1)))
                return a
            if n == "collect_marked":
                a = self.align(A[2])
                return ("list", A)
            if n in CMP or n in ("multiply_each_by", "add_to_each"):
                return self.align(A[2])
            if n in CMP2 or n in ("land_each", "lor_each"):
                a, b = self.align(A[2]), self.align(A[3])
                if a != b:
                    raise Unaligned("arrays over different lists are compared element by element")
                return a
            if n in ("check_collapse_class", "check_collapse_exposure", "prevent_coarsen_flip"):
                return self.codes(A[3], A[4])
            if n == "prevent_coarsen_overshoot":
                return self.codes(A[4], A[5])
            if n == "coarsen_qualities":
                return self.codes(A[3], A[4])
            if n in ("refine_qualities",):
                return ("list", A[3])
            if n == "swap2d_qualities":
                return ("list", A[4])
            if n == "filter_coarsen_min_qual":
                return self.both(A[2], A[3])
            if n == "filter_coarsen_improve":
                self.codes(A[3], A[4])
                return self.both(A[4], A[5])
            if n in ("read", "deep_copy"):
                return self.align(A[2])
            return "ent"
        if A[0] == "out":
            n = A[2][1].split("<")[0]
            if n == "swap3d_qualities":
                return ("list", A[2][4])
            return "ent"
        if A[0] == "ite":
            a, b = self.align(A[2]), self.align(A[3])
            if a == b:
                return a
            if a[0] == "list" and b[0] == "list":
                return ("list", ("ite", A[1], a[1], b[1]))
            raise Unaligned("an array runs over one of two lists")
        return "ent"

    def codes(self, L, C):
        if self.align(C) != ("list", L):
            raise Unaligned("codes and candidate list are not filtered together")
        return ("list", L)

    def both(self, A, B):
        a, b = self.align(A), self.align(B)
        if a != b:
            raise Unaligned("codes and qualities are not filtered together")
        return a

    # the value an array holds for the entity at hand
    def val(self, A):
        while True:
            if A[:1] == ("call",) and A[1].split("<")[0] == "unmap":
                A = A[3]
                continue
            if A[:1] == ("call",) and A[1] == "sync_array":
                A = A[4]
                continue
            break
        if A[:1] == ("call",):
            n = A[1].split("<")[0]
            if n in ("refine_qualities", "swap2d_qualities", "coarsen_qualities"):
                return ("judged", n, A[3] if n == "swap2d_qualities" else None)
        if A[:1] == ("out",) and A[2][1].split("<")[0] == "swap3d_qualities":
            return ("judged", "swap3d", A[1], A[2][3])
        return A

    # facts about an entity whose mark is set
    def facts(self, M):
        if M[0] == "call":
            n = M[1].split("<")[0]
            if n in CMP:
                A = M[2]
                if n == "each_neq_to" and isc(M[3]) and M[3][1] == 0 and self.is_codes(A):
                    return self.some(A)
                return {(CMP[n], self.val(A), M[3])} | self.inlist(self.align(A))
            if n in CMP2:
                self.both(M[2], M[3])
                return {(CMP2[n], self.val(M[2]), self.val(M[3]))} | self.inlist(self.align(M[2]))
            if n == "land_each":
                return self.facts(M[2]) | self.facts(M[3])
            if n == "lor_each":
                return self.facts(M[2]) & self.facts(M[3])
            if n == "find_indset":
                return self.facts(M[5]) | {("indep", M[3]), ("by", self.ranked(M[4]))}
            if n == "mark_image":
                return self.listed(M[2])
            if n == "map_onto":
                if not rejected(M[5]) and not (M[5][0] == "f" and M[5][1] == 0):
                    return set()
                if self.align(M[2]) != ("list", M[3]):
                    raise Unaligned("values are put back through the list of others")
                return self.facts(M[2]) | self.listed(M[3])
            if n in ("mark_down", "mark_up", "mark_sliver_layers"):
                return {("mark",) + M[1:]}
            if n in ("sync_array", "read", "deep_copy"):
                return self.facts(M[4] if n == "sync_array" else M[2])
        if M[0] == "out" and M[2][1] == "choose_rails":
            return {("rail", M[1], M[2])}
        if M[0] == "ite":
            return self.facts(M[2]) & self.facts(M[3])
        return {("marked", M)}

    def inlist(self, a):
        return self.listed(a[1]) if a[0] == "list" else set()

    def ranked(self, q):
        if q[:2] == ("call", "map_onto"):
            if self.align(q[2]) != ("list", q[3]):
                raise Unaligned("qualities are put back through the list of others")
            return self.val(q[2])
        return q

    def is_codes(self, A):
        return A[0] == "call" and (A[1].startswith("check_collapse") or A[1].startswith("prevent_coarsen") or
                                   A[1].startswith("filter_coarsen")) or A[0] == "call" and A[1] == "unmap" and self.is_codes(A[3]) or \
            A[0] == "call" and A[1] == "map_onto" and self.is_codes(A[2])

    def some(self, A):
        a = self.align(A)
        return self.inlist(a)

    def listed(self, L):
        """Facts about the members of a list of entities."""
        if L[:2] == ("call", "collect_marked"):
            return self.facts(L[2])
        if L[:2] == ("call", "unmap"):
            k = L[2]
            r = self.listed(L[3])
            if k[:2] == ("call", "collect_marked"):
                a = self.align(k[2])
                if a != ("list", L[3]):
                    raise Unaligned("a list is filtered by marks of another list")
                r = r | self.facts(k[2])
            return r
        if L[0] == "ite":
            return self.listed(L[2]) & self.listed(L[3])
        return set()

    # filters a direction of a collapse code has passed
    def passed(self, C):
        if C[0] == "call":
            n = C[1].split("<")[0]
            if n == "check_collapse_class":
                self.codes(C[3], C[4])
                return self.passed(C[4]) | {"class"}
            if n == "check_collapse_exposure":
                self.codes(C[3], C[4])
                return self.passed(C[4]) | {"exposure"}
            if n == "prevent_coarsen_flip":
                self.codes(C[3], C[4])
                return self.passed(C[4]) | {"flip"}
            if n == "prevent_coarsen_overshoot":
                self.codes(C[4], C[5])
                return self.passed(C[5]) | {("overshoot", C[3])}
            if n == "filter_coarsen_min_qual":
                self.both(C[2], C[3])
                return self.passed(C[2]) | ({("quality", C[4])} if self.isqual(C[3]) else set())
            if n == "filter_coarsen_improve":
                self.both(C[4], C[5])
                self.codes(C[3], C[4])
                return self.passed(C[4]) | ({"improve"} if self.isqual(C[5]) else set())
            if n == "unmap":
                self.align(C)
                return self.passed(C[3])
            if n == "map_onto":
                if not rejected(C[5]):
                    return set()
                if self.align(C[2]) != ("list", C[3]):
                    raise Unaligned("codes are put back through the list of others")
                return self.passed(C[2])
        if C[0] == "ite":
            return self.passed(C[2]) & self.passed(C[3])
        return set()

    def isqual(self, Q):
        return self.val(Q)[:2] == ("judged", "coarsen_qualities")


def drive(P, entry, dim, flip):
    f = [g for g in P.fn(entry) if g.body]
    if len(f) != 1:
        raise Broken("entry point %s not found" % entry)
    f = f[0]
    part = []

    def hook(K, n, nm, q, o, args):
        if q == "Omega_h::Mesh::dim":
            return c(dim)
        if q.startswith("Omega_h::Mesh::add_tag") and len(args) >= 4:
            K.env[("tag", args[0], args[1])] = args[3]
            return ("void",)
        if q.startswith("Omega_h::Mesh::set_tag") and len(args) >= 3:
            K.env[("tag", args[0], args[1])] = args[2]
            return ("void",)
        if q.startswith("Omega_h::Mesh::get_array"):
            return K.env.get(("tag", args[0], args[1]))
        if q.startswith("Omega_h::Mesh::remove_tag"):
            return ("void",)
        if q == "Omega_h::Mesh::set_parting":
            K.env[("parting",)] = args[0]
            K.events.append(Event("part", (args[0],), list(K.pc), [], n, K.fn))
            return ("void",)
        if nm in ("modify_ents_adapt", "find_rails", "swap3d_topology", "swap2d_topology", "choose_rails", "refine_products") or nm.endswith("qualities"):
            K.events.append(Event("at", (nm, K.env.get(("parting",), ("undef",))), list(K.pc), [], n, K.fn))
        return None
    K = Kern(P, inline=lambda g: bool(SEE.search(g.file)) and last(g.q) not in PRIM, hook=hook)
    K.run(f, [MESH, ("p", "opts")])
    fl = Flow(K, {mem("should_prevent_coarsen_flip", ("p", "opts")): c(flip)})
    return f, K, fl


def opt(n):
    return mem(n, ("p", "opts"))


def compose(P, R):
    minq = opt("min_quality_allowed")
    for entry, dims in (("refine_by_size", (1, 2, 3)), ("coarsen_by_size", (1, 2, 3)), ("coarsen_slivers", (2, 3)),
                        ("swap_edges_2d", (2,)), ("swap_edges_3d", (3,))):
        for dim in dims:
            for flip in ((False, True) if entry.startswith("coarsen") else (False,)):
                f, K, fl = drive(P, "Omega_h::" + entry, dim, flip)
                R.count("drivers executed")

                def want(ok, what, msg):
                    R.count("obligations")
                    if not ok:
                        R.bad("driver", "driver|%s|%s" % (entry, what), "%s:%d" % (f.file, f.line), "%s (%dD): %s" % (entry, dim, msg))
                mods = [e for e in K.events if e.kind == "call" and e.data[0] == "modify_ents_adapt"]
                if not mods:
                    raise Broken("%s never modifies the mesh" % entry)
                for e in K.events:
                    if e.kind != "at":
                        continue
                    p = fl.norm(e.data[1], e.pc)
                    w = {"modify_ents_adapt": 0, "find_rails": 0, "swap3d_topology": 0, "swap2d_topology": 0, "refine_products": 0}.get(e.data[0], 1)
                    want(p == c(w), "parting|" + e.data[0], "%s runs while the mesh is partitioned as %s" % (e.data[0], tshow(p)))
                try:
                    judge(P, R, entry, dim, flip, K, fl, mods, want, minq)
                except Unaligned as u:
                    want(False, "aligned", str(u))


def judge(P, R, entry, dim, flip, K, fl, mods, want, minq):
    kd = VERT if entry.startswith("coarsen") else EDGE
    lists = []
    for e in mods:
        t = e.data[1]
        want(t[5] == kd, "keydim", "entities of dimension %s are modified" % tshow(t[5]))
        L = fl.norm(t[6], e.pc)
        if L not in lists:
            lists.append(L)
    want(len(lists) == 1, "onelist", "different lists of entities are modified in different dimensions")
    L = lists[0]
    fs = fl.listed(L)
    want(("indep", kd) in fs or dim == 1 and kd == EDGE and ("indep", kd) in fs, "independent", "entities that are modified together may share elements")
    R.samples.append("%s %dD%s: %s" % (entry, dim, " noflip" if flip else "", "; ".join(sorted(show_fact(x) for x in fs))[:400]))
    if entry == "refine_by_size":
        want(("gt", call("ask_lengths", MESH), opt("max_length_desired")) in fs, "size", "edges no longer than desired may be split")
        want(any(x[0] in ("ge", "gt") and x[1] == ("judged", "refine_qualities", None) and x[2] == minq for x in fs), "quality", "edges may be split into elements below the allowed quality")
        want(any(x[0] == "by" and x[1][:2] == ("judged", "refine_qualities") for x in fs), "rank", "splits are not ranked by their quality")
    elif entry.startswith("swap"):
        cd = call("get_array", MESH, EDGE, ("s", "class_dim"))
        want(("eq", cd, c(dim)) in fs, "interior", "edges on the boundary may be swapped")
        nm = "swap2d" if dim == 2 else "swap3d"
        imp = [x for x in fs if x[0] == "gt" and x[1][0] == "judged" and (x[1][1].startswith("swap2d") if dim == 2 else x[1][1] == "swap3d" and x[1][2] == 3)]
        old = [x for x in imp if is_old_min(P, x[2], c(1), dim)]
        want(bool(old), "improve", "an edge may be swapped although its cavity does not improve")
        want(any(x[1][-1] == ("p", "opts") for x in imp), "options", "swaps are not judged with the options given")
        want(any(x[0] == "mark" and x[1] == "mark_down" and x[3:5] == (c(dim), EDGE) and x[5] == call("mark_sliver_layers", MESH, opt("min_quality_desired"), opt("nsliver_layers")) for x in fs),
             "slivers", "edges away from low quality elements are swapped")
        want(any(x[0] == "by" and x[1][0] == "judged" for x in fs), "rank", "swaps are not ranked by their quality")
        if dim == 3:
            tp = [e for e in K.events if e.kind == "call" and e.data[0] == "swap3d_topology"]
            if not tp:
                raise Broken("swap_edges_3d: no topology is built")
            for e in tp:
                t = e.data[1]
                want(fl.norm(t[3], e.pc) == L, "topology", "other edges are rebuilt than those modified")
                cf = fl.norm(t[4], e.pc)
                ok = cf[:2] == ("call", "map_onto") and cf[2][0] == "out" and cf[2][1] == 4 and cf[2][2][1] == "swap3d_qualities" and \
                    fl.align(cf[2]) == ("list", cf[3]) and rejected(cf[5])
                ok = ok and any(x[0] == "gt" and x[1] == ("judged", "swap3d", 3, cf[2][2][3]) for x in fs)
                want(ok, "config", "the configuration built is not the one whose quality was judged")
        else:
            tp = [e for e in K.events if e.kind == "call" and e.data[0] == "swap2d_topology"]
            if not tp:
                raise Broken("swap_edges_2d: no topology is built")
            for e in tp:
                want(fl.norm(e.data[1][3], e.pc) == L, "topology", "other edges are rebuilt than those modified")
    else:
        fr = [e for e in K.events if e.kind == "call" and e.data[0] == "find_rails"]
        if not fr:
            raise Broken("%s: no rails are looked up" % entry)
        rl = [x for x in fs if x[0] == "rail"]
        want(bool(rl) and rl[0][1] == 5 - 1 + RAILBASE, "rails", "the vertices that collapse are not those given a rail")
        for e in fr:
            t = e.data[1]
            want(fl.norm(t[3], e.pc) == L, "keys", "rails are looked up for other vertices than those that collapse")
            rr = fl.norm(t[4], e.pc)
            ok = rr[0] == "out" and rr[2][1] == "choose_rails" and bool(rl) and rr[2] == rl[0][2] and rr[1] == RAILBASE + 6
            want(ok, "rail", "vertices collapse along rails other than those chosen")
        want(any(x[0] == "by" and x[1][0] == "out" and x[1][2][1] == "choose_rails" for x in fs), "rank", "collapses are not ranked by their quality")
        if not rl:
            return
        t = rl[0][2]
        C, Q = t[4], t[5]
        fl.codes(t[3], C)
        fl.both(C, Q)
        want(fl.isqual(Q), "quals", "rails are chosen with other qualities than those judged")
        ps = fl.passed(C)
        R.samples.append("%s %dD passed: %s" % (entry, dim, "; ".join(sorted(x if isinstance(x, str) else "%s<%s" % (x[0], tshow(x[1])) for x in ps))))
        want("class" in ps, "class", "collapses are not checked for classification")
        want("exposure" in ps, "exposure", "collapses are not checked for exposed sides")
        mx = opt("max_length_desired" if entry == "coarsen_by_size" else "max_length_allowed")
        want(("overshoot", mx) in ps, "overshoot", "collapses are not kept from making edges longer than %s" % tshow(mx))
        if flip:
            want("flip" in ps, "flip", "collapses are not checked for flipped sides although this was asked for")
        want(("quality", minq) in ps, "quality", "collapses may create elements below the allowed quality")
        if entry == "coarsen_slivers":
            want("improve" in ps, "improve", "collapses of slivers need not improve the cavity")


RAILBASE = 0


def show_fact(x):
    return " ".join(tshow(y)[:60] if isinstance(y, tuple) else str(y) for y in x)


def is_old_min(P, t, kd, dim):
    t = t[4] if t[:2] == ("call", "sync_array") else t
    return t[:2] == ("call", "graph_reduce") and t[2] == call("ask_up", MESH, kd, c(dim)) and \
        t[3] == call("ask_qualities", MESH) and t[5] == MIN(P)


# ------------------------------------------------------------------ the pass
LEVEL = "other"
RULE = ("Each criterion kernel is reduced to a functional normal form (loops as bounded quantifiers and folds) and compared with what the "
        "criterion means over the mesh: the verdict of an entity rejects whenever the cavity or rail violates it. Each driver is then "
        "executed symbolically for every dimension; from the marks and lists its modifications use, the facts that hold for every "
        "modified entity are derived, with every list of values kept parallel to its list of entities, and must include each criterion.")
ASSUMPTIONS = ["array combinators (unmap, map_onto, collect_marked, mark_image, comparisons, graph_reduce) do what their names state (P17)",
               "measures and edge lengths are right (P14); the adjacencies and codes read are right (P06, P10, P11)",
               "the new elements judged are those built (P22)"]
TRUSTED = ["omh/kern.py: kernels run serially in index order; sync_array replaces values of copies by the owner's"]


def check(P):
    global TAB
    R = Result()
    TAB = Tab(P)
    direction_codes(P, R)
    measures(P, R)
    C3 = ["mesh", "cands", "codes"]
    codes_lemma(P, R, "Omega_h::check_collapse_class", C3, class_goals, False, "class")
    codes_lemma(P, R, "Omega_h::check_collapse_exposure", C3 + ["cell_dim"], exposure_goals, False, "exposure",
                pick=lambda f: len(f.params) == 4)
    codes_lemma(P, R, "Omega_h::prevent_coarsen_overshoot_tmp", ["mesh", "max_length", "cands", "codes"], overshoot_goals, True, "overshoot")
    codes_lemma(P, R, "Omega_h::prevent_coarsen_flip2_dim", ["mesh", "sides", "verts", "normals", "cands", "codes", "eps"], flip_goals, True, "flip")
    coarsen_quals(P, R)
    refine_quals(P, R)
    swap2d_quals(P, R)
    swap3d_choice(P, R)
    swap3d_quals(P, R)
    filter_dirs(P, R)
    rails(P, R)
    indset(P, R)
    dispatch(P, R)
    compose(P, R)
    return R
