"""P22: the entities built by an adaptation fill exactly the cavity that was judged."""
from .core import *
from .kern import *
from .kern import Kern, Event
from .cav import Tab
from .p21 import c, at, call, eq, lt, mem, add, mul, up, verts_of, around, canon, rebuild, same_simplex, even, tshow, leaves, subterms, MESH, VERT, EDGE

LEVEL = "other"
RULE = ("The kernels that write the vertices of new entities are reduced to their stores (index and value in closed form); for every place and "
        "rotation of the edge or vertex in an element, the stored entity must be the old one with the moved vertex replaced, oriented as "
        "before (boundary chains agree for swaps), and the stores must fill exactly the slots counted for each modified entity.")
ASSUMPTIONS = ["array combinators (unmap, offset_scan, collect_marked, invert_*) do what their names state (P17)",
               "the adjacencies, codes and local tables are right (P06, P10, P11, P12)"]
TRUSTED = ["omh/kern.py: kernels run serially in index order"]
TAB = None


class Ob:
    def __init__(self, R, f, q):
        self.R, self.f, self.q = R, f, q
        R.count("functions analysed")

    def want(self, ok, what, msg):
        self.R.count("obligations")
        if not ok:
            self.R.bad("cavity", "cavity|%s|%s" % (self.q, what), "%s:%d" % (self.f.file, self.f.line), "%s: %s" % (self.q, msg))
        return ok


def fn(P, q, n):
    fs = [f for f in P.fn("Omega_h::" + q) if f.body and len(f.params) == n]
    if len(fs) != 1:
        raise Broken("%d functions Omega_h::%s with %d parameters" % (len(fs), q, n))
    return fs[0]


HERE = re.compile(r"Omega_h_(refine_topology|swap2d_topology|swap3d_topology|swap3d_loop|coarsen_topology)\.(c|h)pp$")


def run(P, f, args, dim=None, opq=()):
    def hook(K, n, nm, q, o, a):
        if q == "Omega_h::Mesh::dim" and dim is not None:
            return c(dim)
        if nm in opq:
            return ("call", nm) + tuple(a)
        return None
    K = Kern(P, inline=lambda g: bool(HERE.search(g.file)) or g.name in ("swap2",), hook=hook)
    K.versions = True
    r = K.run(f, args)
    return K, r


# ------------------------------------------------------------------ closed forms
def closed(t, K):
    """Counters that advance by a constant in every pass of a loop, in closed form."""
    steps = {}
    for b, brk, st in K.loops:
        for mu, (i, s) in st.items():
            if s is not None and brk == FALSE:
                d = add(s, mul(c(-1), mu))
                if isc(d):
                    steps.setdefault(mu, []).append((b, i, d[1]))

    def g(x):
        if x[:1] == ("fold",) and x[4] == FALSE:
            d = add(x[3], mul(c(-1), x[5]))
            if isc(d):
                b = x[1]
                return closed(add(x[2], mul(c(d[1]), add(b[2], mul(c(-1), b[1])))), K)
        return None

    return rebuild(t, lambda x: g(x) or TAB(x))


def lin(t):
    """(constant, {term: coefficient}) of an integer term."""
    if isc(t):
        return int(t[1]), {}
    if t[0] == "+":
        return t[1], {y: n for n, y in t[2]}
    return 0, {t: 1}


def unlin(k, m):
    r = c(k)
    for y, n in m.items():
        r = add(r, mul(c(n), y))
    return r


def contents(K, arr, cases):
    """Stores into an array: {(base, count, stride): {offset: value}} with the counters of loops in closed form."""
    out = {}
    cur = {}
    evs = [(n, e) for n, e in enumerate(K.events) if e.kind == "store" and e.data[0] == arr]

    def before(n, x):
        c = None
        for m, v in cur.get(x, ()):
            if m < n:
                c = v
        return c

    for num, e in evs:
        loops = [b for b in e.binders if b[0] == "bv"]

        def cl(t):
            # a counter of the innermost loop: its value is init + n*(k - lo)
            for b in reversed(loops):
                for bb, brk, st in K.loops:
                    if bb != b or brk != FALSE:
                        continue
                    for mu, (i, s) in st.items():
                        if s is None or not contains(t, lambda x: x == mu):
                            continue
                        d = add(closed(s, K), mul(c(-1), mu))
                        key = (id(e), mu)
                        if isc(d) and matches(K, e, bb, mu, i):
                            v = add(closed(i, K), mul(c(d[1]), add(b, mul(c(-1), b[1]))))
                            t = subst(t, lambda x: v if x == mu else None)
            return rebuild(closed(t, K), lambda x: cases(x) or TAB(x))
        ix = cl(e.data[1])
        v = cl(e.data[2])
        v = rebuild(v, lambda x: before(x[1][2], x[2]) if x[:1] == ("at",) and len(x) == 3 and x[1][:2] == ("ver", arr) else None)
        cur.setdefault(ix, []).append((num, v))
        pc = conj(*[rebuild(canon(closed(p, K)), lambda x: cases(x) or TAB(x)) for p in e.pc])
        if pc == FALSE:
            continue
        k, m = lin(ix)
        b, s = None, 0
        for x in loops:
            if x in m:
                b, s = x, m.pop(x)
        base = unlin(0, m)
        n = c(1)
        if b is not None:
            lo = rebuild(closed(b[1], K), TAB)
            hi = rebuild(closed(b[2], K), TAB)
            n = add(hi, mul(c(-1), lo))
            ix0 = add(unlin(k, m), mul(c(s), lo))
            k, m = lin(ix0)
            base = unlin(0, m)
        out.setdefault((base, n, s), {})[k] = (v, pc, b)
    return out


def matches(K, e, b, mu, i):
    """Several loops may use the same counter: the state belongs to the loop whose binder encloses the store."""
    cands = [x for x in K.loops if x[0] == b and mu in x[2]]
    return len(cands) == 1


def counted(t, key, i):
    """Number of slots an offset array gives to key i."""
    if t[:1] == ("call",):
        n = t[1].split("<")[0]
        if n == "offset_scan":
            return value_at(t[2], i)
        if n == "multiply_each_by" and isc(t[3]):
            return mul(c(t[3][1]), counted(t[2], key, i))
    if t[0] in ("alloc", "new"):
        a = t[2:]
        if len(a) == 3 and isc(a[2]):
            return a[2]
        if len(a) == 2:
            return c(0)
    return add(at(t, add(i, c(1))), mul(c(-1), at(t, i)))


def value_at(A, i):
    if A[:1] == ("call",):
        n = A[1].split("<")[0]
        if n == "unmap" and A[4] == c(1) or n == "compound_maps":
            return value_at(A[3], at(A[2], i))
        if n == "get_degrees":
            return counted(A[2], None, i)
        if n == "add_each":
            return add(value_at(A[2], i), value_at(A[3], i))
        if n == "multiply_each_by" and isc(A[3]):
            return mul(c(A[3][1]), value_at(A[2], i))
    return at(A, i)


def fills(o, cont, k2p, i, w, what):
    """The stores fill the slots of every key, one after the other, with nothing left out."""
    blocks = []
    for (base, n, s), offs in cont.items():
        if s == 0:
            s = len(offs)
        lo = min(offs)
        ok = sorted(offs) == list(range(lo, lo + s))
        o.want(ok, "slots|" + what, "of the %d entries of each step, those at %s are written" % (s, sorted(offs)))
        blocks.append((add(base, c(lo)), mul(c(s), n)))
    start = first_slot(k2p, i, w)
    left = list(blocks)
    pos = start
    while left:
        nxt = [b for b in left if b[0] == pos]
        if not nxt:
            o.want(False, "slots|" + what, "entries are written at %s instead of %s" % (", ".join(tshow(b[0])[:120] for b in left), tshow(pos)[:120]))
            return
        left.remove(nxt[0])
        pos = add(pos, nxt[0][1])
    total = add(pos, mul(c(-1), start))
    o.want(total == mul(c(w), counted(k2p, None, i)), "count|" + what, "%s entries are written where there is room for %s" % (tshow(total)[:160], tshow(mul(c(w), counted(k2p, None, i)))[:160]))


def first_slot(k2p, i, w):
    if k2p[:1] == ("call",) and k2p[1].split("<")[0] == "multiply_each_by" and isc(k2p[3]):
        return mul(c(w), at(k2p, i))
    if k2p[0] in ("alloc", "new") and len(k2p) == 5 and isc(k2p[4]):
        return mul(c(w * k2p[4][1]), i) if k2p[3] == c(0) else at(k2p, i)
    return mul(c(w), at(k2p, i))


def sizes(o, arr, k2p, w, what):
    """The array has room for all slots."""
    if arr[0] != "alloc":
        return
    n = arr[2]
    ok = n == mul(c(w), call("last", k2p))
    if k2p[:1] == ("call",) and k2p[1].split("<")[0] == "multiply_each_by":
        ok = ok or n == mul(mul(c(w), k2p[3]), call("last", k2p[2]))
    if k2p[0] in ("alloc", "new") and len(k2p) == 5:
        ok = ok or n == mul(mul(c(w), k2p[4]), add(k2p[2], c(-1)))
    o.want(ok, "size|" + what, "the array for the vertices of new entities holds %s entries" % tshow(n)[:160])


# ------------------------------------------------------------------ splitting edges
def code_case(d, b, dde, rot):
    code = at(mem("codes", up(1, d)), b)

    def g(x):
        if x == call("code_which_down", code):
            return c(dde)
        if x == call("code_rotation", code):
            return c(rot)
        return None
    return g


NE = {1: 1, 2: 3, 3: 6}


def moved(v, d, dom, i):
    """Local number in the old entity of the vertex stored, or "m" for the new vertex."""
    if v == at(("p", "mids"), i):
        return "m"
    for j in range(d + 1):
        if v == at(("p", "o2n"), at(verts_of(d), add(mul(c(d + 1), dom), c(j)))):
            return j
    return None


def refine(P, R):
    names = ["mesh", None, "keys", "mids", "o2n", "k2p", "pv"]
    for q, dims in (("refine_domains_to_pairs", (1, 2, 3)), ("refine_domains_to_cuts", (2, 3))):
        f = fn(P, q, 7)
        for d in dims:
            o = Ob(R, f, "%s|%d" % (q, d))
            pairs = q.endswith("pairs")
            K, r = run(P, f, [("p", n) if n else c(d) for n in names])
            k2p = K.env.get((f.params[5]["d"],))
            arr = K.env.get((f.params[6]["d"],))
            if k2p is None or arr is None or arr == ("p", "pv"):
                raise Broken("%s: outputs are never set" % q)
            w = d + 1 if pairs else d
            sizes(o, arr, k2p, w, "verts")
            i = None
            for e in K.events:
                if e.kind == "store":
                    i = [b for b in e.binders if b[0] == "i"][0]
            if i is None:
                raise Broken("%s stores nothing" % q)
            want_n = c(2 if pairs else 1)
            E = at(("p", "keys"), i)
            deg = add(at(mem("a2ab", up(1, d)), add(E, c(1))), mul(c(-1), at(mem("a2ab", up(1, d)), E))) if d > 1 else c(1)
            o.want(counted(k2p, None, i) == mul(want_n, deg), "number", "there is room for %s new entities per split edge" % tshow(counted(k2p, None, i))[:160])
            for dde in range(NE[d]):
                for rot in (0, 1):
                    b = None
                    for e in K.events:
                        if e.kind == "store":
                            bs = [x for x in e.binders if x[0] == "bv"]
                            if bs:
                                b = bs[0]
                    cont = contents(K, arr, code_case(d, b, dde, rot) if b is not None else (lambda x: None))
                    fills(o, cont, k2p, i, w, "verts")
                    if d > 1:
                        o.want(b is not None and b[1:3] == around(up(1, d), E)[1:3], "around", "new entities are made of %s, not of the entities around the edge" % (tshow(b) if b else "?"))
                        dom = at(mem("ab2b", up(1, d)), b)
                    else:
                        dom = E
                    ents = []
                    for (base, n, s), offs in cont.items():
                        lo = min(offs)
                        vs = [moved(offs[x][0], d, dom, i) for x in sorted(offs)]
                        ents += [vs[x:x + w] for x in range(0, len(vs), w)]
                    if d == 1:
                        a0, a1 = 0, 1
                    else:
                        a0, a1 = TAB.down(d, 1, dde, 0), TAB.down(d, 1, dde, 1)
                    if pairs:
                        want = [["m" if j == a else j for j in range(d + 1)] for a in (a0, a1)]
                        ok = len(ents) == 2 and all(any(None not in g and same_simplex(g, x) for g in ents) for x in want)
                        o.want(ok, "split", "for edge %d of an entity, rotated by %d, the new entities are %s" % (dde, rot, ents))
                    else:
                        want = ["m"] + [j for j in range(d + 1) if j not in (a0, a1)]
                        ok = len(ents) == 1 and sorted(map(repr, ents[0])) == sorted(map(repr, want))
                        o.want(ok, "cut", "for edge %d of an entity, the entity in the middle is %s" % (dde, ents))
                    if d == 1:
                        break
    combine(P, R)
    products(P, R)


def combine(P, R):
    f = fn(P, "combine_pairs_and_cuts", 7)
    for d in (1, 2, 3):
        o = Ob(R, f, "combine_pairs_and_cuts|%d" % d)
        K, r = run(P, f, [c(d)] + [("p", n) for n in ("k2c", "k2p", "cv", "pv", "k2pr", "prv")])
        k2p = K.env.get((f.params[5]["d"],))
        arr = rebuild(K.env.get((f.params[6]["d"],)), TAB)
        sizes(o, arr, k2p, d + 1, "verts")
        arr = K.env.get((f.params[6]["d"],))
        i = [b for e in K.events if e.kind == "store" for b in e.binders if b[0] == "i"][0]
        n = {x: add(at(("p", x), add(i, c(1))), mul(c(-1), at(("p", x), i))) for x in ("k2c", "k2p")}
        o.want(counted(k2p, None, i) == add(n["k2c"], n["k2p"]), "number", "there is room for %s products per key" % tshow(counted(k2p, None, i))[:160])
        # two nested loops: entity and vertex; flatten the inner one
        got = {}
        for e in K.events:
            if e.kind != "store" or e.data[0] != arr:
                continue
            bs = [b for b in e.binders if b[0] == "bv"]
            v = rebuild(e.data[2], TAB)
            ix = rebuild(e.data[1], TAB)
            outer = bs[0]
            inner = [b for b in bs[1:]]
            js = [(None, 0)] if not inner else [(rebuild(inner[0], TAB), j) for j in range(int(rebuild(inner[0], TAB)[2][1]))] if isc(rebuild(inner[0], TAB)[2]) else []
            src = v[1] if v[0] == "at" else None
            for bb, j in js:
                sb = (lambda x: c(j) if x == bb else None) if bb is not None else (lambda x: None)
                got.setdefault(src, []).append((outer, rebuild(ix, sb), rebuild(v, sb)))
        pos = mul(c(d + 1), at(k2p, i))
        done = set()
        for rnd in range(2):
            for src, k in (("pv", "k2p"), ("cv", "k2c")):
                g = got.get(("p", src), [])
                if not g or src in done:
                    continue
                b = g[0][0]
                if b[1] == c(0) and b[2] == n[k] and all(x[0] == b for x in g):
                    # counted from zero
                    nb = ("bv", at(("p", k), i), at(("p", k), add(i, c(1))), b[3])
                    off = add(nb, mul(c(-1), nb[1]))
                    g = [(nb, rebuild(subst(x, lambda y: off if y == b else None), TAB), rebuild(subst(v, lambda y: off if y == b else None), TAB)) for _, x, v in g]
                    b = nb
                ok = b[1] == at(("p", k), i) and b[2] == at(("p", k), add(i, c(1)))
                if not o.want(ok, "range|" + src, "%s are taken from %s" % (src, tshow(b))):
                    done.add(src)
                    continue
                # the running product number at this loop
                mus = [(mu, ini, s) for bb, brk, st in K.loops for mu, (ini, s) in st.items() if bb == b and s is not None and add(s, mul(c(-1), mu)) == c(1)]
                good = False
                if not mus:
                    mus = [(("none",), c(0), None)]
                for mu, ini, s in mus:
                    base = add(closed(ini, K), add(b, mul(c(-1), b[1])))
                    ix = sorted((repr(rebuild(subst(x, lambda y: base if y == mu else None), TAB)) for _, x, _ in g))
                    first = add(pos, mul(c(d + 1), add(b, mul(c(-1), b[1]))))
                    want = sorted(repr(add(first, c(j))) for j in range(d + 1))
                    if ix == want:
                        good = True
                        for _, x, v in g:
                            y = rebuild(subst(x, lambda z: base if z == mu else None), TAB)
                            j = add(y, mul(c(-1), first))
                            o.want(v == at(("p", src), add(mul(c(d + 1), b), j)), "value|" + src, "vertex %s of a product is %s" % (tshow(j), tshow(v)[:160]))
                        break
                if good:
                    pos = add(pos, mul(c(d + 1), n[k]))
                    done.add(src)
        o.want(done == {"pv", "cv"}, "both", "pairs and cuts are not put one after the other into the products of their key")


def products(P, R):
    f = fn(P, "refine_products", 7)
    for md in (1, 2, 3):
        for d in range(1, md + 1):
            o = Ob(R, f, "refine_products|%d|%d" % (md, d))
            seen = []

            def hook(K, n, nm, q, ob, a):
                if q == "Omega_h::Mesh::dim":
                    return c(md)
                if nm in ("refine_domains_to_pairs", "refine_domains_to_cuts", "combine_pairs_and_cuts"):
                    seen.append(nm)
                return None
            K = Kern(P, inline=lambda g: False, hook=hook)
            K.run(f, [MESH, c(d)] + [("p", n) for n in ("keys", "mids", "o2n", "k2p", "pv")])
            k2p, pv = [K.env.get((f.params[j]["d"],)) for j in (5, 6)]
            args = tuple(("p", n) for n in ("keys", "mids", "o2n"))

            def src(t, k, nm, dd):
                return t[0] == "out" and t[1] == k and t[2][1] == nm and t[2][2:4] == (MESH, c(dd)) and t[2][4:7] == args
            if d == md:
                ok = src(k2p, 5, "refine_domains_to_pairs", d) and src(pv, 6, "refine_domains_to_pairs", d)
                o.want(ok, "top", "the new elements are not the halves of the old ones")
            else:
                ok = k2p[0] == "out" and k2p[1] == 5 and k2p[2][1] == "combine_pairs_and_cuts" and pv[0] == "out" and pv[1] == 6 and pv[2][1] == "combine_pairs_and_cuts"
                if ok:
                    a = k2p[2][2:]
                    ok = a[0] == c(d) and src(a[1], 5, "refine_domains_to_cuts", d + 1) and src(a[3], 6, "refine_domains_to_cuts", d + 1) and \
                        src(a[2], 5, "refine_domains_to_pairs", d) and src(a[4], 6, "refine_domains_to_pairs", d)
                o.want(ok, "both", "the new entities of dimension %d are not the halves of the old ones and the cuts of those of dimension %d" % (d, d + 1))


# ------------------------------------------------------------------ swapping edges
def table(m):
    """For rebuild(): given values for terms, and constant calls of small functions."""
    return lambda x: m.get(x) if x in m else TAB(x)


def swap2d(P, R):
    f = fn(P, "swap2d_topology", 4)
    o = Ob(R, f, "swap2d_topology")
    K, r = run(P, f, [("p", n) for n in ("mesh", "keys", "k2p", "pv")])
    K2p, PV = [K.env.get((f.params[j]["d"],)) for j in (2, 3)]
    out = {d: (K.sel(K2p, c(d)), K.sel(PV, c(d))) for d in (1, 2)}
    i = ("i", call("size", ("p", "keys")), 0)
    E = at(("p", "keys"), i)
    codes = mem("codes", up(1, 2))
    a0 = at(mem("a2ab", up(1, 2)), E)
    for d in (1, 2):
        o.want(out[d][1][0] == "alloc", "out|%d" % d, "the vertices of new entities of dimension %d are %s" % (d, tshow(out[d][1])[:80]))
        if out[d][1][0] != "alloc":
            return
        sizes(o, out[d][1], out[d][0], d + 1, str(d))
        n = counted(out[d][0], None, i)
        o.want(n == c(d), "number|%d" % d, "room is made for %s new entities of dimension %d" % (tshow(n), d))
    for t0 in range(3):
        for t1 in range(3):
            for r0 in (0, 1):
                cs = {}
                for k, (t, r) in enumerate(((t0, r0), (t1, 1 - r0))):
                    x = at(codes, add(a0, c(k)))
                    cs[call("code_which_down", x)] = c(t)
                    cs[call("code_rotation", x)] = c(r)
                got = {}
                snap = {}
                for num, e in enumerate(K.events):
                    if e.kind != "store":
                        continue
                    ix, v = [rebuild(x, table(cs)) for x in e.data[1:3]]

                    def rd(x):
                        if x[:1] == ("at",) and len(x) == 3 and x[1][:1] == ("ver",):
                            vs = [w for m, w in snap.get((x[1][1], x[2]), ()) if m < x[1][2]]
                            return vs[-1] if vs else None
                        return None
                    v = rebuild(v, rd)
                    snap.setdefault((e.data[0], ix), []).append((num, v))
                    got[(e.data[0], ix)] = v
                tri = [at(mem("ab2b", up(1, 2)), add(a0, c(k))) for k in (0, 1)]
                opp = {}
                for k, t in ((0, t0), (1, t1)):
                    opp[r0 if k == 0 else 1 - r0] = at(verts_of(2), add(mul(c(3), tri[k]), c(TAB.val("simplex_opposite_template", 2, 1, t))))
                # the triangle that sees the edge as (v0, v1) lies on the side of opp[0]
                v = [at(verts_of(1), add(mul(c(2), E), c(k))) for k in (0, 1)]
                ev = [got.get((out[1][1], add(mul(c(2), i), c(k)))) for k in (0, 1)]
                o.want(sorted(map(repr, ev)) == sorted(map(repr, opp.values())), "edge", "the new edge does not join the two vertices opposite of the old one")
                cyc = []
                for t in (0, 1):
                    tv = [got.get((out[2][1], add(mul(c(6), i), c(3 * t + k)))) for k in range(3)]
                    cyc += [(repr(tv[k]), repr(tv[(k + 1) % 3])) for k in range(3)]
                cyc = {x for x in cyc if (x[1], x[0]) not in cyc}
                want = [(v[1], opp[0]), (opp[0], v[0]), (v[0], opp[1]), (opp[1], v[1])]
                o.want(cyc == {(repr(a), repr(b)) for a, b in want}, "tris", "the two new triangles do not have the boundary of the old ones")
                n = len([1 for k in got if k[0] == out[2][1]]), len([1 for k in got if k[0] == out[1][1]])
                o.want(n == (6, 2), "slots", "%d triangle vertices and %d edge vertices are written" % n)


def loop_of(P, o, K, f, r):
    """The vertices around an edge, in order."""
    deg = add(at(("p", "a2ab"), add(("p", "edge"), c(1))), mul(c(-1), at(("p", "a2ab"), ("p", "edge"))))
    coll = srt = order = None
    for b, brk, st in K.loops:
        for mu, (ini, s) in st.items():
            if s is None:
                continue
            if contains(s, lambda x: x[:1] == ("fold",)):
                order = (b, brk, mu, ini, s)
            elif contains(s, lambda x: x[:1] == ("first",)):
                srt = (b, brk, mu, ini, s)
            elif contains(s, lambda x: x == ("p", "tv2v")):
                coll = (b, brk, mu, ini, s)
    if not coll or not srt or not order:
        raise Broken("find_loop: the loops that collect, sort and number the vertices are not found")
    # collect
    b, brk, mu, ini, s = coll
    o.want(b[1] == c(0) and b[2] == deg and brk == FALSE, "loop|collect", "the edges of the loop are collected for %s" % tshow(b)[:120])
    x = s
    only = True
    while x[:1] == ("upd",):
        only = only and x[2] == b
        x = x[1]
    o.want(only and x == mu, "loop|collect|only", "collecting an edge of the loop changes others")
    el = K.sel(s, b)
    k = add(at(("p", "a2ab"), ("p", "edge")), b)
    code = at(("p", "codes"), k)
    tet = at(("p", "ab2b"), k)
    for rre in range(6):
        for rot in (0, 1):
            vs = [rebuild(K.sel(el, c(j)), table({call("code_which_down", code): c(rre), call("code_rotation", code): c(rot)})) for j in (0, 1)]
            loc = [next((j for j in range(4) if v == at(("p", "tv2v"), add(mul(c(4), tet), c(j)))), None) for v in vs]
            e = [TAB.down(3, 1, rre, j ^ rot) for j in (0, 1)]
            o.want(None not in loc and same_simplex(e + loc, [0, 1, 2, 3]), "loop|curl", "for edge %d of a tetrahedron, rotated by %d, the loop edge is %s" % (rre, rot, loc))
    # sort
    b, brk, mu, ini, s = srt
    o.want(ini[:1] == ("fold",) and ini[5] == coll[2] and ini[3] == coll[4], "loop|sort|of", "what is sorted is not what was collected")
    nxt = add(b, c(1))
    first = None
    for x in subterms(s):
        if x[:1] == ("first",):
            first = x
    lo_ok = b[1] == c(0) and b[2] in (add(deg, c(-1)), deg)
    o.want(lo_ok and brk == FALSE, "loop|sort|range", "the loop edges are sorted for %s" % tshow(b)[:120])
    fb, cond = first[1], first[2]
    o.want(fb[1] == nxt and fb[2] == deg, "loop|sort|search", "the next loop edge is looked for in %s" % tshow(fb)[:120])
    o.want(cond == eq(at(at(mu, fb), c(0)), at(at(mu, b), c(1))), "loop|sort|match", "the next loop edge is the first where %s" % tshow(cond)[:160])
    want = [("upd", ("upd", mu, nxt, at(mu, first)), first, at(mu, nxt)), ("upd", ("upd", mu, first, at(mu, nxt)), nxt, at(mu, first))]
    o.want(s in want, "loop|sort|swap", "sorting does not exchange the next loop edge with the one that follows")
    o.want(any(e.kind == "fail" and any(contains(p, lambda x: x[:1] == ("ex",)) for p in e.pc) for e in K.events), "loop|sort|closed", "an open loop is not noticed")
    # order
    b, brk, mu, ini, s = order
    srted = [x for x in subterms(s) if x[:1] == ("fold",) and x[5] == srt[2] and x[3] == srt[4]]
    ok = srted and b[1] == c(0) and b[2] == deg and s == ("upd", mu, b, at(at(srted[0], b), c(0)))
    o.want(ok, "loop|order", "the vertices of the loop are not the first ends of its sorted edges")
    seen = 0
    for pc, x in leaves(r):
        rec = dict(x[1:]) if x[:1] == ("rec",) else {}
        if ("loop_verts2verts",) in rec:
            seen += 1
            e2 = rec.get(("eev2v",))
            ok = e2 is not None and all(K.sel(e2, c(j)) == at(("p", "ev2v"), add(mul(c(2), ("p", "edge")), c(j))) for j in (0, 1))
            o.want(ok and rec.get(("size",)) == deg, "loop|ends", "the ends of the edge in the middle of the loop are %s" % (tshow(e2)[:160] if e2 else "never set"))
    o.want(seen > 0, "loop|ends", "no loop is returned")
    mx = [e for e in K.events if e.kind == "fail" and any(p == lt(deg, c(3)) for p in e.pc)]
    o.want(len(mx) == 1, "loop|small", "a loop of fewer than three edges is not noticed")


def swap3d(P, R):
    f = fn(P, "swap3d::find_loop", 6)
    o = Ob(R, f, "swap3d::find_loop")
    K, r = run(P, f, [("p", n) for n in ("a2ab", "ab2b", "codes", "ev2v", "tv2v", "edge")])
    K.versions = False
    loop_of(P, o, K, f, r)
    fc = fn(P, "swap3d_keys_to_prods", 2)
    oc = Ob(R, fc, "swap3d_keys_to_prods")
    K, r = run(P, fc, [("p", n) for n in ("mesh", "keys")])
    i = ("i", call("size", ("p", "keys")), 0)
    E = at(("p", "keys"), i)
    deg = add(at(mem("a2ab", up(1, 3)), add(E, c(1))), mul(c(-1), at(mem("a2ab", up(1, 3)), E)))

    def todeg(x):
        if x[:1] == ("at",) and x[1][:2] == ("call", "get_degrees"):
            A, k = x[1][2], x[2]
            return add(at(A, add(k, c(1))), mul(c(-1), at(A, k)))
        return None
    counts = {}
    for d in (1, 2, 3):
        x = K.sel(r, c(d))
        if not oc.want(x[:2] == ("call", "offset_scan") and x[2][0] == "alloc" and x[2][2] == call("size", ("p", "keys")), "scan|%d" % d, "the offsets of new entities of dimension %d are %s" % (d, tshow(x)[:120])):
            continue
        st = [e for e in K.events if e.kind == "store" and e.data[0] == x[2]]
        if oc.want(len(st) == 1 and st[0].data[1] == i and not st[0].pc, "every|%d" % d, "the numbers of new entities of dimension %d are not written once for each key" % d):
            counts[d] = rebuild(canon(st[0].data[2]), todeg)
    ft = fn(P, "swap3d_topology", 4)
    ot = Ob(R, ft, "swap3d_topology")
    K, r = run(P, ft, [("p", n) for n in ("mesh", "keys", "cfg", "k2p")], opq=("find_loop",))
    A = up(1, 3)
    LP = ("call", "find_loop", mem("a2ab", A), mem("ab2b", A), mem("codes", A), verts_of(1), verts_of(3), E)
    size = mem("size", LP)
    G = lambda n, *i: at(("g", n), *i)
    cfg = at(("p", "cfg"), E)
    ne = nt = None
    for d in (1, 2, 3):
        arr = K.sel(r, c(d))
        k2p = at(("p", "k2p"), c(d))
        if not ot.want(arr[0] == "alloc" and arr[2] == mul(c(d + 1), call("last", k2p)), "size|%d" % d, "the array for vertices of new entities of dimension %d holds %s" % (d, tshow(arr)[:120])):
            continue
        cont = contents(K, arr, lambda x: None)
        blocks = {}
        for (base, n, s), offs in cont.items():
            blk = {1: "e", 2: None, 3: "t"}[d]
            if blk is None:
                blk = "e" if any(contains(v, lambda x: x[:1] == ("g",) and "unique_edges" in repr(x)) for v, pc, b in offs.values()) else "t"
            blocks[blk] = (base, n, s, offs)
        tot = c(0)
        for blk in {1: "e", 2: "et", 3: "t"}[d]:
            if not ot.want(blk in blocks, "block|%d%s" % (d, blk), "entities of dimension %d for each %s of the plane are not written" % (d, {"e": "edge", "t": "triangle"}[blk])):
                continue
            base, n, s, offs = blocks[blk]
            lo = min(offs)
            ot.want(sorted(offs) == list(range(lo, lo + s)) and s == {"1e": 2, "2e": 6, "2t": 3, "3t": 8}["%d%s" % (d, blk)], "slots|%d%s" % (d, blk), "each step writes %s" % sorted(offs))
            ot.want(add(base, c(lo)) == add(mul(c(d + 1), at(k2p, i)), tot), "begin|%d%s" % (d, blk), "entities of dimension %d begin at %s" % (d, tshow(add(base, c(lo)))[:200]))
            g = ("g", "nedges") if blk == "e" else ("g", "swap_mesh_sizes")
            ot.want(tail(n, g, size), "steps|%d%s" % (d, blk), "new entities of dimension %d are made for %s of the plane" % (d, tshow(n)[:120]))
            tot = add(tot, mul(c(s), n))
            b = next(x[2] for x in offs.values())
            want = wanted(d, blk, size, cfg, n, b, LP)
            ents = [[offs[lo + x + y][0] for y in range(d + 1)] for x in range(0, s, d + 1)]
            ents = [[shape(v) for v in e] for e in ents]
            ok = len(ents) == len(want)
            left = list(want)
            for e in ents:
                hit = [w for w in left if (same_simplex(e, w) if d == 3 else sorted(map(repr, e)) == sorted(map(repr, w)))] if all(e) and len(set(e)) == len(e) else []
                if not hit:
                    ok = False
                else:
                    left.remove(hit[0])
            ot.want(ok, "ents|%d%s" % (d, blk), "for each %s of the plane, the new entities of dimension %d are not those judged" % ({"e": "edge", "t": "triangle"}[blk], d))
        if d in counts:
            m = rebuild(tot, lambda x: deg if x == size else None)
            oc.want(m == mul(c(d + 1), counts[d]), "count|%d" % d, "room is made for %s new entities of dimension %d; their vertices number %s" % (tshow(counts[d])[:160], d, tshow(m)[:160]))


def tail(n, g, size):
    return n[:1] == ("at",) and n[2] == size and n[1][:1] == ("g",) and n[1][1].split("::")[-1] == g[1]


def shape(v):
    """A vertex of a new entity, in terms of the tables of swap configurations."""
    if v[:1] == ("at",) and v[1][:2] == ("mem", "loop_verts2verts"):
        return ("L", v[1][2], v[2])
    if v[:1] == ("at",) and v[1][:2] == ("mem", "eev2v"):
        return ("E", v[1][2], v[2])
    return None


def wanted(d, blk, size, cfg, n, b, LP):
    g = {}
    for nm in ("unique_edges", "edges2unique", "swap_triangles", "swap_meshes"):
        g[nm] = ("g", nm)
    E = [("E", LP, c(k)) for k in (0, 1)]
    if blk == "e":
        u = at(at(at(g["edges2unique"], size), cfg), b)
        x = [("L", LP, at(at(at(g["unique_edges"], size), u), c(k))) for k in (0, 1)]
        return [x] if d == 1 else [x + [E[0]], x + [E[1]]]
    u = at(at(g["swap_meshes"], size), add(mul(cfg, n), b))
    t = [("L", LP, at(at(at(g["swap_triangles"], size), u), c(k))) for k in range(3)]
    return [t] if d == 2 else [t + [E[1]], [t[0], t[2], t[1], E[0]]]


# ------------------------------------------------------------------ collapsing edges
def coarsen(P, R):
    f = fn(P, "get_verts_onto", 3)
    o = Ob(R, f, "get_verts_onto")
    K, r = run(P, f, [("p", n) for n in ("mesh", "rails", "dirs")])
    i = ("i", call("size", ("p", "rails")), 0)
    st = [e for e in K.events if e.kind == "store" and e.data[0] == r]
    o.want(len(st) == 1 and st[0].data[1] == i and not st[0].pc, "every", "the vertex collapsed onto is not written for every rail")
    if st:
        for col in (0, 1):
            v = rebuild(st[0].data[2], table({at(("p", "dirs"), i): c(col)}))
            o.want(v == at(verts_of(1), add(mul(c(2), at(("p", "rails"), i)), c(1 - col))), "onto", "when end %d of a rail collapses, the vertex collapsed onto is %s" % (col, tshow(v)[:160]))
    dead(P, R)
    f = fn(P, "find_coarsen_domains", 4)
    for d in (1, 2, 3):
        o = Ob(R, f, "find_coarsen_domains|%d" % d)
        K, r = run(P, f, [("p", "mesh"), ("p", "keys"), c(d), ("p", "dead")])
        A = call("unmap_adjacency", ("p", "keys"), up(0, d))
        x = ("p", "x")
        if not o.want(r[0] == "new" and len(r) == 5, "adj", "the domains are %s" % tshow(r)[:160]):
            continue
        a2ab, ab2b, codes = r[2:5]
        src = next((t for t in subterms(ab2b) if t[:2] == ("call", "collect_marked")), None)
        if not o.want(src is not None, "live", "the domains are not limited to the entities that survive"):
            continue
        j = at(src, x)
        o.want(ev(ab2b, x) == at(mem("ab2b", A), j), "ents", "the domains are %s" % tshow(ab2b)[:200])
        o.want(ev(codes, x) == at(mem("codes", A), j), "codes", "the codes of the domains are %s" % tshow(codes)[:200])
        o.want(ev(src[2], x) == ("not", at(("p", "dead"), at(mem("ab2b", A), x))), "live", "the domains are those where %s" % tshow(src[2])[:200])
        ok = a2ab[:2] == ("call", "invert_funnel") and a2ab[3] == call("size", ("p", "keys")) and ev(a2ab[2], x) == at(call("invert_fan", mem("a2ab", A)), j)
        o.want(ok, "keys", "the domains are grouped by %s" % tshow(a2ab)[:200])
    f = fn(P, "coarsen_topology", 5)
    for d in (1, 2, 3):
        o = Ob(R, f, "coarsen_topology|%d" % d)
        K, r = run(P, f, [("p", "mesh"), ("p", "onto"), c(d), ("p", "doms"), ("p", "o2n")])
        i = ("i", call("size", ("p", "onto")), 0)
        o.want(r[0] == "alloc" and rebuild(r[2], TAB) == mul(c(d + 1), call("last", mem("a2ab", ("p", "doms")))), "size", "the array for vertices of new entities holds %s" % tshow(r)[:160])
        st = [e for e in K.events if e.kind == "store" and e.data[0] == r]
        got = {}
        blk = None
        for e in st:
            bs = [b for b in e.binders if b[0] == "bv"]
            if not bs:
                continue
            b = bs[0]
            blk = b
            o.want(b[1] == at(mem("a2ab", ("p", "doms")), i) and b[2] == at(mem("a2ab", ("p", "doms")), add(i, c(1))), "range", "the new entities of a key are made from %s" % tshow(b)[:160])
            inner = bs[1:]
            code = at(mem("codes", ("p", "doms")), b)
            ix = rebuild(e.data[1], TAB)
            v = rebuild(e.data[2], TAB)
            js = [(None, None)]
            if inner:
                ib = rebuild(inner[0], TAB)
                js = [(ib, j) for j in range(int(ib[2][1]))] if isc(ib[2]) else []
            for ib, j in js:
                for col in range(d + 1):
                    m = {call("code_which_down", code): c(col)}
                    if ib is not None:
                        m[ib] = c(j)
                    ok = conj(*[rebuild(canon(p), table(m)) for p in e.pc])
                    if ok == FALSE:
                        continue
                    k = add(rebuild(ix, table(m)), mul(c(-(d + 1)), b))
                    if ok != TRUE or not isc(k):
                        o.want(False, "where", "a vertex of a new entity is written at %s where %s" % (tshow(k)[:120], tshow(ok)[:120]))
                        continue
                    got[(col, int(k[1]))] = rebuild(v, table(m))
        for col in range(d + 1):
            for k in range(d + 1):
                w = at(("p", "onto"), i) if k == col else at(verts_of(d), add(mul(c(d + 1), at(mem("ab2b", ("p", "doms")), blk)), c(k))) if blk else None
                o.want(got.get((col, k)) == at(("p", "o2n"), w), "vert", "where vertex %d of an entity collapses, vertex %d of the new one is %s" % (col, k, tshow(got[(col, k)])[:160] if (col, k) in got else "never written"))


def ev(A, i):
    """Entry i of an array made by combinators."""
    if A[:1] == ("call",):
        n = A[1].split("<")[0]
        if n == "unmap" and A[4] == c(1) or n == "compound_maps":
            return ev(A[3], ev(A[2], i))
        if n == "invert_marks":
            return ("not", ev(A[2], i))
    return at(A, i)


def dead(P, R):
    f = fn(P, "mark_dead_ents", 6)
    for d in (2, 3):
        o = Ob(R, f, "mark_dead_ents|%d" % d)
        K, r = run(P, f, [("p", "mesh"), ("p", "rails"), ("p", "dirs"), c(d), ("p", "cells"), ("p", "sides")])
        i = ("i", call("size", ("p", "rails")), 0)
        E = at(("p", "rails"), i)
        ar = around(up(1, d), E)
        seen = {"cells": [], "sides": []}
        for e in K.events:
            if e.kind != "store":
                continue
            bs = [b for b in e.binders if b[0] == "bv"]
            a = e.data[0][1] if e.data[0][0] == "p" else "?"
            if not o.want(a in seen and e.data[2] == c(1) and not e.pc, "mark", "%s is set to %s" % (tshow(e.data[0])[:80], tshow(e.data[2])[:80])):
                continue
            o.want(len(bs) == 1 and bs[0][1:3] == ar[1:3], "around", "what is marked lies around %s" % (tshow(bs[0])[:160] if bs else "nothing"))
            seen[a].append((bs[0], e.data[1]))
        for a in seen:
            o.want(len(seen[a]) == 1, "mark|" + a, "dead %s are marked in %d places" % (a, len(seen[a])))
        for b, ix in seen["cells"]:
            o.want(ix == at(mem("ab2b", up(1, d)), b), "cells", "the cell marked is %s" % tshow(ix)[:160])
        for b, ix in seen["sides"]:
            code = at(mem("codes", up(1, d)), b)
            cell = at(mem("ab2b", up(1, d)), b)
            for dde in range(NE[d]):
                for rot in (0, 1):
                    for col in (0, 1):
                        x = rebuild(ix, table({call("code_which_down", code): c(dde), call("code_rotation", code): c(rot), at(("p", "dirs"), i): c(col)}))
                        x = rebuild(x, TAB)
                        s = [k for k in range(d + 1) if x == at(mem("ab2b", call("ask_down", MESH, c(d), c(d - 1))), add(mul(c(d + 1), cell), c(k)))]
                        onto = TAB.down(d, 1, dde, (1 - col) ^ rot)
                        ok = len(s) == 1 and onto not in [TAB.down(d, d - 1, s[0], k) for k in range(d)]
                        o.want(ok, "sides", "edge %d, rotated by %d, end %d collapsing: the side marked is %s" % (dde, rot, col, s))
    # the driver
    f = fn(P, "mark_dead_ents", 3)
    for md in (1, 2, 3):
        o = Ob(R, f, "mark_dead_ents(all)|%d" % md)
        calls = []

        def hook(K, n, nm, q, ob, a):
            if q == "Omega_h::Mesh::dim":
                return c(md)
            if nm == "mark_dead_ents":
                calls.append(tuple(a))
                return ("void",)
            return None
        K = Kern(P, inline=lambda g: False, hook=hook)
        r = K.run(f, [("p", n) for n in ("mesh", "rails", "dirs")])
        arrs = {d: K.sel(r, c(d)) for d in range(1, md + 1)}
        o.want(contains(arrs[1], lambda x: x[:2] == ("call", "mark_image") and x[2] == ("p", "rails")), "rails", "the rails are not among the dead edges")
        o.want(len({repr(a) for a in arrs.values()}) == md, "apart", "marks of different dimensions share an array")
        want = [(("p", "mesh"), ("p", "rails"), ("p", "dirs"), c(d), arrs[d], arrs[d - 1]) for d in range(2, md + 1)]
        o.want(sorted(map(repr, calls)) == sorted(map(repr, want)), "dims", "dead cells and sides are marked by %d calls, not one for each dimension from 2 to %d" % (len(calls), md))
        for d in range(2, md + 1):
            o.want(arrs[d][0] == "alloc" and arrs[d][3:4] == (c(0),), "zero|%d" % d, "marks of dimension %d start as %s" % (d, tshow(arrs[d])[:120]))


# ------------------------------------------------------------------ the rebuild
def same_mesh(t):
    """A mesh is the same object after functions have filled it."""
    def g(x):
        if x[:1] == ("out",) and x[2][:1] == ("call",) and x[2][1].startswith(("modify_", "transfer_")) and 2 + x[1] < len(x[2]) and \
                (x[2][1] == "modify_ents_adapt" and x[1] == 1 or x[2][1].startswith("transfer_") and x[1] in (0, 1, 2)):
            return same_mesh(x[2][2 + x[1]])
        return None
    return rebuild(t, g)


DRIVERS = (("refine_element_based", (1, 2, 3), 1), ("coarsen_element_based2", (1, 2, 3), 0), ("swap2d_element_based", (2,), 1), ("swap3d_element_based", (3,), 1))


def leafstr(t):
    if isinstance(t, str):
        return [t]
    return [y for x in t for y in leafstr(x)] if isinstance(t, tuple) else []


def drivers(P, R):
    """What is judged, built and put into the new mesh are the same keys, products and vertices, dimension by dimension."""
    for q, dims, kd in DRIVERS:
        f = fn(P, q, 2)
        for md in dims:
            o = Ob(R, f, "%s|%d" % (q, md))
            calls = []

            def hook(K, n, nm, qq, ob, a):
                if qq == "Omega_h::Mesh::dim":
                    return c(md)
                a = [same_mesh(x) for x in a]
                if nm in ("modify_ents_adapt", "set_owners", "set_verts", "mark_dead_ents", "get_verts_onto", "find_rails") or nm.startswith("transfer_"):
                    calls.append((nm, tuple(a)))
                return None
            K = Kern(P, inline=lambda g: False, hook=hook)
            K.run(f, [MESH, ("p", "opts")])
            K.versions = False
            keys = [x for nm, a in calls if nm == "modify_ents_adapt" for x in (a[4],)]
            if not o.want(keys and all(k == keys[0] for k in keys), "keys", "the dimensions are rebuilt from different keys"):
                continue
            keys = keys[0]
            src = keys[2] if keys[:2] == ("call", "collect_marked") else ("?",) * 4
            o.want(src[0] == "call" and src[1].startswith("get_array") and src[2:4] == (MESH, c(kd)) and "key" in [x for x in leafstr(src)], "keys", "the keys are %s" % tshow(keys)[:160])
            mods = [a for nm, a in calls if nm == "modify_ents_adapt"]
            first = 0 if q.startswith(("refine", "coarsen")) else 1
            if not o.want([a[2] for a in mods] == [c(d) for d in range(first, md + 1)], "dims", "the dimensions rebuilt are %s" % ", ".join(tshow(a[2]) for a in mods)):
                continue
            mods = [a for nm, a in calls if nm == "modify_ents_adapt"]
            new = mods[0][1]
            outs = {}
            ident = ("new", "?", call("nverts", MESH), c(0), c(1))
            for d, a in zip(range(first, md + 1), mods):
                o.want(a[0] == MESH and a[1] == new and a[3] == c(kd), "args|%d" % d, "entities of dimension %d are rebuilt around keys of dimension %s" % (d, tshow(a[3])))
                t = ("call", "modify_ents_adapt") + a
                outs[d] = [("out", k, t) for k in range(8, 12)]
                o2n = outs[0][3] if 0 in outs else None
                k2p, pv, lows = a[5], a[6], a[7]
                if d > first:
                    o.want(lows == outs[d - 1][3], "lows|%d" % d, "entities of dimension %d are renumbered with %s" % (d, tshow(lows)[:160]))
                elif first == 1:
                    o.want(lows[0] in ("new", "alloc") and lows[2:] == ident[2:], "lows|%d" % d, "vertices that stay are renumbered with %s" % tshow(lows)[:160])
                if q.startswith("refine"):
                    if d == 0:
                        n = counted(k2p, None, ("p", "i"))
                        o.want(n == c(1) and k2p[2] == add(call("size", keys), c(1)), "new|0", "a split edge has %s new vertices" % tshow(n)[:80])
                    else:
                        t = next((x[2] for x in (k2p,) if x[:2] == ("out", 5) and x[2][1] == "refine_products"), None)
                        ok = t is not None and pv == ("out", 6, t) and t[2:7] == (MESH, c(d), keys, outs[0][0], o2n)
                        o.want(ok, "new|%d" % d, "the products of dimension %d are %s" % (d, tshow(pv)[:160]))
                elif q.startswith("coarsen"):
                    if d == 0:
                        n = counted(k2p, None, ("p", "i"))
                        o.want(n == c(0) and k2p[2] == add(call("size", keys), c(1)), "new|0", "a collapsed edge has %s new vertices" % tshow(n)[:80])
                    else:
                        doms = k2p[2] if k2p[:2] == ("mem", "a2ab") else None
                        ok = doms is not None and doms[:2] == ("call", "find_coarsen_domains") and doms[2:5] == (MESH, keys, c(d))
                        ok = ok and pv[:2] == ("call", "coarsen_topology") and pv[2] == MESH and pv[4:7] == (c(d), doms, o2n)
                        o.want(ok, "new|%d" % d, "the products of dimension %d are %s" % (d, tshow(pv)[:200]))
                        if ok:
                            de, on = doms[5], pv[3]
                            ok = de[:1] == ("at",) and de[1][:2] == ("call", "mark_dead_ents") and de[2] == c(d) and on[:2] == ("call", "get_verts_onto")
                            ok = ok and de[1][2:5] == on[2:5] and de[1][2] == MESH
                            o.want(ok, "dead|%d" % d, "what dies and what is collapsed onto come from different rails")
                            if ok:
                                ra, di = on[3], on[4]
                                ok = ra[0] == di[0] == "out" and ra[2] == di[2] and ra[2][1] == "find_rails" and (ra[1], di[1]) == (3, 4) and ra[2][2:4] == (MESH, keys)
                                o.want(ok, "rails|%d" % d, "the rails are %s" % tshow(ra)[:160])
                else:
                    if q.startswith("swap2d"):
                        t = next((x[1][2] for x in (k2p,) if x[0] == "at" and x[1][:2] == ("out", 2)), None)
                        ok = t is not None and t[1] == "swap2d_topology" and k2p[2] == c(d) and pv == ("at", ("out", 3, t), c(d)) and t[2:4] == (MESH, keys)
                    else:
                        kp = call("swap3d_keys_to_prods", MESH, keys)
                        ok = k2p == at(kp, c(d)) and pv[:1] == ("at",) and pv[2] == c(d) and pv[1][:2] == ("call", "swap3d_topology") and \
                            pv[1][2:4] == (MESH, keys) and pv[1][5] == kp and "config" in repr(pv[1][4])
                    o.want(ok, "new|%d" % d, "the products of dimension %d are %s" % (d, tshow(pv)[:200]))
            tr = [(nm, a) for nm, a in calls if nm.startswith("transfer_") and nm != "transfer_copy"]
            if o.want(len(tr) == len(mods), "transfer", "fields are transferred %d times for %d dimensions" % (len(tr), len(mods))):
                for (nm, a), m, d in zip(tr, mods, range(first, md + 1)):
                    pos = {"transfer_refine": (3, 5, None, 7, 8, 9), "transfer_coarsen": (3, 5, None, 6, 7, 8), "transfer_swap": (4, 3, 5, 6, 7, 8)}.get(nm)
                    if not o.want(pos is not None and nm.startswith("transfer_" + q[:4]), "transfer", "fields are transferred by %s" % nm):
                        continue
                    k, e, kp, p2n, s2o, s2n = pos
                    ok = a[0] == MESH and a[2] == new and a[k] == keys and a[e] == c(d) and [a[p2n], a[s2o], a[s2n]] == outs[d][:3]
                    if kp is not None:
                        ok = ok and a[kp] == m[5]
                    if nm == "transfer_refine":
                        ok = ok and a[6] == m[5] and a[4] == outs[0][0]
                    if nm == "transfer_coarsen" and d > 0:
                        ok = ok and mem("a2ab", a[4]) == m[5]
                    o.want(ok, "transfer|%d" % d, "the fields of dimension %d are transferred for other entities than those built" % d)


# ------------------------------------------------------------------ the pass


def check(P):
    global TAB
    R = Result()
    TAB = Tab(P)
    from . import p21
    p21.TAB = TAB
    refine(P, R)
    swap2d(P, R)
    swap3d(P, R)
    coarsen(P, R)
    drivers(P, R)
    return R
