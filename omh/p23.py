"""P23: modification numbers the entities of the new mesh one to one, locally and globally, and all copies agree."""
from .core import *
from .kern import *
from .kern import samechoice
from .kern import Kern
from .cav import Tab
from . import p21, p22
from .p21 import c, at, call, eq, lt, mem, add, mul, up, rebuild, canon, subterms, tshow, MESH
from .p22 import ev, closed, lin

LEVEL = "other"
RULE = ("The kernels that count, order and number entities during modification are reduced to closed forms and compared: the number of "
        "places an old entity gets is one if it stays plus the products it represents, and every product is numbered by the place of its "
        "representative, behind it if it stays, behind the products of modified entities that come before, and by its rank within its own; "
        "the drivers must feed counts, scan, order and numbering the same lists; global counts include owned entities only.")
ASSUMPTIONS = ["array combinators (unmap, map_into, offset_scan, collect_marked, invert_*) and Dist exchanges do what their names state",
               "keys of one pass share no element (P21)"]
TRUSTED = ["omh/kern.py: kernels run serially in index order"]


class Ob(p22.Ob):
    def want(self, ok, what, msg):
        self.R.count("obligations")
        if not ok:
            self.R.bad("numbering", "%s|%s" % ("derefine" if what == "owner" and self.q.startswith("derefine") else self.q, what), "%s:%d" % (self.f.file, self.f.line), "%s: %s" % (self.q, msg))
        return ok


def fns(P, q, n):
    fs = [f for f in P.fn("Omega_h::" + q) if f.body and len(f.params) == n]
    if not fs:
        raise Broken("no function Omega_h::%s with %d parameters" % (q, n))
    return fs


def fn1(P, q, n):
    fs = fns(P, q, n)
    if len(fs) != 1:
        raise Broken("%d functions Omega_h::%s with %d parameters" % (len(fs), q, n))
    return fs[0]


def lst(name, have=range(4)):
    """Four arrays, of which some exist."""
    return ("list",) + tuple(("p", "%s%d" % (name, d)) if d in have else ("none",) for d in range(4))


def kern(P, f, args, dim, calls=None, consts=None, opq=(), inl=None):
    def hook(K, n, nm, q, o, a):
        if q == "Omega_h::Mesh::dim":
            return c(dim)
        if nm == "exists" and o is not None:
            if o[0] == "none" or o[0] == "undef":
                return c(0)
            if o[0] in ("p", "alloc", "new", "call", "out", "mem"):
                return c(1)
            return None
        if consts and nm in consts:
            return consts[nm](a)
        if calls is not None:
            calls.append((nm, q, o, tuple(a)))
        return None
    K = Kern(P, inline=inl or (lambda g: False), hook=hook)
    r = K.run(f, args)
    return K, r


def stored(K, arr):
    return [e for e in K.events if e.kind == "store" and e.data[0] == arr]


# ------------------------------------------------------------------ representatives
def reps(P, R):
    f = fn1(P, "get_mods2reps", 4)
    first = {}
    for e in range(4):
        for m in range(4):
            o = Ob(R, f, "get_mods2reps|%d|%d" % (e, m))
            K, r = kern(P, f, [MESH, c(e), c(m), ("p", "mds")], 3)
            if e == m:
                o.want(r == ("p", "mds"), "self", "a modified entity is represented by %s" % tshow(r)[:160])
                continue
            i = ("i", call("size", ("p", "mds")), 0)
            st = stored(K, r)
            if not o.want(r[0] == "alloc" and r[2] == call("size", ("p", "mds")) and len(st) == 1 and st[0].data[1] == i and not st[0].pc, "every", "not every modified entity gets a representative"):
                continue
            v, md = st[0].data[2], at(("p", "mds"), i)
            if e > m:
                A = up(m, e)
                o.want(v == at(mem("ab2b", A), at(mem("a2ab", A), md)), "up", "the representative is %s" % tshow(v)[:160])
            else:
                A = mem("ab2b", call("ask_down", MESH, c(m), c(e)))
                d = call("element_degree", call("family", MESH), c(m), c(e))
                k = None
                if v[:1] == ("at",) and v[1] == A:
                    x = add(v[2], mul(c(-1), mul(md, d)))
                    k = int(x[1]) if isc(x) else None
                o.want(k is not None and k >= 0, "down", "the representative is %s" % tshow(v)[:160])
                first[(e, m)] = k
    return first


def counts(P, R):
    f = fn1(P, "get_rep_counts", 7)
    for md in (1, 2, 3):
        for e in range(md + 1):
            for have in [(m,) for m in range(md + 1)] + [tuple(range(max(1, e), md + 1))]:
                for cno in (0, 1):
                    o = Ob(R, f, "get_rep_counts|%d|%d|%s|%d" % (md, e, ",".join(map(str, have)), cno))
                    K, r = kern(P, f, [MESH, c(e), lst("mds", have), lst("reps", have), lst("np", have), ("p", "same"), c(cno)], md)
                    o.want(r[0] == "alloc" and r[2] == call("nents", MESH, c(e)) and r[3:4] == (c(0),), "zero", "the counts start as %s" % tshow(r)[:120])
                    st = stored(K, r)
                    i = ("i", call("size", ("p", "same")), 0)
                    own = lambda d, x: at(call("owned", MESH, c(d)), x)
                    s = at(("p", "same"), i)
                    ok = len(st) == 1 and st[0].data[1] == s and st[0].data[2] == c(1)
                    ok = ok and conj(*st[0].pc) == (TRUE if cno else truth(own(e, s)))
                    o.want(ok, "same", "an entity that stays is not counted once%s" % ("" if cno else " by its owner"))
                    adds = [ev_ for ev_ in K.events if ev_.kind == "call" and ev_.data[0] == "atomic_add"]
                    got = {}
                    for ev_ in adds:
                        t = ev_.data[1]
                        got[repr((t[2], t[3], ev_.binders[-1], conj(*ev_.pc)))] = t
                    want = set()
                    for m in have:
                        i = ("i", call("size", ("p", "reps%d" % m)), 0)
                        pc = TRUE if cno else truth(own(m, at(("p", "mds%d" % m), i)))
                        want.add(repr((("ptr", r, at(("p", "reps%d" % m), i)), at(("p", "np%d" % m), i), i, pc)))
                    o.want(set(got) == want and len(adds) == len(want), "prods", "the products are counted %d times, for %s" % (len(adds), "; ".join(tshow(t)[:100] for t in got.values())[:300]))
                    if st and adds:
                        o.want(K.events.index(st[0]) < K.events.index(adds[0]), "order", "entities that stay are counted after products, whose count is lost")


def truth(t):
    return p21._K.asbool(t)


def order(P, R, first):
    f = fn1(P, "get_rep2md_order", 5)
    for md in (1, 2, 3):
        for e in range(md + 1):
            for have in [(m,) for m in range(md + 1)] + [tuple(range(1, md + 1))]:
                o = Ob(R, f, "get_rep2md_order|%d|%d|%s" % (md, e, ",".join(map(str, have))))
                K, r = kern(P, f, [MESH, c(e), lst("mds", have), lst("np", have), ("list",) + tuple(c(int(d in have)) for d in range(4))], md)
                higher = [m for m in have if m > e]
                outs = {m: K.sel(r, c(m)) for m in range(4)}
                for m in range(4):
                    if m in higher:
                        o.want(outs[m][0] == "alloc" and outs[m][2] == call("nents", MESH, c(m)), "out|%d" % m, "the order of modified entities of dimension %d is %s" % (m, tshow(outs[m])[:120]))
                    else:
                        o.want(outs[m][0] in ("undef", "at") and contains(outs[m], lambda x: x[:1] == ("undef",)), "out|%d" % m, "an order of modified entities of dimension %d exists, which tells that their representatives stay" % m)
                if not higher:
                    continue
                i = ("i", call("nents", MESH, c(e)), 0)
                inv = lambda m: call("invert_injective_map", ("p", "mds%d" % m), call("nents", MESH, c(m)))
                now = c(0)
                if e in have:
                    x = at(inv(e), i)
                    now = ite(le0(x), at(("p", "np%d" % e), x), c(0))
                for m in higher:
                    A = up(e, m)
                    st = [s for s in stored(K, outs[m])]
                    if not o.want(len(st) == 1, "once|%d" % m, "the order of modified entities of dimension %d is written in %d places" % (m, len(st))):
                        break
                    s = st[0]
                    bs = [b for b in s.binders if b[0] == "bv"]
                    ok = len(bs) == 1 and bs[0][1] == at(mem("a2ab", A), i) and bs[0][2] == at(mem("a2ab", A), add(i, c(1))) and s.binders[0] == i
                    if not o.want(ok, "around|%d" % m, "modified entities of dimension %d are looked for in %s" % (m, tshow(bs[0])[:120] if bs else "?")):
                        break
                    b = bs[0]
                    ent = at(mem("ab2b", A), b)
                    mod = at(inv(m), ent)
                    cond = conj(le0(mod), eq(call("code_which_down", at(mem("codes", A), b)), c(first.get((e, m), 0))))
                    loops = [(mu, ini, st_) for bb, brk, ss in K.loops for mu, (ini, st_) in ss.items() if bb == b and brk == FALSE]
                    o.want(s.data[1] == ent and conj(*s.pc) == cond, "whom|%d" % m, "the order is written for %s where %s" % (tshow(s.data[1])[:120], tshow(conj(*s.pc))[:200]))
                    hit = [x for x in loops if x[0] == s.data[2]]
                    if not o.want(len(hit) == 1, "value|%d" % m, "the order of a modified entity of dimension %d is %s, not the number of products before" % (m, tshow(s.data[2])[:120])):
                        break
                    mu, ini, step = hit[0]
                    o.want(ini == now, "from|%d" % m, "counting for dimension %d starts from %s" % (m, tshow(ini)[:200]))
                    w = add(mu, at(("p", "np%d" % m), mod))
                    o.want(samechoice(canon(step), canon(ite(cond, w, mu))), "step|%d" % m, "a modified entity of dimension %d takes the count to %s" % (m, tshow(step)[:200]))
                    now = ("fold", b, ini, step, FALSE, mu)


def le0(x):
    return p21.le(c(0), x)


def numbers(P, R):
    for f in fns(P, "assign_new_numbering", 9):
        T = "global" if any("long" in p["t"] or "I64" in p["t"] or "GO" in p["t"] for p in f.params) else "local"
        for keep in (0, 1):
            for have, ordered in (((0,), ()), ((1,), ()), ((1,), (1,)), ((1, 2), ()), ((1, 2, 3), (1, 2, 3)), ((2, 3), (3,)), ((1, 2), (2,))):
                o = Ob(R, f, "assign_new_numbering(%s)|%d|%s|%s" % (T, keep, ",".join(map(str, have)), ",".join(map(str, ordered))))
                K, r = kern(P, f, [("p", "off"), ("p", "same"), lst("mds", have), lst("reps", have), lst("prods", have), lst("ord", ordered), ("p", "pS"), ("p", "pP"), c(keep)], 3)
                S, N = [K.env.get((f.params[j]["d"],)) for j in (6, 7)]
                S, N = [x[1] if x and x[0] == "deref" else x for x in (S, N)]
                x = ("p", "x")
                o.want(S is not None and ev(S, x) == at(("p", "off"), at(("p", "same"), x)), "same", "an entity that stays is numbered %s" % (tshow(S)[:120] if S else "?"))
                if not o.want(N is not None and N[0] == "alloc" and N[2] == call("last", ("p", "prods%d" % have[-1])), "size", "the numbers of products are %s" % (tshow(N)[:120] if N else "?")):
                    continue
                st = stored(K, N)
                done = []
                for s in st:
                    bs = [b for b in s.binders if b[0] == "bv"]
                    i = s.binders[0]
                    ms = [m for m in have if i[1] == call("size", ("p", "reps%d" % m))]
                    ok = len(bs) == 1 and len(ms) == 1 and bs[0][1:3] == (at(("p", "prods%d" % ms[0]), i), at(("p", "prods%d" % ms[0]), add(i, c(1)))) and s.data[1] == bs[0] and not s.pc
                    if not o.want(ok, "range", "products are numbered at %s where %s" % (tshow(s.data[1])[:120], tshow(conj(*s.pc))[:120])):
                        continue
                    m, b = ms[0], bs[0]
                    done.append(m)
                    v = s.data[2]
                    for bb, brk, ss in K.loops:
                        for mu, (ini, step) in ss.items():
                            if bb == b and brk == FALSE and step is not None and contains(v, lambda y: y == mu) and add(step, mul(c(-1), mu)) == c(1):
                                v = subst(v, lambda y: add(ini, add(b, mul(c(-1), b[1]))) if y == mu else None)
                    v = rebuild(canon(v), lambda y: ev(y[1], y[2]) if y[:1] == ("at",) and y[1][:2] == ("call", "unmap") else None)
                    w = add(at(("p", "off"), at(("p", "reps%d" % m), i)), add(b, mul(c(-1), b[1])))
                    if m in ordered:
                        w = add(w, at(("p", "ord%d" % m), at(("p", "mds%d" % m), i)))
                    if keep or m in ordered:
                        w = add(w, c(1))
                    o.want(v == w, "number|%d" % m, "a product of a modified entity of dimension %d is numbered %s" % (m, tshow(v)[:240]))
                o.want(sorted(done) == sorted(have), "all", "products are numbered for modified entities of dimensions %s" % done)


def partition(P, R):
    """A number below the total lives on exactly one rank, in a place below the size of its part."""
    cands = [x for x in fns(P, "globals_to_linear_owners", 3) if "shared_ptr" not in x.params[0]["t"]]
    fs = [x for x in P.fn("Omega_h::linear_partition_size") if x.body and len(x.params) == 3]
    if len(cands) != 1 or len(fs) != 1:
        raise Broken("globals_to_linear_owners / linear_partition_size not found")
    f = cands[0]
    o = Ob(R, f, "globals_to_linear_owners")
    K, r = kern(P, f, [("p", "g"), ("p", "total"), ("p", "n")], 3)
    K2, sz = kern(P, fs[0], [("p", "total"), ("p", "n"), ("p", "r")], 3)
    i = ("i", call("size", ("p", "g")), 0)
    g = at(("p", "g"), i)
    ok = sz[0] == "ite" and sz[1] == ("<", ("p", "r"), ("b", "%", ("p", "total"), ("p", "n")))
    if not o.want(ok and r[0] == "new" and len(r) == 4, "parts", "the sizes of parts are %s" % tshow(sz)[:160]):
        return
    rem, big, small = sz[1][2], sz[2], sz[3]
    q = ("b", "/", ("p", "total"), ("p", "n"))
    o.want(big == add(q, c(1)) and small == q, "sum", "the first parts have %s, the others %s, which does not add up" % (tshow(big), tshow(small)))
    split = mul(big, rem)
    want = {("ranks", True): ("b", "/", g, big), ("idxs", True): ("b", "%", g, big),
            ("ranks", False): add(("b", "/", add(g, mul(c(-1), split)), small), rem), ("idxs", False): ("b", "%", add(g, mul(c(-1), split)), small)}
    got = {}
    for nm, arr in (("ranks", r[2]), ("idxs", r[3])):
        for s in stored(K, arr):
            pc = conj(*s.pc)
            side = True if pc == lt(g, split) else False if pc == p21.le(split, g) else None
            o.want(side is not None and s.data[1] == i, "split", "a number is put on a rank of the first kind where %s" % tshow(pc)[:160])
            got[(nm, side)] = s.data[2]
    for k, w in want.items():
        o.want(got.get(k) == w, "%s|%s" % k, "%s of a number %s: %s" % (k[0], "below the split" if k[1] else "above the split", tshow(got[k])[:160] if k in got else "never written"))


# ------------------------------------------------------------------ what is fed to what
def plain(t):
    """Names of arrays and the like do not matter."""
    def g(x):
        if x[:1] == ("alloc",):
            return x[:3]
        if x[:2] in (("call", "read"), ("call", "deep_copy")) and len(x) >= 3:
            return x[2]
        return None
    return rebuild(t, g)


def few(K, t):
    return [K.sel(t, c(d)) for d in range(4)]


def feeds(P, R, first):
    f = fn1(P, "modify_ents", 14)
    for md in (1, 2, 3):
        for key in list(range(2)) + ["amr"]:
            for e in range(md + 1):
                keep = key == "amr"
                prods = tuple(range(max(1, e), md + 1)) if keep else (key,)
                marks = tuple(range(md + 1)) if keep else tuple(range(key, md + 1))
                o = Ob(R, f, "modify_ents|%d|%s|%d" % (md, key, e))
                calls = []
                args = [MESH, ("p", "new"), c(e), lst("mds", marks), lst("marks", marks), lst("prods", prods), ("p", "pv"), ("p", "lows"), c(int(keep)), c(int(keep))] + \
                       [("p", x) for x in ("pP", "pSo", "pSn", "pO")]
                K, r = kern(P, f, args, md, calls=calls, inl=lambda g: g.name == "collect_same")
                names = [x[0] for x in calls]
                by = {}
                for nm, q, ob, a in calls:
                    by.setdefault(nm, []).append((ob, a))
                val = lambda j: K.env.get((f.params[j]["d"],))
                so = val(11)
                so = so[1] if so and so[0] == "deref" else so
                oo = val(13)
                ident = ("new", "Read<I32>", call("nents", MESH, c(e)), c(0), c(1))
                want = call("collect_marked", call("invert_marks", ("p", "marks%d" % e))) if e in marks and not keep else None
                o.want(so == want if want else so is not None and so[0] in ("new", "alloc") and so[2:5] == ident[2:5], "same", "the entities that stay are %s" % (tshow(so)[:120] if so else "?"))
                if not o.want(len(by.get("assign_new_numbering", [])) == 1 and len(by.get("get_rep_counts", [])) == 2 and len(by.get("modify_globals", [])) == 1, "calls", "entities are numbered by %s" % ", ".join(n for n in names if "num" in n or "rep" in n)):
                    continue
                an = by["assign_new_numbering"][0][1]
                mg = by["modify_globals"][0][1]
                cl = [x for x in by["get_rep_counts"]]
                mr = few(K, an[3])
                for m in range(4):
                    if m in prods:
                        o.want(mr[m] == call("get_mods2reps", MESH, c(e), c(m), ("p", "mds%d" % m)), "reps|%d" % m, "modified entities of dimension %d are represented by %s" % (m, tshow(mr[m])[:120]))
                    else:
                        o.want(contains(mr[m], lambda x: x[:1] == ("undef",)), "reps|%d" % m, "entities of dimension %d are modified but have no products" % m)
                nps = few(K, cl[0][1][4])
                for m in prods:
                    o.want(nps[m][:3] == call("get_degrees", ("p", "prods%d" % m)), "nprods|%d" % m, "the numbers of products are %s" % tshow(nps[m])[:120])
                base = (MESH, c(e), args[3], an[3], cl[0][1][4], so)
                kinds = sorted(int(x[1][6][1]) if isc(x[1][6]) else 9 for x in cl)
                o.want(all(x[1][:6] == base for x in cl) and kinds == [0, 1], "counts", "places are not counted for the entities that stay and the products, once for all copies and once for owners")
                t = {int(x[1][6][1]): ("call", "get_rep_counts") + x[1] for x in cl}
                o.want(an[0][:3] == ("call", "offset_scan", t.get(1)), "local", "local numbers are assigned from %s" % tshow(an[0])[:160])
                o.want(mg[10] == t.get(0), "global", "global numbers are counted by %s" % tshow(mg[10])[:160])
                o.want(an[1] == so and an[2] == args[3] and an[4] == args[5] and an[6:8] == (("p", "pSn"), ("p", "pP")) and an[8] == c(int(keep)), "args", "local numbers are assigned for other entities")
                od = an[5]
                flags = [K.sel(od[6], c(m)) for m in range(4)] if od[:2] == ("call", "get_rep2md_order") else []
                ok = od[:2] == ("call", "get_rep2md_order") and od[2:6] == (MESH, c(e), args[3], cl[0][1][4])
                o.want(ok and [x == c(1) or x == TRUE for x in flags] == [m in prods for m in range(4)], "order", "the order of products is %s" % tshow(od)[:200])
                o.want(oo is not None and (oo[1] if oo[0] == "deref" else oo)[:7] == call("map_onto", ("p", "pSn"), so, call("nents", MESH, c(e)), c(-1), c(1)), "o2n", "old entities are mapped to %s" % (tshow(oo)[:160] if oo else "?"))
                last = call("last", an[0])
                if e == 0:
                    o.want([a for ob, a in by.get("set_verts", [])] == [(last,)], "verts", "the number of new vertices is not that of places")
                else:
                    o.want([a for ob, a in by.get("modify_conn", [])] == [(MESH, ("p", "new"), c(e), ("p", "pv"), ("p", "pP"), so, ("p", "pSn"), ("p", "lows"))], "conn", "connectivity is set for other entities than those numbered")
                ow = by.get("modify_owners", [])
                oo = oo[1] if oo and oo[0] == "deref" else oo
                o.want([a for ob, a in ow] == [(MESH, ("p", "new"), c(e), args[3], args[5], ("p", "pP"), so, ("p", "pSn"), oo, args[9])], "owners", "owners are set for other entities than those numbered")
                o.want(mg[:10] == (MESH, ("p", "new"), c(e), c(int(keep)), args[3], args[5], ("p", "pP"), so, ("p", "pSn"), an[3]), "globals", "global numbers are set for other entities than those numbered locally")
                if ow and mg:
                    i = names.index("assign_new_numbering")
                    o.want(all(names.index(n) > i for n in ("map_onto", "modify_conn", "modify_owners", "modify_globals") if n in names), "first", "numbers are used before they are assigned")
    f = fn1(P, "modify_ents_adapt", 12)
    for md in (1, 2, 3):
        for key in range(md + 1):
            o = Ob(R, f, "modify_ents_adapt|%d|%d" % (md, key))
            calls = []
            a = [("p", x) for x in ("keys", "prods", "pv", "lows", "pP", "pSo", "pSn", "pO")]
            K, r = kern(P, f, [MESH, ("p", "new"), ("p", "e"), c(key)] + a, md, calls=calls)
            me = [x[3] for x in calls if x[0] == "modify_ents"]
            if not o.want(len(me) == 1, "call", "entities are modified %d times" % len(me)):
                continue
            x = me[0]
            mi = call("mark_image", ("p", "keys"), call("nents", MESH, c(key)))
            marks, mds, pr = few(K, x[4]), few(K, x[3]), few(K, x[5])
            for d in range(md + 1):
                w = mi if d == key else call("mark_up", MESH, c(key), c(d), mi) if d > key else None
                und = lambda t: contains(t, lambda y: y[:1] == ("undef",))
                o.want(marks[d] == w if w else und(marks[d]), "marks|%d" % d, "entities of dimension %d to be removed are %s" % (d, tshow(marks[d])[:120]))
                w2 = ("p", "keys") if d == key else call("collect_marked", w) if w else None
                o.want(mds[d] == w2 if w2 else und(mds[d]), "mods|%d" % d, "modified entities of dimension %d are %s" % (d, tshow(mds[d])[:120]))
                o.want(pr[d] == ("p", "prods") if d == key else und(pr[d]), "prods|%d" % d, "products of dimension %d belong to %s" % (d, tshow(pr[d])[:120]))
            o.want(x[:3] == (MESH, ("p", "new"), ("p", "e")) and x[6:8] == (("p", "pv"), ("p", "lows")) and x[8:10] in ((c(0), c(0)), (FALSE, FALSE)) and x[10:] == tuple(a[4:]), "args", "other entities are modified")


def into(calls, K, o, new, want, what):
    """The calls of map_into fill an array from both kinds of new entities."""
    got = [a for nm, q, ob, a in calls if nm == "map_into" and plain(a[2]) == plain(new) and a[2] == new]
    g = sorted(repr(plain(a[:2] + a[3:])) for a in got)
    w = sorted(repr(plain(x)) for x in want)
    o.want(g == w, what, "%s is filled from %s" % (what, "; ".join(tshow(plain(a[0]))[:120] + " at " + tshow(a[1])[:40] for a in got)))


def conn(P, R):
    f = fn1(P, "modify_conn", 8)
    for e in (1, 2, 3):
        o = Ob(R, f, "modify_conn|%d" % e)
        calls = []
        N = ("p", "new")
        K, r = kern(P, f, [MESH, N, c(e)] + [("p", x) for x in ("pv", "p2n", "so", "sn", "lows")], 3, calls=calls)
        se = [a for nm, q, ob, a in calls if nm == "set_ents" and ob == N]
        if not o.want(len(se) == 1 and se[0][0] == c(e) and se[0][1][0] == "new", "set", "the connectivity of new entities is not set once"):
            continue
        A = se[0][1]
        deg = call("element_degree", call("family", MESH), c(e), c(e - 1))
        down = call("ask_down", MESH, c(e), c(e - 1))
        n = mul(add(call("size", ("p", "p2n")), call("size", ("p", "so"))), deg)
        same = call("compound_maps", call("unmap", ("p", "so"), mem("ab2b", down), deg), ("p", "lows"))
        n2 = mul(add(call("size", ("p", "p2n")), call("size", ("p", "sn"))), deg)
        refl = call("reflect_down", ("p", "pv"), call("ask_verts_of", N, c(e - 1)), call("ask_up", N, c(0), c(e - 1)), call("family", MESH), c(e), c(e - 1))
        prod = mem("ab2b", refl) if e > 1 else None
        o.want(A[2][0] == "alloc" and A[2][2] in (n, n2), "size", "the connectivity has %s entries" % tshow(A[2])[:120])
        got = [a for nm, q, ob, a in calls if nm == "map_into" and a[2] == A[2]]
        sm = [a for a in got if a[1] == ("p", "sn")]
        pd = [a for a in got if a[1] == ("p", "p2n")]
        o.want(len(got) == 2 and len(sm) == 1 and len(pd) == 1, "kinds", "the connectivity is filled %d times" % len(got))
        for a in sm:
            o.want(plain(a[0]) == same and a[3] == deg, "same", "entities that stay get %s" % tshow(a[0])[:160])
        for a in pd:
            ok = plain(a[0]) == prod if e > 1 else a[0] in (("p", "pv"), mem("ab2b", ("p", "pv")), mem("ab2b", ("new", "Adj", ("p", "pv"))))
            o.want(ok and a[3] == deg, "prods", "new entities get %s" % tshow(a[0])[:160])
        if e > 1:
            into(calls, K, o, A[3], [(call("unmap", ("p", "so"), mem("codes", down), deg), ("p", "sn"), deg), (mem("codes", refl), ("p", "p2n"), deg)], "codes")


def owners(P, R):
    f = fn1(P, "modify_owners", 10)
    N = ("p", "new")
    for shared in (0, 1):
        o = Ob(R, f, "modify_owners|%d" % shared)
        calls = []
        K, r = kern(P, f, [MESH, N, c(1), lst("mds", (1,)), lst("prods", (1,))] + [("p", x) for x in ("p2n", "so", "sn", "o2n")] + [c(shared)], 3, calls=calls)
        so = [a for nm, q, ob, a in calls if nm == "set_owners" and ob == N]
        if not o.want(len(so) == 1 and so[0][0] == c(1) and so[0][1][0] == "new" and len(so[0][1]) == 4, "set", "owners are not set once"):
            continue
        un = call("unmap_owners", MESH, c(1), ("p", "so"), ("p", "o2n"))
        if shared:
            sh = call("get_prod_owners_shared", MESH, lst("mds", (1,)), lst("prods", (1,)), ("p", "p2n"))
            pr, px = mem("ranks", sh), mem("idxs", sh)
        else:
            pr, px = ("new", "Read<I32>", call("size", ("p", "p2n")), call("rank", call("comm", N))), ("p", "p2n")
        into(calls, K, o, so[0][1][2], [(mem("ranks", un), ("p", "sn"), c(1)), (pr, ("p", "p2n"), c(1))], "ranks")
        into(calls, K, o, so[0][1][3], [(mem("idxs", un), ("p", "sn"), c(1)), (px, ("p", "p2n"), c(1))], "idxs")
        n = add(call("size", ("p", "p2n")), call("size", ("p", "so")))
        o.want(all(x[0] == "alloc" and x[2] == n for x in so[0][1][2:4]), "size", "there are owners for %s" % tshow(so[0][1][2])[:120])
    for f in P.fn("Omega_h::unmap_owners"):
        if f.body and len(f.params) == 4:
            o = Ob(R, f, "unmap_owners")
            K, r = kern(P, f, [MESH, ("p", "d"), ("p", "n2o"), ("p", "o2n")], 3)
            x = ("p", "x")
            ex = call("exch", call("invert", call("ask_dist", MESH, ("p", "d"))), ("p", "o2n"), c(1))
            ok = r[0] == "new" and len(r) == 4 and ev(r[2], x) == at(mem("ranks", call("ask_owners", MESH, ("p", "d"))), at(("p", "n2o"), x)) and ev(r[3], x) == at(ex, at(("p", "n2o"), x))
            o.want(ok, "owner", "an entity that stays is owned by %s" % tshow(r)[:240])


def globals_(P, R):
    f = fn1(P, "modify_globals", 11)
    N = ("p", "new")
    for md in (1, 2, 3):
        for e in range(md + 1):
            for have in [(m,) for m in range(md + 1)] + [tuple(range(1, md + 1))]:
                o = Ob(R, f, "modify_globals|%d|%d|%s" % (md, e, ",".join(map(str, have))))
                calls = []
                K, r = kern(P, f, [MESH, N, c(e), ("p", "keep"), lst("mds", have), lst("prods", have)] + [("p", x) for x in ("p2n", "so", "sn")] + [lst("reps", have), ("p", "cnt")], md, calls=calls)
                D = call("copies_to_linear_owners", call("comm", MESH), call("globals", MESH, c(e)))
                scan = call("rescan_globals", MESH, call("exch_reduce", D, ("p", "cnt"), c(1), c(2)))
                an = [a for nm, q, ob, a in calls if nm == "assign_new_numbering"]
                tags = [a for nm, q, ob, a in calls if nm == "add_tag" and ob == N]
                if not o.want(len(an) == 1 and len(tags) == 1 and tags[0][0] == c(e) and "global" in p22.leafstr(tags[0][1]) and tags[0][2] == c(1), "tag", "global numbers are not set once"):
                    continue
                a = an[0]
                o.want(strip_names(a[0]) == call("exch", call("invert", D), scan, c(1)), "scan", "global numbers come from %s" % tshow(a[0])[:200])
                od = few(K, a[5])
                for m in range(4):
                    if m in have and m > e:
                        ok = od[m][:2] == ("call", "get_array<>") or od[m][:2] == ("call", "get_array")
                        ok = ok and od[m][2:4] == (MESH, c(m))
                        o.want(ok, "order|%d" % m, "the order of products of dimension %d is %s" % (m, tshow(od[m])[:120]))
                        o.want(ok and contains(od[m], lambda y: y == call("hypercube_singular_name", c(e))), "order|%d" % m, "the order of products of dimension %d is %s" % (m, tshow(od[m])[:120]))
                    else:
                        o.want(contains(od[m], lambda y: y[:1] == ("undef",)), "order|%d" % m, "products of dimension %d have an order" % m)
                t = ("call", "assign_new_numbering") + a
                o.want(a[1:5] == (("p", "so"), lst("mds", have), lst("reps", have), lst("prods", have)) and a[8] == ("p", "keep"), "args", "global numbers are assigned for other entities")
                new = tags[0][3]
                o.want(new[0] == "alloc" and new[2] == call("nents", N, c(e)), "size", "there are global numbers for %s" % tshow(new)[:100])
                into(calls, K, o, new, [(("out", 6, t), ("p", "sn"), c(1)), (("out", 7, t), ("p", "p2n"), c(1))], "globals")
    for f in P.fn("Omega_h::rescan_globals"):
        if f.body:
            o = Ob(R, f, "rescan_globals(%s)" % short(f.params[1]["t"]))
            K, r = kern(P, f, [MESH, ("p", "cnt")], 3)
            i = ("i", call("size", ("p", "cnt")), 0)
            st = stored(K, r)
            sc = [x for x in subterms(st[0].data[2]) if x[:3] == ("call", "offset_scan", ("p", "cnt"))] if st else []
            ok = sc and r[2] == i[1] and len(st) == 1 and st[0].data[1] == i and not st[0].pc and st[0].data[2] == add(at(sc[0], i), call("exscan", call("comm", MESH), call("last", sc[0]), c(2)))
            o.want(ok, "number", "entities are numbered %s" % (tshow(st[0].data[2])[:200] if st else "?"))
    f = fn1(P, "globals_from_owners", 2)
    o = Ob(R, f, "globals_from_owners")
    K, r = kern(P, f, [MESH, ("p", "d")], 3)
    sh = call("could_be_shared", MESH, ("p", "d"))
    for pc, x in p21.leaves(r):
        n = call("nents", MESH, ("p", "d"))
        if pc == p21._K.asbool(sh):
            o.want(x == call("sync_array", MESH, ("p", "d"), call("rescan_globals", MESH, call("owned", MESH, ("p", "d"))), c(1)), "shared", "entities that may be shared are numbered %s" % tshow(x)[:160])
        else:
            o.want(pc == neg_deep(p21._K.asbool(sh)) and x[0] == "new" and x[2:5] == (n, call("exscan", call("comm", MESH), n, c(2)), c(1)), "alone", "entities that cannot be shared are numbered %s" % tshow(x)[:160])


def strip_names(t):
    return plain(t)


def derefine(P, R):
    f = fn1(P, "amr::derefine", 3)
    for md in (2, 3):
        o = Ob(R, f, "derefine|%d" % md)
        calls = []
        K, r = kern(P, f, [MESH, ("p", "marks"), ("p", "x")], md, calls=calls)
        st = {a[0]: a for nm, q, ob, a in calls if nm == "set_tag" and "global" in p22.leafstr(a[1])}
        um = [a for nm, q, ob, a in calls if nm == "unmap_mesh"]
        o.want(len(um) == 1 and len(st) == md + 1, "all", "%d dimensions of %d are renumbered" % (len(st), md + 1))
        for d in range(md + 1):
            if c(d) not in st:
                continue
            v = st[c(d)][2]
            x = ("p", "x")
            sc = [y for y in subterms(v) if y[:2] == ("call", "rescan_globals")]
            if not o.want(len(sc) == 1, "scan|%d" % d, "global numbers of dimension %d are %s" % (d, tshow(v)[:160])):
                continue
            cnt = sc[0][3]
            own = call("owned", MESH, c(d))
            others = [y for y in subterms(cnt) if y == own]
            land = cnt[:2] == ("call", "land_each") and own in cnt[2:4]
            o.want(land, "owned|%d" % d, "the entities of dimension %d that are counted, %s, are not those owned: copies of an entity get numbers of their own" % (d, tshow(cnt)[:120]))
            o.want(contains(v, lambda y: y[:4] == call("sync_array", MESH, c(d), sc[0])[:4] and y[4] == sc[0]), "sync|%d" % d, "copies of an entity of dimension %d do not get the number of their owner" % d)
            kept = K.sel(um[0][1], c(d)) if um else None
            o.want(kept is not None and v[:3] == ("call", "unmap", kept), "kept|%d" % d, "global numbers of dimension %d are set for other entities than those kept" % d)
            if kept is not None and d < md:
                o.want(contains(kept, lambda y: y[:2] in (("call", "reduce_array"), ("call", "sync_array"))), "owner",
                       "whether an entity of dimension %d persists is decided by each rank alone: a copy can outlive its owner" % d)


def check(P):
    R = Result()
    p22.TAB = p21.TAB = Tab(P)
    first = reps(P, R)
    counts(P, R)
    order(P, R, first)
    numbers(P, R)
    partition(P, R)
    feeds(P, R, first)
    conn(P, R)
    owners(P, R)
    globals_(P, R)
    derefine(P, R)
    return R
