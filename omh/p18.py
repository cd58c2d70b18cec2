"""P18: derived adjacencies and alignment codes describe the mesh."""
import itertools
from .core import *
from .kern import *
from .kern import Kern, isc, add, mul
from .spec import Spec, Norm, Canon, OPAQUE, deep
from .conc import Conc, Unknown
from .p17 import SPECS as ARRAYS
from .p21 import c
from .cav import Tab
from . import p11
from .witness import compile_asserts, where as at

LEVEL = "other"
RULE = ("Each derivation in Omega_h_adj.cpp is reduced to a normal form of its results and compared with its definition; where alignment codes are "
        "computed or used, the normal form is evaluated for every code, every order of the vertices and every template entry.")
ASSUMPTIONS = ["the element templates are right (P10) and array operations compute what their names state (P17)",
               "two entities have the same vertices only if they are the same entity"]
TRUSTED = ["omh/kern.py: kernels run serially in index order", "the definitions in omh/p18.py"]
FILES = re.compile(r"Omega_h_(adj|align|graph|amr|mesh)\.(c|h)pp$")
CODES = {"make_code", "code_is_flipped", "code_rotation", "code_which_down"}
NAMES = {"sort_by_high_index", "find_matches", "find_matches_ex", "eval", "get_codes_to_canonical", "align_ev2v", "find_canonical_jumps",
         "find_unique_deg", "form_uses", "invert_adj", "transit", "filter_parents", "invert_parents", "reflect_down", "mark_exposed_sides",
         "elements_across_sides", "verts_across_edges", "edges_across_tris", "edges_across_tets", "add_edges", "ask_adj", "nents", "dim", "family",
         "code_parent_dim", "code_which_child", "element_degree", "element_down_template", "element_up_template", "simplex_opposite_template", "has_adj",
         "unmap_adjacency", "get_adj", "add_adj", "derive_adj"}
BY_DEGREE = {"find_matches_ex"}
WRITES = {"sort_by_high_index": (1, 2)}

SPECS = """
unmap_adjacency | a2b g             | Adj(S, E, C) where S = offset_scan(unmap(a2b,get_degrees(g.a2ab),1)), E = new(last(S)), C = new(last(S)) | a<size(a2b), S[a]<=k<S[a+1] | E @ k = g.ab2b[g.a2ab[a2b[a]]+k-S[a]] ; a<size(a2b), S[a]<=k<S[a+1] | C @ k = g.codes[g.a2ab[a2b[a]]+k-S[a]]
find_canonical_jumps | deg v o      | new(size(o), 0)       | e<max(0,size(o)-1) if any(v[o[e]*deg+j] != v[o[e+1]*deg+j] for j in range(0,deg)) | e = 1 ; if size(o) != 0 | size(o)-1 = 1
~aligned        | deg v             | align_ev2v(deg, v, get_codes_to_canonical(deg,v))
~order          | deg v             | sort_by_keys(aligned(deg,v), deg)
find_unique_deg | deg v             | unmap(compound_maps(collect_marked(find_canonical_jumps(deg, aligned(deg,v), order(deg,v))), order(deg,v)), v, deg)
find_unique     | v fam hi lo       | find_unique_deg(element_degree(fam,lo,0), form_uses(v,fam,hi,lo))
form_uses       | v fam hi lo       | new(N*L*V) where H = element_degree(fam,hi,0), V = element_degree(fam,lo,0), L = element_degree(fam,hi,lo), N = ratio(size(v),H) | h<N, u<L, j<V | (h*L+u)*V+j = v[h*H+element_down_template(fam,hi,lo,u,j)]
separate_upward_with_codes | n o w h d k | void             | i<n | h @ i = o[i]//w ; i<n | k @ i = make_code(code_is_flipped(d[o[i]]), code_rotation(d[o[i]]), o[i]%w)
separate_upward_no_codes | n o w h k | void                 | i<n | h @ i = o[i]//w ; i<n | k @ i = make_code(False, 0, o[i]%w)
invert_adj      | d w n hi lo       | Adj(I.a2ab, H, C) where I = invert_map_by_atomics(d.ab2b, n), O = I.ab2b, H = new(size(O)), C = new(size(O)) | i<size(O) | H @ i = O[i]//w ; | H @ all = sort_by_high_index(I.a2ab,1) ; i<size(O) | C @ i = make_code(code_is_flipped(d.codes[O[i]]), code_rotation(d.codes[O[i]]), O[i]%w) if exists(d.codes) else make_code(False,0,O[i]%w) ; | C @ all = sort_by_high_index(I.a2ab,2)
filter_parents  | p k               | new(size(p.parent_idx)) | i<size(p.parent_idx) | i = (code_parent_dim(p.codes[i]) == k)
invert_parents  | p k n             | Children(I.a2ab, H, C) where K = collect_marked(filter_parents(p,k)), I = invert_map_by_atomics(unmap(K,p.parent_idx,1), n), H = unmap(I.ab2b,K,1), C = unmap(unmap(I.ab2b,K,1),p.codes,1)
verts_across_edges | e2v v2e        | Adj(v2e.a2ab, new(size(v2e.ab2b))) | i<size(v2e.ab2b) | i = e2v.ab2b[v2e.ab2b[i]*2+1-code_which_down(v2e.codes[i])]
edges_across_tris | f2e e2f         | Adj(S, new(last(S))) where S = offset_scan(multiply_each_by(get_degrees(e2f.a2ab),2)) | e<size(e2f.a2ab)-1, k<e2f.a2ab[e+1]-e2f.a2ab[e] | S[e]+k*2 = f2e.ab2b[e2f.ab2b[e2f.a2ab[e]+k]*3+(code_which_down(e2f.codes[e2f.a2ab[e]+k])+1)%3] ; e<size(e2f.a2ab)-1, k<e2f.a2ab[e+1]-e2f.a2ab[e] | S[e]+k*2+1 = f2e.ab2b[e2f.ab2b[e2f.a2ab[e]+k]*3+(code_which_down(e2f.codes[e2f.a2ab[e]+k])+2)%3]
edges_across_tets | r2e e2r         | Adj(e2r.a2ab, new(size(e2r.ab2b))) | e<size(e2r.a2ab)-1, e2r.a2ab[e]<=k<e2r.a2ab[e+1] | k = r2e.ab2b[e2r.ab2b[k]*6+simplex_opposite_template(3,1,code_which_down(e2r.codes[k]))]
find_matches    | fam d a b v _ _   | void
find_matches_ex | deg f a b v ao co dup | outs(M, C) where M = new(size(f)), C = new(size(f)) | i<size(f), v.a2ab[f[i]]<=k<v.a2ab[f[i]+1] if eval(a, i*deg, b, v.ab2b[k]*deg, code_which_down(v.codes[k]), undefb) | M @ i = v.ab2b[k] ; i<size(f), v.a2ab[f[i]]<=k<v.a2ab[f[i]+1] if eval(a, i*deg, b, v.ab2b[k]*deg, code_which_down(v.codes[k]), undefb) | C @ i = out(5, eval(a, i*deg, b, v.ab2b[k]*deg, code_which_down(v.codes[k]), undefb))
elements_across_sides | fam dim d u x | Graph(S, E) where Q = element_degree(fam,dim,dim-1), N = ratio(size(d.ab2b),Q), D = new(N), S = offset_scan(D), E = new(last(S)) | e<N | D @ e = sum((0 if x[d.ab2b[s]] else 1) for s in range(e*Q,e*Q+Q)) ; e<N, e*Q<=s<e*Q+Q if not x[d.ab2b[s]] | E @ S[e]+sum((0 if x[d.ab2b[r]] else 1) for r in range(e*Q,s)) = u.ab2b[u.a2ab[d.ab2b[s]]+1] if u.ab2b[u.a2ab[d.ab2b[s]]] == e else u.ab2b[u.a2ab[d.ab2b[s]]]
"""


class AdjNorm(Norm):
    dim = None

    def hook(self, K, n, nm, q, o, a):
        if nm == "dim" and o == ("this",) and not a and self.dim is not None:
            return c(self.dim)
        if nm in WRITES:
            for i in WRITES[nm]:
                rest = [x for j, x in enumerate(a) if j not in WRITES[nm]]
                K.events.append(Event("store", (a[i], ("all",), ("call", nm) + tuple(rest) + (c(i),)), list(K.pc), list(K.binders), n, K.fn))
            return ("void",)
        return super().hook(K, n, nm, q, o, a)


def one(P, name, npar, inl=None):
    fs = [f for f in P.fns if f.name == name and f.body and len(f.params) == npar and FILES.search(f.file)]
    if not fs:
        raise Broken("no function %s with %d parameters" % (name, npar))
    return fs


def entries(C, A, i):
    """The stores an array gets from item i, as (condition, index, value) with the item's number put in."""
    out = []
    for rs, cond, ix, v in A[3]:
        xs = [("x", k) for k in range(len(rs))]
        if not rs:
            raise Unknown("store outside the loop over entities")
        lo = [Conc()(r[1]) if isc(r[1]) else None for r in rs[1:]]
        hi = [Conc()(r[2]) if isc(r[2]) else None for r in rs[1:]]
        if None in lo or None in hi:
            raise Unknown("loop without constant bounds")
        for k in itertools.product(*[range(a, b) for a, b in zip(lo, hi)]):
            f = lambda t: subst(t, lambda y: c(i) if y == xs[0] else c(k[y[1] - 1]) if y in xs else None)
            out.append((f(cond), f(ix), f(v)))
    return out


def runs(P, N, f, args):
    """Stores of the kernels run by f, in order: (array, binders, conditions, index, value)."""
    K = Kern(P, inline=lambda g: bool(FILES.search(g.file) or g.file.endswith(("Omega_h_element.hpp", "Omega_h_simplex.hpp", "Omega_h_hypercube.hpp", "Omega_h_scalar.hpp"))) and g.name != "divide_no_remainder", hook=N.hook)
    r = K.run(f, args)
    return K, r


def align(deg, code, v):
    """What an alignment code does to a list of vertices."""
    out = [None] * deg
    for j in range(deg):
        out[(j + (code >> 1 & 3)) % deg] = v[j]
    if code & 1:
        out[1:] = out[:0:-1]
    return tuple(out)


def codes_of(deg):
    return [f | r << 1 for f in ((0, 1) if deg > 2 else (0,)) for r in range(deg)]


def canonical(P, N, R):
    """The code of an entity brings its vertices into the one order all copies share."""
    for f in one(P, "get_codes_to_canonical", 2):
        for deg in (2, 3, 4):
            key, where = "canonical|%s|%d" % (f.params[1]["t"].split("<")[-1].rstrip("> "), deg), "%s:%d" % (f.file, f.line)
            K, r = runs(P, N, f, [c(deg), ("p", "v")])
            st = [e for e in K.events if e.kind == "store" and e.data[0] == r]
            R.count("functions analysed")
            if len(st) != 1 or st[0].pc or len(st[0].binders) != 1 or Canon(K)(st[0].binders[0][1]) != ("call", "divide_no_remainder", ("call", "size", ("p", "v")), c(deg)):
                R.bad("codes", key, where, "not every entity of %d vertices gets one code" % deg)
                continue
            i = st[0].binders[0]
            for v in itertools.permutations(range(deg)):
                R.count("obligations")
                E = Conc({i: 1}, {("p", "v"): lambda k: dict(zip(range(deg, 2 * deg), v))[k]})
                try:
                    code, at = E(st[0].data[2]), E(st[0].data[1])
                except (Unknown, KeyError) as x:
                    R.bad("codes", key, where, "the code of an entity depends on more than its own vertices (%s)" % x)
                    break
                got = align(deg, code, v)
                if at != 1 or code >> 3 or got[0] != 0 or deg > 2 and got[1] > got[-1]:
                    R.bad("codes", key, where, "an entity with vertices in the order %s gets code %d, which brings them to %s" % (v, code, got))
                    break


def aligned(P, N, R):
    for f in one(P, "align_ev2v", 3):
        for deg in (2, 3, 4):
            key, where = "align|%s|%d" % (f.params[1]["t"].split("<")[-1].rstrip("> "), deg), "%s:%d" % (f.file, f.line)
            K, r = runs(P, N, f, [c(deg), ("p", "v"), ("p", "codes")])
            st = [e for e in K.events if e.kind == "store"]
            R.count("functions analysed")
            if {e.data[0] for e in st} != {r} or len({e.binders[0] for e in st}) != 1 or any(len(e.binders) != 1 for e in st) or Canon(K)(st[0].binders[0][1]) != ("call", "size", ("p", "codes")):
                R.bad("codes", key, where, "not every entity is aligned")
                continue
            i = st[0].binders[0]
            for code in codes_of(deg):
                R.count("obligations")
                out = {}
                E = Conc({i: 1}, {("p", "v"): lambda k: {deg + j: j for j in range(deg)}[k], ("p", "codes"): {1: code}.__getitem__, r: out.__getitem__})
                try:
                    seq(E, st, out)
                except (Unknown, KeyError) as x:
                    R.bad("codes", key, where, "aligning uses more than the entity's own vertices (%s)" % x)
                    break
                if [out.get(deg + j) for j in range(deg)] != list(align(deg, code, range(deg))) or len(out) != deg:
                    R.bad("codes", key, where, "code %d of %d vertices is applied wrongly" % (code, deg))
                    break


def seq(E, st, out):
    """Stores in order; a swap reads both values before it writes them (its events carry the old values)."""
    k = 0
    while k < len(st):
        n = k
        grp = []
        while n < len(st) and st[n].pc == st[k].pc and st[n].data[2][:2] == ("at", st[n].data[0]):
            grp.append(st[n])
            n += 1
        grp = grp or [st[k]]
        if all(E(p) for p in grp[0].pc):
            vals = [(E(e.data[1]), E(e.data[2])) for e in grp]
            for a, b in vals:
                out[a] = b
        k += len(grp)


def sorting(P, N, R):
    """Each fan is sorted by the entities in it, codes along with them (when it is done by selection)."""
    for f in one(P, "sort_by_high_index", 3):
        key, where = "sort", "%s:%d" % (f.file, f.line)
        K, r = runs(P, N, f, [("p", "o"), ("p", "h"), ("p", "k")])
        st = [e for e in K.events if e.kind == "store"]
        R.count("functions analysed")
        if len({tuple(e.binders) for e in st}) != 1 or any(e.pc or len(e.binders) != 2 for e in st) or any(e.data[2][:2] != ("at", e.data[0]) for e in st):
            R.count("not decided")
            continue
        i, j = st[0].binders
        C = Canon(K)
        if C(i[1]) != add(("call", "size", ("p", "o")), c(-1)) or not j[:1] == ("bv",):
            R.bad("codes", key, where, "not every fan is sorted")
            continue
        n = 4
        for h in itertools.permutations(range(n)):
            for at in range(n):
                R.count("obligations")
                # what the steps before leave: the lowest ones in front
                v = sorted(h)[:at] + [x for x in h if x not in sorted(h)[:at]]
                E = Conc({i: 0, j: 10 + at}, {("p", "o"): {0: 10, 1: 10 + n}.__getitem__, ("p", "h"): {10 + k: v[k] for k in range(n)}.__getitem__,
                                              ("p", "k"): {10 + k: v[k] + 50 for k in range(n)}.__getitem__}, loops=K.loops)
                try:
                    lo, hi = E(j[1]), E(j[2])
                    new = {("p", "h"): {}, ("p", "k"): {}}
                    for e in st:
                        new[e.data[0]][E(e.data[1])] = E(e.data[2])
                except (Unknown, KeyError):
                    lo = hi = None
                low = 10 + v.index(at)
                full = lambda p, z: all(new[("p", p)].get(10 + k, v[k] + z) == (v[at if 10 + k == low else low - 10 if k == at else k]) + z for k in range(n))
                if lo != 10 or hi not in (10 + n, 9 + n) or not full("h", 0) or not full("k", 50):
                    R.bad("codes", key, where, "sorting of the entities around another one does not bring the lowest of the rest to its place, with its code")
                    return


def transits(P, N, R):
    """An entity's boundary found through the next dimension is its boundary: for every template entry and all alignments on the way."""
    T = Tab(P)
    for f in one(P, "transit", 5):
        for fam, hi, lo in itertools.product((0, 1), (2, 3), (0, 1)):
            mid = lo + 1
            if mid >= hi:
                continue
            key, where = "transit|%s|%d|%d" % ("hypercube" if fam else "simplex", hi, lo), "%s:%d" % (f.file, f.line)
            deg = lambda a, b: T.val("element_degree", fam, a, b)
            down = lambda a, b, k: tuple(T.val("element_down_template", fam, a, b, k, j) for j in range(deg(b, 0) if b else 1)) if b else (k,)
            K, r = runs(P, N, f, [("p", "h2m"), ("p", "m2l"), c(fam), c(hi), c(lo)])
            R.count("functions analysed")
            if r[0] == "alloc":
                r = ("new", "Adj", r)
            if r[:2] != ("new", "Adj") or len(r) != (4 if lo else 3):
                R.bad("codes", key, where, "result is not an adjacency%s" % (" with codes" if lo else ""))
                continue
            nm, nl, nh = deg(hi, mid), deg(mid, lo), deg(hi, lo)
            size = mul(c(nh), ("call", "divide_no_remainder", ("call", "size", ("mem", "ab2b", ("p", "h2m"))), c(nm)))
            C = Canon(K)
            ok = True
            for which, arr in enumerate(r[2:]):
                st = [e for e in K.events if e.kind == "store" and e.data[0] == arr]
                bs = {e.binders[0] for e in st if e.binders}
                if len(st) != nh or len(bs) != 1 or any(len(e.binders) != 1 or e.pc for e in st) or mul(c(nh), C(list(bs)[0][1])) != size:
                    ok = False
                    R.bad("codes", key, where, "not every entity gets its %d boundary entities%s" % (nh, " codes" if which else ""))
                    break
            if not ok:
                continue
            h = list(bs)[0]
            for hl in range(nh):
                want = down(hi, lo, hl)
                for code in codes_of(deg(mid, 0)):
                    for ecode in ((0, 2) if lo else (0,)):
                        R.count("obligations")
                        mem_ = lambda n, a: ("mem", n, ("p", a))
                        used = []

                        def edge(k):
                            used.append(((k // nl) - 20, k % nl))
                            return 1000 + k
                        E = Conc({h: 1}, {mem_("ab2b", "h2m"): {nm + j: 20 + j for j in range(nm)}.__getitem__, mem_("codes", "h2m"): {nm + j: code for j in range(nm)}.__getitem__,
                                          mem_("ab2b", "m2l"): {20 * nl + k: edge(20 * nl + k) for k in range(nm * nl)}.__getitem__, mem_("codes", "m2l"): {20 * nl + k: ecode for k in range(nm * nl)}.__getitem__})
                        try:
                            out = []
                            for arr in r[2:]:
                                v = {}
                                for e in K.events:
                                    if e.kind == "store" and e.data[0] == arr:
                                        v[E(e.data[1])] = E(e.data[2])
                                out.append(v[nh + hl])
                        except (Unknown, KeyError) as x:
                            ok = False
                            R.bad("codes", key, where, "boundary entity %d is taken from outside the entity (%s)" % (hl, x))
                            break
                        k = out[0] - 1000 - 20 * nl
                        hm, ml = k // nl, k % nl
                        F = [v for v in itertools.permutations(down(hi, mid, hm)) if align(deg(mid, 0), code, v) == down(hi, mid, hm)][0]
                        mine = tuple(F[j] for j in down(mid, lo, ml))
                        if lo:
                            own = [v for v in (mine, mine[::-1]) if align(2, ecode, v) == mine][0]
                            if set(mine) == set(want) and align(2, out[1], own) == want and out[1] in (0, 2):
                                continue
                        elif mine == want:
                            continue
                        ok = False
                        R.bad("codes", key, where, "boundary entity %d with vertices %s of an entity is found as %s with code %s (alignment of the entity between: %d)" % (hl, want, mine, out[1:], code))
                        break
                    if not ok:
                        break
                if not ok:
                    break


def asked(P, S, R):
    """Which derivation each request is answered with, for every dimension."""
    N = AdjNorm(P, S, re.compile(r"Omega_h_mesh\.(c|h)pp$"), OPAQUE | CODES | NAMES)
    THIS = ("this",)
    plain = lambda t: Canon()(deep(t, lambda y: ("call", "family", THIS) if y == ("mem", "family_", THIS) else ("call", "nents", THIS, y[3]) if y[:2] == ("call", "nents") and len(y) == 4 else None))
    call = lambda n, *a: ("call", n) + a
    A = lambda f, t: call("ask_adj", THIS, c(f), c(t))
    fam = call("family", THIS)
    fs = [f for f in P.fn("Omega_h::Mesh::derive_adj") if f.body]
    if not fs:
        raise Broken("no Mesh::derive_adj")
    f = fs[0]
    where = "%s:%d" % (f.file, f.line)
    R.count("functions analysed")
    for dim in (1, 2, 3):
        N.dim = dim
        for x, y in itertools.product(range(dim + 1), repeat=2):
            K, r = N.run(f, [c(x), c(y)])
            r = plain(Canon(K)(r))
            if x < y:
                want = call("invert_adj", A(y, x), call("element_degree", fam, c(y), c(x)), call("nents", THIS, c(x)), c(y), c(x))
            elif x > y + 1:
                want = call("transit", A(x, y + 1), A(y + 1, y), fam, c(x), c(y))
            elif x == y == dim:
                want = call("elements_across_sides", fam, c(dim), A(dim, dim - 1), A(dim - 1, dim), call("mark_exposed_sides", THIS))
            elif x == y == 0:
                want = call("verts_across_edges", A(1, 0), A(0, 1))
            elif x == y == 1:
                want = call("edges_across_tris", A(2, 1), A(1, 2))
                if dim == 3:
                    want = call("add_edges", want, call("edges_across_tets", A(3, 1), A(1, 3)))
            else:
                want = None
            R.count("obligations")
            if want is None:
                if not any(e.kind == "fail" and not e.pc for e in K.events):
                    R.bad("codes", "derive|%d|%d|%d" % (dim, x, y), where, "an adjacency from dimension %d to %d that cannot be derived is not refused" % (x, y))
            elif r != want:
                R.bad("codes", "derive|%d|%d|%d" % (dim, x, y), where, "in %d dimensions the adjacency from %d to %d is derived as %s, not %s" % (dim, x, y, tshow(r)[:200], tshow(want)[:200]))
    N.dim = None
    p, d = (lambda n: ("p", n)), call("dim", THIS)
    adj = lambda a, b: call("ask_adj", THIS, a, b)
    for name, want in (("ask_down", lambda f, t: adj(f, t)), ("ask_up", lambda f, t: adj(f, t)), ("ask_star", lambda f: adj(f, f)), ("ask_dual", lambda: adj(d, d)),
                       ("ask_verts_of", lambda f: ("mem", "ab2b", adj(f, c(0)))), ("ask_elem_verts", lambda: ("mem", "ab2b", adj(d, c(0)))),
                       ("ask_adj", lambda f, t: ite(call("has_adj", THIS, f, t), call("get_adj", THIS, f, t), call("derive_adj", THIS, f, t)))):
        fs = [f for f in P.fn("Omega_h::Mesh::" + name) if f.body]
        if not fs:
            raise Broken("no Mesh::" + name)
        args = [p(x["n"]) for x in fs[0].params]
        K, r = N.run(fs[0], args)
        R.count("functions analysed")
        R.count("obligations")
        if plain(Canon(K)(r)) != Canon()(want(*args)):
            R.bad("codes", "ask|" + name, "%s:%d" % (fs[0].file, fs[0].line), "%s answers %s" % (name, tshow(plain(Canon(K)(r)))[:200]))


def witnesses(R):
    """The algebra of codes itself: one witness per code and vertex."""
    A = [a for a in p11.obligations() if a[1][1] in (p11.AL, p11.AD)]
    R.count("obligations", len(A))
    for e, (fn, file), t in compile_asserts("p11.hpp", A, prelude=p11.PRE):
        R.bad("codes", "algebra|%s|%s" % (fn, e), at(fn, file), "%s: not true that %s  [%s]" % (fn, t, e))


def check(P):
    R = Result()
    S = Spec(SPECS, OPAQUE | CODES | NAMES)
    N = AdjNorm(P, S, FILES, OPAQUE | CODES | NAMES)
    N.limits = {n: {"code_which_down": k} for n, k in (("verts_across_edges", 2), ("edges_across_tris", 3), ("edges_across_tets", 6))}
    for s in S.all:
        if s.helper:
            continue
        fs = N.find(s)
        if not fs:
            raise Broken("no function %s(%s)" % (s.name, " ".join(s.params)))
        for f in fs:
            R.count("functions analysed")
            for fx in ([{"deg": c(k)} for k in (2, 3, 4)] if s.name in BY_DEGREE else [{}]):
                N.compare(R, s, f, "derivation", fx)
    canonical(P, N, R)
    aligned(P, N, R)
    transits(P, N, R)
    sorting(P, N, R)
    asked(P, S, R)
    witnesses(R)
    return R
