"""Layout of .osh files: the writer, the reader and the published versions agree byte for byte."""
import json, os
from .core import *
from .iox import *

LEVEL = "other"
RULE = ("The stream layout (bytes, loops, branches, with the provenance of every count) of the writer and of the reader is "
        "extracted by partial evaluation for each element type and byte order; writer and reader must agree token by token, each "
        "value must be stored where it came from, multi-byte values must be swapped on both sides or neither, and the reader's "
        "layout for every published version must be the recorded one.")
ASSUMPTIONS = ["std::istream::read / std::ostream::write transfer the bytes they are given (stream failures are P07's subject)",
               "zlib's uncompress inverts compress2"]
TYPES = [("signed char", 0), ("int", 2), ("long", 3), ("double", 5)]
WIDTH = {"signed char": 1, "unsigned char": 1, "char": 1, "bool": 1, "short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8,
         "double": 8, "float": 4, "long long": 8, "I8": 1, "I32": 4, "I64": 8, "Real": 8}
LAYOUTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "witness", "osh_layouts.json")

# where a value comes from -> where the reader has to put it
SOURCES = {"family": "set_family:1", "dim": "set_dim:1", "size": "check:size", "rank": "check:rank", "parting": "set_parting:1",
           "nghost_layers": "set_parting:2", "nverts": "set_verts:1", "name": "add_tag:2", "ncomps": "add_tag:3", "array": "add_tag:4"}
SETTERS = set(SOURCES.values())


def anchors(P):
    W = [f for f in P.fn("Omega_h::binary::write") if any("basic_ostream" in p["t"] for p in f.params) and any("Mesh" in p["t"] for p in f.params)]
    R = [f for f in P.fn("Omega_h::binary::read") if any("basic_istream" in p["t"] for p in f.params) and any("Mesh" in p["t"] for p in f.params)]
    if len(W) != 1 or len(R) != 1:
        raise Broken("stream reader/writer of .osh files not found")
    return W[0], R[0]


def writer(P, W, T, le):
    def fold(t):
        if t[0] == "f" and t[1] == "is_little_endian_cpu":
            return le
        if t[0] == "f" and t[1].startswith("is<"):
            return t[1] == "is<%s>" % T[0]
        if t[0] == "f" and t[1] == "type" and len(t) == 3:
            return T[1]
        return None
    w = IOX(P, fold)
    w.ev = w.run(W)
    w.tok = {}
    for e in tokens(w.ev):
        w.tok[e[1]] = e
    return w


def reader(P, Rf, T, le, version, consts, typetok=None):
    """consts: token -> constant the writer puts there.  Tokens compared with element-type codes are
    taken to hold the code of T; they are found by evaluating again until none is left undecided."""
    i = [j for j, p in enumerate(Rf.params) if p["t"] in ("int", "I32", "Omega_h::I32")]
    if len(i) != 1:
        raise Broken("version parameter of the .osh reader not found")
    types = set(typetok or ())
    while True:
        def fold(t):
            if t[0] == "f" and t[1] == "is_little_endian_cpu":
                return le
            u = unsw(t)
            if u[0] == "in" and u[1] in consts:
                return consts[u[1]]
            if u[0] == "in" and u[1] in types:
                return T[1]
            return None
        r = IOX(P, fold)
        r.ev = r.run(Rf, {i[0]: ("c", version)})
        new = r.enumcmp - types
        if not new:
            return r
        types.add(min(new))


def tokens(ev):
    for e in ev:
        if e[0] == "raw":
            yield e
        elif e[0] == "loop":
            yield from tokens(e[3])
        elif e[0] == "if":
            yield from tokens(e[2])
            yield from tokens(e[3])
        elif e[0] == "switch":
            for a in e[2]:
                yield from tokens(a)


def norm(t, w, swaps=True):
    """Replace values that were written earlier by the token they were written in."""
    if not isinstance(t, tuple) or not t:
        return t
    if w is not None:
        u = unsw(t)
        if u in w and u[0] not in ("c", "lv"):
            return ("in", w[u])
    if t[0] == "sw":
        return norm(t[2], w)
    if t[0] == "f" and t[1] == "size" and len(t) == 3:
        pass
    r = tuple(norm(x, w) if isinstance(x, tuple) else x for x in t)
    if r[0] == "b" and len(r) == 4 and r[1] in ("<", "<=", "!=") and r[2][0] == "lv":
        if r[1] == "!=":
            r = ("b", "<", r[2], r[3])
        if r[1] == "<" and r[3][0] == "b" and r[3][1] == "+" and ("c", 1) in r[3][2:]:
            o = [x for x in r[3][2:] if x != ("c", 1)]
            return ("b", "<=", r[2], o[0] if o else ("c", 2))
    if r[0] == "b" and len(r) == 4 and r[1] == "*" and str(r[2]) > str(r[3]):
        return ("b", "*", r[3], r[2])
    if r[0] == "b" and len(r) == 4 and r[1] in (">", ">="):
        return ("b", {">": "<", ">=": "<="}[r[1]], r[3], r[2])
    return r


def cond_norm(c, w):
    """(condition, negated)"""
    c = norm(c, w)
    neg = False
    while True:
        if c[0] == "u" and c[1] == "!":
            c, neg = c[2], not neg
        elif c[0] == "b" and c[1] == "!=" and ("c", 0) in c[2:]:
            c = c[2] if c[3] == ("c", 0) else c[3]
        elif c[0] == "b" and c[1] == "==" and ("c", 0) in c[2:] and (c[2][0] == "in" or c[3][0] == "in"):
            c, neg = (c[2] if c[3] == ("c", 0) else c[3]), not neg
        else:
            return c, neg


def canon(ev, w=None, num=None):
    """Layout as nested lists without source terms."""
    out = []
    for e in ev:
        if e[0] == "raw":
            out.append(["bytes", tstr(norm(e[2], w))])
        elif e[0] == "loop":
            out.append(["loop", tstr(norm(e[1], w)) if e[1] else "", tstr(norm(e[2], w)), canon(e[3], w), tstr(norm(e[2], None))])
        elif e[0] == "if":
            c, neg = cond_norm(e[1], w)
            a, b = (e[3], e[2]) if neg else (e[2], e[3])
            a, b = canon(a, w), canon(b, w)
            if a or b:
                out.append(["if", tstr(c), a, b, tstr(cond_norm(e[1], None)[0])])
        elif e[0] == "switch":
            out.append(["switch", tstr(norm(e[1], w)), [canon(a, w) for a in e[2]]])
        elif e[0] == "fail":
            out.append(["fail"])
    return out


def diff(a, b, path="", la="writer", lb="reader"):
    for i in range(max(len(a), len(b))):
        at = "%s/%d" % (path, i)
        if i >= len(a):
            return at, "nothing", brief(b[i])
        if i >= len(b):
            return at, brief(a[i]), "nothing"
        x, y = a[i], b[i]
        if x[0] != y[0] or x[1:2] != y[1:2] and x[0] in ("bytes", "switch"):
            return at, brief(x), brief(y)
        if x[0] == "loop":
            if x[1] != y[1] or not ({x[2], x[4]} & {y[2], y[4]}):
                return at, "loop while " + x[2], "loop while " + y[2]
            d = diff(x[3], y[3], at)
            if d:
                return d
        if x[0] == "if":
            if not ({x[1], x[4]} & {y[1], y[4]}):
                return at, "if " + x[1], "if " + y[1]
            d = diff(x[2], y[2], at + "t") or diff(x[3], y[3], at + "e")
            if d:
                return d
    return None


def brief(x):
    if x[0] == "bytes":
        return "%s bytes" % x[1]
    if x[0] in ("loop",):
        return "loop while %s" % x[2]
    return " ".join(str(y) for y in x[:2])


def size_of(t):
    return WIDTH.get(t.replace("const ", "").split("[")[0].strip())


def uses(t, k, sw=None):
    """swap widths under which token k's value is used in a term"""
    out = set()
    if not isinstance(t, tuple):
        return out
    if t and t[0] == "in" and len(t) == 2 and t[1] == k:
        return {sw}
    if t and t[0] == "sw":
        return uses(t[2], k, t[1])
    for x in t:
        if isinstance(x, tuple):
            out |= uses(x, k, sw)
    return out


def all_uses(r):
    """token -> set of swap widths its value is used with"""
    out = {}

    def rec(t, sw):
        if not isinstance(t, tuple):
            return
        if t and t[0] == "in" and len(t) == 2:
            out.setdefault(t[1], set()).add(sw)
            return
        if t and t[0] == "sw":
            rec(t[2], t[1])
            return
        if t and t[0] in ("raw",):
            rec(t[2], sw)
            return
        for x in t:
            if isinstance(x, (tuple, list)):
                rec(tuple(x), sw)
    for nm, o, a in r.effects:
        # the uncompressed bytes are swapped afterwards
        if nm in ("uncompress", "uncompress2", "deep_copy", "parallel_for", "write", "size", "data"):
            continue
        for x in a:
            rec(x, None)
    for e in walk_ev(r.ev):
        if e[0] == "raw":
            rec(e[2], None)
        elif e[0] == "loop":
            rec(e[2], None)
        elif e[0] in ("if", "switch"):
            rec(e[1], None)
    return out


def walk_ev(ev):
    for e in ev:
        yield e
        if e[0] == "loop":
            yield from walk_ev(e[3])
        elif e[0] == "if":
            yield from walk_ev(e[2])
            yield from walk_ev(e[3])
        elif e[0] == "switch":
            for a in e[2]:
                yield from walk_ev(a)


def src_label(t):
    """What a written value is: the last accessor or field."""
    t = unsw(t)
    if t[0] == "zlen":
        return None
    while isinstance(t, tuple) and t and t[0] == "z":
        t = unsw(t[-1])
    if t[0] == "f":
        if t[1] in ("size",) and "comm" not in tstr(t):
            return None
        return t[1]
    if t[0] == "m" and t[1] != "[]":
        return "." + t[1]
    if t[0] == "m":
        return src_label(t[2])
    return None


ARITH = {"+", "-", "*", "/", "%", "&&", "||", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">="}


def derived(t):
    t = unsw(t)
    while t and t[0] == "z":
        t = unsw(t[2])
    if t[0] == "?":
        return len(t) == 4 and not (t[2][0] == t[3][0] == "c")
    return t[0] == "b" and t[1] in ARITH


def dim_arg(t):
    """The entity dimension an accessor of the mesh was given."""
    if not isinstance(t, tuple):
        return None
    if t and t[0] == "f" and t[1] in ("ask_down", "get_tag", "ask_owners", "ask_parents", "get_tagbase", "ntags") and len(t) > 3:
        return t[3]
    for x in t[1:]:
        d = dim_arg(x)
        if d is not None:
            return d
    return None


def dim_sinks(r):
    out = {}

    def toks(t, s):
        if isinstance(t, tuple):
            if t and t[0] == "in" and len(t) == 2:
                s.add(t[1])
            for x in t:
                toks(x, s)
        return s
    for nm, o, a in r.effects:
        if nm in ("add_tag", "set_owners", "set_parents", "set_ents") and len(a) > 1:
            for x in a[1:]:
                for k in toks(x, set()):
                    out.setdefault(k, set()).add((nm, a[0]))
    return out


def sinks(r):
    """token -> labels of the places its value ends in"""
    out = {}

    def rec(t, lab):
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == "in" and len(t) == 2:
            out.setdefault(t[1], set()).add(lab)
            return
        if t[0] == "rec":
            for p, v in t[1:]:
                rec(v, "." + p[-1])
            return
        if t[0] == "f" and t[1] == "size":
            return
        if t[0] == "new":
            return       # a size used to allocate
        for x in t[1:]:
            rec(x, lab)
    for nm, o, a in r.effects:
        if nm == "check":
            c = a[0]
            s = tstr(c)
            lab = "check:rank" if "rank(" in s else "check:size" if "size(comm" in s else None
            if lab:
                rec(c, lab)
            continue
        if nm in ("uncompress", "uncompress2", "deep_copy", "parallel_for", "write", "size", "data", "resize", "reserve"):
            continue
        if nm == "push_back" and o and o[0] == "loc":
            for x in a:
                rec(x, "." + str(o[-1]))
            continue
        for i, x in enumerate(a):
            rec(x, "%s:%d" % (nm, i + 1))
    return out


def check(P):
    R = Result()
    W, Rf = anchors(P)
    lv = [g for g in P.gvars.values() if g["q"] == "Omega_h::binary::latest_version"]
    if not lv or not isinstance((lv[0].get("i") or {}).get("v"), int):
        raise Broken("latest .osh version not found")
    latest = lv[0]["i"]["v"]
    frozen = json.load(open(LAYOUTS))
    R.notes.append("latest version %d; published layouts recorded: %s" % (latest, ", ".join(sorted(frozen["versions"], key=int))))
    zl = None
    for T in TYPES:
        for le in (True, False):
            w = writer(P, W, T, le)
            consts = {k: unsw(e[4])[1] for k, e in w.tok.items() if unsw(e[4])[0] == "c"}
            typetok = {k for k, e in w.tok.items() if unsw(e[4])[0] == "f" and unsw(e[4])[1] == "type"}
            if not typetok:
                raise Broken("element type code not found in the written layout")
            r = reader(P, Rf, T, le, latest, consts, typetok)
            R.count("reader/writer specialisations compared")
            R.count("layout tokens compared", len(w.tok))
            wmap = dict((t, k) for t, k in w.written.items())
            cw, cr = canon(w.ev, wmap), canon(r.ev)
            tag = "%s, %s endian" % (T[0], "little" if le else "big")
            d = diff(cw, cr)
            if d:
                R.bad("layout", "writer-reader|%s" % d[0], W.where(), "for %s the writer puts `%s` where the reader (version %d) expects `%s` (at %s)" % (tag, d[1], latest, d[2], d[0]))
                continue
            swaps(R, w, r, le, tag, W, Rf)
            sk = sinks(r)
            dims = dim_sinks(r)
            rt = {e[1]: e for e in tokens(r.ev)}
            for k, e in w.tok.items():
                if le and derived(e[4]):
                    R.bad("field", "derived|%s" % tstr(unsw(e[4]))[:40], W.where(), "token %d holds `%s`, not the value itself" % (k, tstr(unsw(e[4]))[:100]))
                lab = src_label(e[4])
                if lab is None or le is False:
                    continue
                dw = dim_arg(e[4])
                if dw is not None:
                    for nm, da in dims.get(k, ()):
                        R.count("entity dimensions compared")
                        if norm(da, wmap) != norm(dw, wmap) and norm(da, None) != norm(dw, None):
                            R.bad("field", "dim|%s" % lab, W.where(), "token %d is written from `%s` but the reader passes it to %s for dimension %s" % (k, tstr(unsw(e[4]))[:80], nm, tstr(da)))
                want = lab if lab.startswith(".") else SOURCES.get(lab)
                got = sk.get(k, set())
                R.count("values traced to their destination")
                fields = {g for g in got if g.startswith(".")}
                if lab.startswith("."):
                    conflict = fields and lab not in fields and not lab == ".first"
                    if not conflict and not fields and got & SETTERS:
                        conflict = True
                elif want:
                    wrong = (got & SETTERS) - {want}
                    conflict = wrong and want not in got
                    if not got & {want} and not conflict:
                        conflict = True
                else:
                    conflict = got & SETTERS and lab not in ("type", "operator!=", "has_any_parents", "ntags")
                if conflict:
                    R.bad("field", "%s" % lab, Rf.where(e[5]) if False else Rf.where(), "%s is written at token %d but the reader stores that value in %s" % (tstr(unsw(e[4]))[:80], k, sorted(got) or "nothing"))
    for v in range(1, latest + 1):
        rec = frozen["versions"].get(str(v))
        if rec is None:
            continue
        for T in TYPES:
            for comp in (0, 1):
                got = published(P, Rf, T, v, comp)
                R.count("published layouts checked")
                d = diff(rec["%s,%d" % (T[0], comp)], got)
                if d:
                    R.bad("version", "%d|%s" % (v, d[0]), Rf.where(), "files of version %d hold `%s` where the reader expects `%s` (at %s)" % (v, d[1], d[2], d[0]))
    if latest < frozen["latest"]:
        R.bad("version", "latest", "src/Omega_h_file.hpp", "latest version %d is older than the published %d" % (latest, frozen["latest"]))
    names(P, R, W, Rf)
    R.need("layout tokens compared", 100)
    return R


def published(P, Rf, T, version, comp):
    """Layout the reader expects in a file of the given version; until version 3 the version
    itself is stored in the file, after the two magic bytes."""
    inside = version < 4
    consts = {1: version, 2: comp} if inside else {1: comp}
    r = reader(P, Rf, T, True, -1 if inside else version, consts, None)
    return canon(r.ev)


def swaps(R, w, r, le, tag, W, Rf):
    us = all_uses(r)
    for k, e in w.tok.items():
        t = e[4]
        z = t[0] == "z"
        inner = t[2] if z else t
        et = t[1] if z else e[3]
        width = size_of(et)
        R.count("byte order obligations")
        bits = inner[1] if inner[0] == "sw" else None
        if le:
            if bits is not None:
                R.bad("swap", "w-le|%d" % k, W.where(), "token %d (%s) is byte-swapped on a little-endian machine" % (k, tstr(t)[:60]))
            if us.get(k, set()) - {None}:
                R.bad("swap", "r-le|%d" % k, Rf.where(), "token %d is byte-swapped when read on a little-endian machine" % k)
            continue
        if width is None:
            continue
        want = None if width == 1 else 8 * width
        if bits != want:
            R.bad("swap", "w|%d" % k, W.where(), "token %d (%s, %s) is %s when written on a big-endian machine" % (
                k, tstr(unsw(inner))[:60], et, "not byte-swapped" if bits is None else "swapped in units of %s bits" % bits))
        wrong = us.get(k, set()) - {want}
        if wrong:
            R.bad("swap", "r|%d" % k, Rf.where(), "token %d (%s, %s) is used %s when read on a big-endian machine" % (
                k, tstr(unsw(inner))[:60], et, "without byte-swapping" if None in wrong else "swapped in units of %s bits" % sorted(wrong)))


def file_names(P, f, seen):
    """String constants that become part of a path in the functions below f."""
    out = set()
    if f.fid in seen:
        return out
    seen.add(f.fid)
    for n in f.nodes():
        if n.get("k") == "call" and n.get("op") in ("/", "/=", "+=", "+"):
            xs = ([n["o"]] if "o" in n else []) + n["a"]
            if any("path" in strip_casts(x).get("t", "") for x in xs) or "filesystem::path" in n.get("_q", ""):
                for x in xs:
                    for y in walk(x):
                        if y.get("k") == "str":
                            out.add(y["v"])
        if "f" in n:
            for t in P.targets(n):
                if t.q.startswith("Omega_h::binary::"):
                    out |= file_names(P, t, seen)
    return out


def names(P, R, W, Rf):
    ws = [f for f in P.fn("Omega_h::binary::write") if any("filesystem::path" in p["t"] for p in f.params)]
    rs = [f for f in P.fn("Omega_h::binary::read") if any("filesystem::path" in p["t"] for p in f.params) and any("Mesh" in p["t"] for p in f.params)]
    if not ws or not rs:
        raise Broken("path-level reader/writer of .osh files not found")
    a, b = set(), set()
    for f in ws:
        a |= file_names(P, f, set())
    for f in rs:
        b |= file_names(P, f, set())
    R.count("file name parts compared", len(a | b))
    if a != b:
        R.bad("names", "|".join(sorted(a ^ b)), ws[0].where(), "the writer uses file name parts %s, the reader %s" % (sorted(a), sorted(b)))
