"""Every run-time element-type dispatch treats the four element types alike."""
from .core import *
from . import peval
from .peval import PE, Ty, unify, text

LEVEL = "other"
RULE = ("Each function that tests a tag's element type is specialised to each of the four types by folding those tests; the four "
        "specialised effect trees must be equal up to the type itself, and none may be empty. Trait tables are read back as constants.")
TYPES = [("I8", 0, "OMEGA_H_I8"), ("I32", 2, "OMEGA_H_I32"), ("I64", 3, "OMEGA_H_I64"), ("F64", 5, "OMEGA_H_F64")]
ELEM = {"signed char": "I8", "int": "I32", "long": "I64", "double": "F64"}


def enumr(n):
    n = strip(n)
    return n.get("en") if n.get("k") == "int" else None


def tname(en):
    if en is None:
        return None
    en = en.split("::")[-1]
    return {"OMEGA_H_I8": "I8", "OMEGA_H_I32": "I32", "OMEGA_H_I64": "I64", "OMEGA_H_F64": "F64", "OMEGA_H_REAL": "F64",
            "OMEGA_H_LO": "I32", "OMEGA_H_GO": "I64"}.get(en)


def test_of(P, n):
    """(type, positive) when the node tests a run-time element type against one of the four."""
    if n.get("k") == "bin" and n["op"] in ("==", "!="):
        for s in ("L", "R"):
            t = tname(enumr(n[s]))
            if t:
                return t, n["op"] == "=="
    if n.get("k") == "call" and n.get("_q") == "Omega_h::is":
        ta = P.callee[n["f"]].get("ta", [])
        if ta and ta[0] in ELEM:
            return ELEM[ta[0]], True
    if n.get("k") == "bin" and n["op"] in ("==", "!="):
        for s, o in (("L", "R"), ("R", "L")):
            c = strip(n[s])
            if c.get("k") == "dyncast" or "dynamic_cast" in str(c.get("ck", "")):
                return None
    return None


def effects(P, f, T):
    def test(n, env, pe):
        r = test_of(P, n)
        if r is None:
            return None
        return (r[0] == T) == r[1]

    def sw(cond, val, env, pe):
        t = tname(enumr(val))
        if t is None:
            return None
        return t == T
    pe = PE(P, f, test, sw)
    ev = pe.run()
    return ev, pe


def flat(ev):
    for e in ev:
        if e[0] == "loop":
            yield from flat(e[2])
        elif e[0] == "if":
            yield from flat(e[2])
            yield from flat(e[3])
        else:
            yield e


def only_f64(extra):
    return True


def check(P):
    R = Result()
    groups = {}
    for f in P.fns:
        ts = set()
        for n in f.nodes():
            if n.get("k") == "switch":
                for c in walk(n["body"]):
                    if c.get("k") == "case":
                        t = tname(enumr(c["val"]))
                        if t:
                            ts.add(t)
            else:
                r = test_of(P, n)
                if r:
                    ts.add(r[0])
        if len(ts) >= 2 and f.q != "Omega_h::is":
            groups[f.fid] = (f, ts)
    for f, ts in groups.values():
        R.count("type-dispatching functions")
        evs = {}
        for T, _, _ in TYPES:
            evs[T] = effects(P, f, T)[0]
            R.count("specialised bodies compared")
        names = [t[0] for t in TYPES]
        for T in names:
            if any(e == ("nocase",) for e in flat(evs[T])):
                R.bad("unhandled", "%s|%s" % (f.q, T), f.where(), "%s has no arm for element type %s" % (f.q, T))
        if any(v.rule == "unhandled" and v.key.startswith("unhandled|" + f.q) for v in R.v):
            continue
        # majority of the integral types decides which arm is the odd one
        def agree(a, b):
            return unify(tuple(evs[a]), tuple(evs[b]), a, b)
        R.samples.append("%s: %s" % (f.where(), f.q))
        ints = ["I8", "I32", "I64"]
        bad = {}
        for T in ints:
            others = [U for U in ints if U != T]
            d = [agree(U, T) for U in others]
            if all(d):
                bad[T] = d[0]
        if not bad:
            for i, T in enumerate(ints):
                for U in ints[i + 1:]:
                    d = agree(T, U)
                    if d:
                        bad[U] = d
        for T, d in bad.items():
            R.bad("arm", "%s|%s" % (f.q, T), f.where(), "%s treats element type %s unlike the others: `%s` versus `%s`" % (
                f.q, T, text(d[0]), text(d[1])))
        # the real arm may do more (vector resizing), never less
        d = unify(tuple(evs["I64"]), tuple(evs["F64"]), "I64", "F64", True)
        if d and not bad:
            hs = [skeleton(h, "F64") for h in flat(evs["F64"])]
            es = [skeleton(e, "I64") for e in flat(evs["I64"])]
            if hs == es:
                R.bad("arm", "%s|F64" % f.q, f.where(), "%s treats reals unlike integers: `%s` versus `%s`" % (f.q, text(d[1]), text(d[0])))
                continue
            for e in flat(evs["I64"]):
                if e == ("fail",) or e[0] in ("return", "continue"):
                    continue
                if skeleton(e, "I64") not in hs:
                    R.bad("arm", "%s|F64" % f.q, f.where(), "%s does `%s` for integers but not for reals" % (f.q, text(e)))
            R.count("real arms with additional steps")
    R.need("type-dispatching functions", 8)
    traits(P, R)
    return R


def skeleton(e, T):
    """Names of the functions called in an effect, modulo the type."""
    out = []

    def rec(t):
        if isinstance(t, tuple) and t and t[0] in ("call", "ctor") and len(t) > 1 and isinstance(t[1], tuple):
            out.append(tuple("T" if isinstance(x, Ty) and str(x) == T else str.__str__(x) for x in t[1]))
            return
        if isinstance(t, tuple):
            for x in t:
                rec(x)
    rec(e)
    return tuple(out)


def consts(P, ev, depth=0):
    """Constants an effect tree can return."""
    out = set()
    for e in flat(ev):
        if e[0] == "return":
            out |= const(P, e[1], depth)
    return out


def const(P, t, depth=0):
    if not isinstance(t, tuple) or not t:
        return {t}
    if t[0] in ("int", "str", "ref", "flt"):
        return {str(t[1]).split("::")[-1]}
    if t[0] == "un" and t[1] in ("&", "*"):
        return const(P, t[2], depth)
    if t[0] == "?":
        return const(P, t[2], depth) | const(P, t[3], depth)
    if t[0] == "call" and len(t) == 2 and depth < 6:
        nm = "".join(str.__str__(x) for x in t[1])
        out = set()
        for f in P.by_q.get(unabbrev(nm), []):
            out |= consts(P, PE(P, f, lambda *a: None).run(), depth + 1)
        return out or {nm}
    return {text(t)}


BACK = {"I8": "signed char", "I32": "int", "I64": "long", "F64": "double"}


def unabbrev(nm):
    m = re.match(r"(.*<)(I8|I32|I64|F64)(>.*)$", nm)
    return m.group(1) + BACK[m.group(2)] + m.group(3) if m else nm


def value_of(P, q):
    fs = P.by_q.get(q, [])
    return [(f, consts(P, PE(P, f, lambda *a: None).run())) for f in fs]


def enum_map(P, f, en):
    """What the function returns when its enum parameter is the given enumerator."""
    def test(n, env, pe):
        if n.get("k") == "bin" and n["op"] in ("==", "!="):
            for s in ("L", "R"):
                e = enumr(n[s])
                if e:
                    return (e.split("::")[-1] == en) == (n["op"] == "==")
        return None

    def sw(cond, val, env, pe):
        e = enumr(val)
        return None if e is None else e.split("::")[-1] == en
    pe = PE(P, f, test, sw)
    return consts(P, pe.run())


VTK_NAMES = {"signed char": "Int8", "unsigned char": "UInt8", "int": "Int32", "long": "Int64", "unsigned long": "UInt64", "double": "Float64"}


def traits(P, R):
    want = {}
    for c, t in ELEM.items():
        want["Omega_h::TagTraits<%s>::type" % c] = "OMEGA_H_" + t
    if any(f.q.startswith("Omega_h::MpiTraits<") for f in P.fns):
        for c, m in (("signed char", "signed_char"), ("unsigned char", "unsigned_char"), ("int", "int"), ("long", "long"), ("char", "char"),
                     ("double", "double"), ("float", "float"), ("long long", "long_long_int"), ("unsigned long", "unsigned_long"),
                     ("unsigned long long", "unsigned_long_long"), ("short", "short"), ("unsigned int", "unsigned"),
                     ("unsigned short", "unsigned_short")):
            want["Omega_h::MpiTraits<%s>::datatype" % c] = "ompi_mpi_" + m
    for c, n in VTK_NAMES.items():
        want["Omega_h::vtk::Traits<%s>::name" % c] = n
    for q, w in sorted(want.items()):
        for f, got in value_of(P, q):
            R.count("trait entries")
            if got != {w}:
                R.bad("trait", q, f.where(), "%s yields %s where the type calls for %s" % (q, sorted(got), w))
    R.need("trait entries", 8)
    for f in P.by_q.get("Omega_h::mpi_op", []):
        for en, w in (("OMEGA_H_MIN", "ompi_mpi_op_min"), ("OMEGA_H_MAX", "ompi_mpi_op_max"), ("OMEGA_H_SUM", "ompi_mpi_op_sum")):
            got = enum_map(P, f, en)
            R.count("reduction operators")
            if got != {w}:
                R.bad("op", en, f.where(), "%s maps to %s instead of %s" % (en, sorted(got), w))
    names_to_types(P, R)


def names_to_types(P, R):
    """Functions that turn a VTK type name into an element type invert the table that writes the names."""
    for f in P.fns:
        if "vtk" not in f.q and "xml" not in f.q:
            continue
        strs = {n["v"] for n in f.nodes() if n.get("k") == "str"}
        ens = {tname(enumr(n)) for n in f.nodes() if n.get("k") == "int" and "en" in n} - {None}
        if len(strs & set(VTK_NAMES.values())) < 2 or len(ens) < 2:
            continue
        for c, T in ELEM.items():
            name = VTK_NAMES[c]
            R.count("type names read back")

            def test(n, env, pe):
                op = n.get("op") if n.get("k") in ("call", "bin") else None
                if op in ("==", "!="):
                    xs = [n["L"], n["R"]] if n["k"] == "bin" else ([n["o"]] if "o" in n else []) + n["a"]
                    for x in xs:
                        s = strip(x)
                        if s.get("k") == "ctor" and s["a"]:
                            s = strip(s["a"][0])
                        if s.get("k") == "str":
                            return (s["v"] == name) == (op == "==") if s["v"] in VTK_NAMES.values() else None
                return None
            got = set()
            for e in flat(PE(P, f, test).run()):
                if e[0] in ("assign", "return"):
                    g = {tname(x) for x in const(P, e[-1]) if isinstance(x, str)} - {None}
                    if g:
                        got = g
            if got != {T}:
                R.bad("name", "%s|%s" % (f.q, name), f.where(), "%s reads type name %s as %s" % (f.q, name, sorted(got) or "nothing"))
    R.need("type names read back", 4)
