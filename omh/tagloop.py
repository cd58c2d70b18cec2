"""Loops over the fields of a mesh: they visit all of them, on the mesh and dimension they ask about."""
import re
from .core import *
from .db import Broken
from .kern import *
from .kern import Kern, tshow


def calls_ntags(P, f):
    return any(n["k"] == "call" and P.callee[n["f"]]["q"].endswith("Mesh::ntags") for n in walk(f.body) if n.get("f") is not None and n["k"] == "call")


def bounds(t):
    """The ntags(mesh, dim) a bound is made of."""
    out = []

    def go(x):
        if isinstance(x, tuple):
            if x[:2] == ("call", "ntags"):
                out.append(x)
                return
            if x[:1] in (("call",), ("ite",), ("out",), ("undef",)):
                return         # not simply a number of fields
            for y in x:
                go(y)
    go(t)
    return out


def check(P, R, rule="tags"):
    seen = set()
    for f in P.fns:
        if not f.body or f.usr in seen or not re.search(r"(^|/)src/", f.file) or not calls_ntags(P, f):
            continue
        seen.add(f.usr)
        K = Kern(P, inline=lambda g: False, hook=None)
        try:
            K.run(f, [("p", p["n"]) for p in f.params])
        except (Broken, RecursionError):
            R.count("functions with loops over fields not seen through")
            continue
        where = "%s:%d" % (f.file, f.line)
        for e in K.events:
            for b in e.binders:
                hi = bounds(b[2])
                if not hi:
                    continue
                R.count("obligations on loops over fields")
                if b[1] != ("c", 0) or b[2] != hi[0]:
                    R.bad(rule, "%s|all" % f.name, where, "%s looks at the fields %s to %s of a mesh, not at all of them" % (f.name, tshow(b[1]), tshow(b[2])))
            if e.kind == "call" and e.data[0] == "get_tag":
                t = e.data[1]
                if len(t) == 5 and t[4][:1] == ("bv",):
                    hi = bounds(t[4][2])
                    if hi and hi[0][2:] != t[2:4]:
                        R.bad(rule, "%s|same" % f.name, where, "%s counts the fields of %s and takes those of %s" % (f.name, tshow(hi[0]), tshow(t)))
