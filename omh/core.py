"""Program model over the fact database."""
import re
from . import db as _db
from .db import Broken

_SUB = ("init", "cv", "cond", "then", "else", "inc", "range", "var", "body", "h", "val", "e", "L", "R", "fe", "o", "b", "i", "a", "c",
        "n_", "caps", "ps", "da")


def kids(n):
    """Direct child nodes, roughly in evaluation order."""
    k = n.get("k")
    if k == "for":
        order = ("init", "cond", "body", "inc")
    elif k == "do":
        order = ("body", "cond")
    elif k == "rfor":
        order = ("range", "var", "body")
    elif k == "call":
        order = ("fe", "o", "a")
    elif k == "bin" and n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
        order = ("R", "L")
    elif k == "cond":
        order = ("cond", "L", "R")
    elif k == "if":
        order = ("init", "cv", "cond", "then", "else")
    elif k == "new":
        order = ("n", "a", "i")
    elif k == "lambda":
        order = ("caps", "body")
    else:
        order = ("init", "cv", "cond", "val", "b", "i", "L", "R", "e", "o", "a", "c", "body", "h")
    for x in order:
        v = n.get(x)
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for y in v:
                if isinstance(y, dict):
                    yield y


def walk(n, lambdas=True):
    """Preorder over a node and everything below it."""
    st = [n]
    while st:
        x = st.pop()
        if not lambdas and x.get("k") == "lambda" and x is not n:
            yield x
            continue
        yield x
        st.extend(reversed(list(kids(x))))


CASTS = ("cast",)


def strip(n):
    """Look through casts, copies, moves and single-argument conversions that keep the value."""
    while isinstance(n, dict):
        k = n.get("k")
        if k == "cast":
            n = n["e"]
        elif k == "ctor" and (n.get("cp") or n.get("mv")) and len(n.get("a", [])) >= 1:
            n = n["a"][0]
        elif k == "call" and n.get("_q") in ("std::move", "std::forward") and n["a"]:
            n = n["a"][0]
        elif k == "init" and len(n.get("c", [])) == 1:
            n = n["c"][0]
        elif k == "opaque" and "e" in n:
            n = n["e"]
        else:
            return n
    return n


def strip_casts(n):
    while isinstance(n, dict) and n.get("k") in ("cast", "opaque") and "e" in n:
        n = n["e"]
    return n


class Fn:
    __slots__ = ("d", "q", "name", "file", "line", "fid", "usr", "body", "params", "cls", "meta", "P", "_calls")

    def __init__(self, P, d):
        self.P = P
        self.d = d
        self.q = d["q"]
        self.name = d["n"]
        self.file = P.files[d["file"]]
        self.line = d["line"]
        self.fid = d["fid"]
        self.usr = d["usr"]
        self.body = d["body"]
        self.params = d["ps"]
        self.cls = d.get("cls")
        self._calls = None

    @property
    def ta(self):
        return self.d.get("ta", [])

    def nodes(self, lambdas=True):
        for i in self.d.get("inits", ()):
            yield from walk(i["e"], lambdas)
        yield from walk(self.body, lambdas)

    def where(self, n=None):
        if n is None:
            return "%s:%d" % (self.file, self.line)
        return "%s:%d" % (self.P.files[n["fl"]] if "fl" in n else self.P.files[self.d["bfile"]], n.get("l", self.line))

    def sig(self):
        s = self.q
        if self.ta:
            s += "<" + ",".join(self.ta) + ">"
        return s

    def __repr__(self):
        return "<Fn %s>" % self.sig()


class Program:
    def __init__(self, extra=()):
        self.db = d = _db.load(extra)
        self.files = d["files"]
        self.callee = d["fns"]
        self.units = d["units"]
        self.fns = []
        self.by_fid = {}
        self.by_q = {}
        self.recs = d["recs"]
        self.enums = d["enums"]
        self.gvars = d["vars"]
        for x in d["defs"].values():
            f = Fn(self, x)
            self.fns.append(f)
            self.by_fid[f.fid] = f
            self.by_q.setdefault(f.q, []).append(f)
            if f.q.startswith("Omega_h::"):
                self.by_q.setdefault(f.q[9:], []).append(f)
        self.rec_by_q = {}
        for r in self.recs.values():
            self.rec_by_q.setdefault(r["q"], []).append(r)
        # overriding methods
        self.overriders = {}
        by_usr = {f.usr: f for f in self.fns}
        for f in self.fns:
            for o in f.d.get("ov", ()):
                self.overriders.setdefault(o, []).append(f)
        self.by_usr = by_usr
        # annotate calls with the qualified name of their callee
        cal = self.callee
        for f in self.fns:
            for n in f.nodes():
                if "f" in n:
                    n["_q"] = cal[n["f"]]["q"]

    # -- lookups ---------------------------------------------------------
    def fn(self, q, required=True):
        v = self.by_q.get(q, [])
        if not v and required:
            raise Broken("anchor function %s not found" % q)
        return v

    def targets(self, n):
        """Function definitions a call node may reach (virtual calls expanded)."""
        if "f" not in n:
            return []
        m = self.callee[n["f"]]
        out = []
        t = self.by_fid.get(n["f"])
        if t:
            out.append(t)
        if m.get("virt") and not n.get("nv"):
            work = [m["usr"]]
            seen = set()
            while work:
                u = work.pop()
                for o in self.overriders.get(u, ()):
                    if o.usr not in seen:
                        seen.add(o.usr)
                        out.append(o)
                        work.append(o.usr)
        return out

    def q(self, n):
        return n.get("_q", "")

    def meta(self, n):
        return self.callee[n["f"]] if "f" in n else None

    def noreturn(self, n):
        return "f" in n and bool(self.callee[n["f"]].get("nr"))


def show(n, depth=0):
    """Readable rendering of an expression."""
    if n is None:
        return "<none>"
    if depth > 12:
        return "..."
    k = n.get("k")
    s = lambda x: show(x, depth + 1)
    if k == "int":
        if "en" in n:
            return n["en"].split("::")[-1]
        if n.get("b"):
            return "true" if n["v"] else "false"
        if n.get("ch"):
            return repr(chr(n["v"])) if 0 <= n["v"] < 128 else str(n["v"])
        return str(n["v"])
    if k == "flt":
        return str(n["v"])
    if k == "str":
        return '"%s"' % n["v"]
    if k == "ref":
        return n["n"]
    if k == "this":
        return "this"
    if k == "null_ptr":
        return "nullptr"
    if k == "mem":
        b = n.get("b")
        if b is None or b.get("k") == "this":
            return n["n"]
        return s(b) + ("->" if n.get("ar") else ".") + n["n"]
    if k == "call":
        a = ", ".join(s(x) for x in n["a"])
        op = n.get("op")
        if op == "[]" and "o" in n:
            return "%s[%s]" % (s(n["o"]), a)
        if op == "()" and "o" in n:
            return "%s(%s)" % (s(n["o"]), a)
        if op in ("->", "*") and "o" in n and not n["a"]:
            return s(n["o"]) if op == "->" else "*" + s(n["o"])
        if op:
            xs = ([n["o"]] if "o" in n else []) + n["a"]
            if len(xs) == 2:
                return "(%s %s %s)" % (s(xs[0]), op, s(xs[1]))
            return op + s(xs[0])
        nm = n.get("_q", "?").split("::")[-1]
        if "o" in n:
            if nm.startswith("operator "):
                return s(n["o"])
            return "%s.%s(%s)" % (s(n["o"]), nm, a)
        if "fe" in n:
            nm = s(n["fe"])
        return "%s(%s)" % (nm, a)
    if k == "ctor":
        if (n.get("cp") or n.get("mv")) and n["a"]:
            return s(n["a"][0])
        return "%s(%s)" % (short(n.get("t", "")), ", ".join(s(x) for x in n["a"]))
    if k == "bin":
        return "(%s %s %s)" % (s(n["L"]), n["op"], s(n["R"]))
    if k == "un":
        return s(n["e"]) + n["op"] if n.get("post") else n["op"] + s(n["e"])
    if k == "cond":
        return "(%s ? %s : %s)" % (s(n["cond"]), s(n["L"]), s(n["R"]))
    if k == "cast":
        if n.get("imp"):
            return s(n["e"])
        return "%s(%s)" % (short(n["t"]), s(n["e"]))
    if k == "sub":
        return "%s[%s]" % (s(n["b"]), s(n["i"]))
    if k == "init":
        return "{%s}" % ", ".join(s(x) for x in n["c"] if x)
    if k == "lambda":
        return "[lambda@%d]" % n.get("l", 0)
    if k in ("fref", "mfref"):
        return n.get("_q", "?")
    if k == "new":
        return "new " + short(n["t"])
    if k == "opaque" and "e" in n:
        return s(n["e"])
    if k == "sizeof":
        return "sizeof(%s)" % short(n.get("at", ""))
    if k == "zero":
        return short(n.get("t", "")) + "{}"
    return "<%s>" % k


def short(t):
    t = t.replace("Omega_h::", "")
    t = t.replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string")
    t = t.replace("std::basic_string<char>", "string")
    return t


class Violation:
    def __init__(self, rule, key, where, msg, trace=()):
        self.rule, self.key, self.where, self.msg, self.trace = rule, key, where, msg, list(trace)

    def __str__(self):
        s = "[%s] %s: %s" % (self.rule, self.where, self.msg)
        for t in self.trace:
            s += "\n      " + t
        return s


class Result:
    def __init__(self):
        self.v = []
        self.counts = {}
        self.notes = []
        self.samples = []
        self._seen = set()

    def bad(self, rule, key, where, msg, trace=()):
        k = (rule, key)
        if k in self._seen:
            return
        self._seen.add(k)
        self.v.append(Violation(rule, rule + "|" + key, where, msg, trace))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, at_least):
        if self.counts.get(name, 0) < at_least:
            raise Broken("%s: %d instances found, at least %d expected" % (name, self.counts.get(name, 0), at_least))
