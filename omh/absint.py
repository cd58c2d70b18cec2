"""Partial evaluation of mesh operations: scalars, strings and tag attributes are concrete, arrays
are provenance terms, branches that stay undecided are kept as alternatives.  Results are trees of
events (calls given to `hook`), used to count what happens on every path."""
from .core import *
from .iox import IOX, last, unsw, tstr


class Absint(IOX):
    MAXDEPTH = 14

    def __init__(self, P, hook, inl, fold=None):
        """hook(self, n, name, q, obj, args) -> term or None; inl(f) -> inline this function?"""
        super().__init__(P, fold or (lambda t: None))
        self.hook, self.inl = hook, inl
        self._reach = set()
        self._names = set()
        self.nfresh = 0
        self.unknown = set()

    def handles_stream(self, f):
        return False

    def path(self, n):
        m = strip_casts(n)
        i = None
        if m.get("k") == "sub":
            b, i = m["b"], m["i"]
        elif m.get("k") == "call" and m.get("op") == "[]" and "o" in m and m["a"]:
            b, i = m["o"], m["a"][0]
        if i is not None:
            p = self.path(b)
            if not p:
                return None
            v = self.val(self.x_quiet(i))
            return p + ("[]" if v is None else "[%d]" % v,)
        return super().path(n)

    def store(self, p, t):
        if len(p) > 1 and p[-1].startswith("[") and self.st.get(p[:-1], ("",))[0] in ("w", "arr"):
            return              # an element of an array
        super().store(p, t)

    def loop(self, s):
        if s["k"] == "rfor" or not self.concrete_loop(s):
            super().loop(s)

    def concrete_loop(self, s):
        """Execute a loop whose condition is decided at every turn."""
        snap, n0, r0, e0 = self.snapshot(), len(self.out), self.ret, len(self.effects)
        if s["k"] == "for" and s.get("init"):
            self.stmts([s["init"]])
        first = s["k"] == "do"
        for turn in range(14):
            t = True if first else self.truth(s["cond"]) if s.get("cond") else None
            first = False
            if t is None:
                break
            if t is False:
                return True
            self.stopkind = None
            self.stmts([s["body"]])
            if self.stopped:
                if self.stopkind == "ret" or self.out and self.out[-1] == ("fail",):
                    return True
                self.stopped = False
                if self.stopkind == "break":
                    return True
            if s.get("inc"):
                self.x(s["inc"])
        self.st, self.alias = dict(snap[0]), dict(snap[1])
        del self.out[n0:]
        del self.effects[e0:]
        self.ret, self.stopped = r0, False
        return False

    def assigned_paths(self, body):
        s = set()
        for y in walk(body, False):
            t = None
            if y.get("k") == "bin" and y["op"].endswith("=") and y["op"] not in ("==", "!=", "<=", ">="):
                t = y["L"]
            elif y.get("k") == "un" and y["op"] in ("++", "--"):
                t = y["e"]
            elif y.get("k") == "call" and y.get("op") in ("=", "+=", "-=") and "o" in y:
                t = y["o"]
            if t is not None:
                p = self.path(t)
                if p:
                    s.add(p)
        return s

    def lam(self, n):
        """A kernel: what it reads and what it writes among the captured values."""
        ws = set()
        for y in walk(n["body"]):
            t = None
            if y.get("k") == "bin" and y["op"].endswith("=") and y["op"] not in ("==", "!=", "<=", ">="):
                t = y["L"]
            elif y.get("k") == "call" and y.get("op", "").endswith("=") and y["op"] not in ("==", "!=", "<=", ">="):
                t = y.get("o") or y["a"][0]
            elif y.get("k") == "un" and y["op"] in ("++", "--"):
                t = y["e"]
            elif y.get("k") == "call" and last(y.get("_q", "")).startswith(("atomic_", "set_vector", "set_symm", "set_matrix")) and y["a"]:
                t = y["a"][0]
            if t is not None:
                b = strip_casts(t)
                while b.get("k") in ("sub", "call", "un", "mem") and (b.get("b") or b.get("o") or b.get("e")):
                    b = strip_casts(b.get("b") or b.get("o") or b.get("e"))
                if b.get("k") == "ref":
                    ws.add(b["d"])
        rd, wr = [], []
        for c in n["caps"]:
            if "d" not in c:
                continue
            t = self.load(self.alias.get(c["d"], ("d%s" % c["d"],)))
            if t is None:
                continue
            (wr if c["d"] in ws else rd).append(t)
        return ("lam", tuple(wr), tuple(rd))

    def fresh(self, *a):
        self.nfresh += 1
        return ("w", self.nfresh) + a

    def event(self, *a):
        self.out.append(("ev",) + a)

    def inlinable(self, n):
        return False

    def run(self, f, args):
        self.out = []
        self.stopped = False
        self.ret = None
        self.visited.append(f)
        for i, p in enumerate(f.params):
            self.st[("d%s" % p["d"],)] = args[i]
        self.stmts([f.body])
        return self.out

    def decide(self, t):
        if t[0] == "b" and t[1] in ("==", "!=") and t[2][0] == t[3][0] == "s":
            return (t[2] == t[3]) == (t[1] == "==")
        if t[0] == "b" and t[1] in ("&&", "||"):
            a, b = self.decide(t[2]), self.decide(t[3])
            if t[1] == "&&":
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        if t[0] == "null":
            return False
        if t[0] in ("w", "s", "tag", "mesh"):
            return True if t[0] != "s" else None
        return super().decide(t)

    def val(self, t):
        if t[0] == "b" and t[1] in ("+", "-", "*"):
            a, b = self.val(t[2]), self.val(t[3])
            if a is not None and b is not None:
                return {"+": a + b, "-": a - b, "*": a * b}[t[1]]
        return super().val(t)

    def x(self, n):
        m = strip_casts(n)
        if m.get("k") == "lambda":
            return self.lam(m)
        if m.get("k") == "un" and m["op"] in ("++", "--"):
            p = self.path(m["e"])
            old = self.x(m["e"])
            v = self.val(old)
            new = ("b", m["op"], old) if v is None else ("c", v + (1 if m["op"] == "++" else -1))
            if p:
                self.store(p, new)
            return old if m.get("post") else new
        t = super().x(n)
        if t[0] == "b" and t[1] in ("+", "-", "*"):
            v = self.val(t)
            if v is not None:
                return ("c", v)
        if t[0] in ("?",) and len(t) == 4:
            d = self.decide(t[1])
            if d is not None:
                return t[2] if d else t[3]
        return t

    def call(self, n):
        q = n.get("_q", "")
        nm = last(q)
        if "f" in n and self.P.noreturn(n):
            self.out.append(("fail",))
            self.stopped = True
            return ("fail",)
        if n.get("op") == "()" and "o" in n:
            lam = self.lambdas.get(self.path(n["o"]))
            if lam is not None and self.depth < self.MAXDEPTH:
                from .iox import Closure
                return self.inline(n, Closure(lam))
        o = self.x(n["o"]) if "o" in n else None
        args = [self.x(a) for a in n.get("a", [])]
        r = self.hook(self, n, nm, q, o, args)
        if r is not None:
            return r
        op = n.get("op")
        if op in ("==", "!="):
            l, rr = (o, args[0]) if o is not None else (args[0], args[1])
            return ("b", op, l, rr)
        if op == "+":
            l, rr = (o, args[0]) if o is not None else (args[0], args[1])
            if l[0] == rr[0] == "s":
                return ("s", l[1] + rr[1])
            return ("b", "+", l, rr)
        if op == "=" and o is not None and args:
            self.assign(n["o"], args[0], "=")
            return args[0]
        if op == "bool" or nm.startswith("operator "):
            return o if o is not None else ("f", nm)
        if nm in ("max2", "min2", "max", "min") and len(args) == 2 and None not in (self.val(args[0]), self.val(args[1])):
            return ("c", (max if nm.startswith("max") else min)(self.val(args[0]), self.val(args[1])))
        if n["k"] == "ctor" and args and args[0][0] == "s" and "string" in n.get("t", ""):
            return args[0]
        if n["k"] == "ctor":
            ins = [a for a in args]
            if len(ins) == 1:
                return ins[0]
            return ("new", short(n.get("t", ""))) + tuple(ins)
        tg = [f for f in (self.P.targets(n) if "f" in n else []) if f.body]
        if len(tg) == 1 and self.depth < self.MAXDEPTH and self.inl(tg[0]):
            return self.inline2(n, tg[0], args)
        if nm in ("move", "forward", "read", "deep_copy", "write", "get", "c_str", "data", "nonnull") and (o or args):
            return o if o is not None else args[0]
        if n["k"] == "call" and op == "[]" and o is not None:
            return ("m", "[]", o)
        return ("f", nm) + ((o,) if o is not None else ()) + tuple(args)

    def inline2(self, n, f, args):
        self.depth += 1
        self.visited.append(f)
        try:
            saved = {}
            for i, p in enumerate(f.params):
                k = ("d%s" % p["d"],)
                for q in [q for q in self.st if q[0] == k[0]]:
                    saved[q] = self.st.pop(q)
                saved_alias = self.alias.pop(p["d"], None)
                a = n["a"][i] if i < len(n["a"]) else None
                t = p["t"]
                lv = None
                if a is not None and ("&" in t or t.rstrip().endswith("*")):
                    lv = self.path(a)
                    if lv and self.load(lv) is None and lv[0].startswith("d"):
                        pass
                if lv and not ("const" in t and self.load(lv) is not None):
                    self.alias[p["d"]] = lv
                elif i < len(args):
                    self.st[k] = args[i]
            out_s, self.stopped = self.stopped, False
            self.ret = None
            self.stmts([f.body])
            self.stopped = out_s
            r = self.ret if self.ret is not None else ("void",)
            self.ret = None
            return r
        finally:
            self.depth -= 1


def counts(ev, pred):
    """Possible numbers of events satisfying pred over all paths that do not fail (None: no such path)."""
    tot = {0}
    for e in ev:
        if e[0] == "fail":
            return set()
        if e[0] == "ev":
            if pred(e):
                tot = {min(x + 1, 9) for x in tot}
        elif e[0] == "if":
            a, b = counts(e[2], pred), counts(e[3], pred)
            tot = {min(x + y, 9) for x in tot for y in a | b}
        elif e[0] == "loop":
            b = counts(e[3], pred)
            if b - {0}:
                tot = tot | {min(x + 2, 9) for x in tot} | {min(x + y, 9) for x in tot for y in b}
        elif e[0] == "switch":
            b = set()
            for a in e[2]:
                b |= counts(a, pred)
            if b - {0}:
                tot = tot | {min(x + y, 9) for x in tot for y in b}
    return tot


def events(ev):
    for e in ev:
        if e[0] == "ev":
            yield e
        elif e[0] == "loop":
            yield from events(e[3])
        elif e[0] == "if":
            yield from events(e[2])
            yield from events(e[3])
        elif e[0] == "switch":
            for a in e[2]:
                yield from events(a)


def contains(t, pred):
    if not isinstance(t, tuple):
        return False
    return pred(t) or any(contains(x, pred) for x in t)


def find(t, pred, out=None):
    out = [] if out is None else out
    if isinstance(t, tuple):
        if pred(t):
            out.append(t)
        for x in t:
            find(x, pred, out)
    return out
