"""Stream layout of a reader or writer: a partial evaluator that follows every byte that goes
through a std::istream/std::ostream, inlining the functions that handle the stream, with
selected tests folded.  The result is a tree of tokens (bytes, loops, branches)."""
from .core import *

STREAM = ("basic_istream", "basic_ostream", "basic_iostream", "basic_fstream", "basic_ifstream", "basic_ofstream")


class Unsupported(Broken):
    pass


def last(q):
    q = re.sub(r"<[^<>]*(<[^<>]*(<[^<>]*>)?[^<>]*>)?[^<>]*>", "", q)
    return q.split("::")[-1]


def is_stream(t):
    return any(s in t for s in STREAM)


class Frame:
    def __init__(self):
        self.env = {}


class Closure:
    """A lambda seen as a function."""
    def __init__(self, n):
        self.params, self.body, self.d, self.q = n["ps"], n["body"], {"rt": "auto"}, "lambda"


class IOX:
    MAXDEPTH = 12

    def __init__(self, P, fold):
        """fold(term) -> True/False/None decides branch conditions."""
        self.P, self.fold = P, fold
        self.k = 0
        self.written = {}
        self.st = {}            # lvalue path -> term
        self.alias = {}         # decl id -> lvalue path
        self.loopdepth = 0
        self.depth = 0
        self.uid = 0
        self.effects = []
        self.swbits = None
        self._reach = None
        self.visited = []
        self.lambdas = {}
        self.enumcmp = set()    # input tokens compared with an element-type code

    # -- byte swapping
    def swap_reach(self):
        if self._reach is None and getattr(self.P, "_swap_reach", None) is not None:
            self._reach = self.P._swap_reach
        if self._reach is None:
            P = self.P
            direct, callers = set(), {}
            for f in P.fns:
                for n in f.nodes():
                    if "f" in n:
                        q = n.get("_q", "")
                        if "builtin_bswap" in q or "byteswap" in q:
                            direct.add(f.fid)
                        for t in P.targets(n):
                            callers.setdefault(t.fid, set()).add(f.fid)
            seen = set(direct)
            work = list(direct)
            while work:
                x = work.pop()
                for c in callers.get(x, ()):
                    if c not in seen:
                        seen.add(c)
                        work.append(c)
            self._reach = self.P._swap_reach = seen
        return self._reach

    def swap_names(self):
        if self._names is None:
            self._names = {self.P.by_fid[i].q for i in self.swap_reach() if i in self.P.by_fid}
            self._names = {q for q in self._names if not any(self.handles_stream(f) for f in self.P.by_q[q])}
        return self._names

    _names = None

    def handles_stream(self, f):
        return any(is_stream(p["t"]) for p in f.params)

    # -- lvalues
    def path(self, n):
        n = strip_casts(n)
        k = n.get("k")
        if k == "ctor" and (n.get("cp") or n.get("mv")) and n["a"]:
            return self.path(n["a"][0])
        if k == "ref":
            if n["d"] in self.alias:
                return self.alias[n["d"]]
            return ("d%s" % n["d"],) if not n.get("g") else None
        if k == "mem":
            b = n.get("b")
            p = ("this",) if b is None else self.path(b)
            return p + (n["n"],) if p else None
        if k == "sub":
            p = self.path(n["b"])
            return p + ("[]",) if p else None
        if k == "call" and n.get("op") == "[]" and "o" in n:
            p = self.path(n["o"])
            return p + ("[]",) if p else None
        if k == "call" and n.get("op") in ("*", "->") and "o" in n:
            return self.path(n["o"])
        if k == "call" and last(n.get("_q", "")) in ("data", "nonnull", "c_str", "front", "begin", "get"):
            return self.path(n["o"] if "o" in n else n["a"][0])
        if k == "un" and n["op"] in ("&", "*"):
            return self.path(n["e"])
        if k == "this":
            return ("this",)
        return None

    def store(self, p, t):
        while p[-1] == "[]" and p[:-1] in self.st:
            p = p[:-1]          # one element stands for all
        for q in [q for q in self.st if q[:len(p)] == p]:
            del self.st[q]
        self.st[p] = t

    def load(self, p):
        if p in self.st:
            return self.st[p]
        for i in range(len(p) - 1, 0, -1):
            if p[:i] in self.st:
                t = self.st[p[:i]]
                for f in p[i:]:
                    t = ("m", f, t)
                return t
        sub = {q[len(p):]: t for q, t in self.st.items() if q[:len(p)] == p}
        if sub:
            return ("rec",) + tuple(sorted(sub.items(), key=str))
        return None

    # -- expressions
    def x(self, n):
        n = strip_casts(n)
        k = n.get("k")
        if k == "ctor" and (n.get("cp") or n.get("mv")) and n["a"]:
            return self.x(n["a"][0])
        if "v" in n and k not in ("int", "flt", "str") and isinstance(n["v"], (int, bool)):
            return ("c", int(n["v"]))
        if k == "int":
            return ("c", n["v"])
        if k == "flt":
            return ("c", n["v"])
        if k == "str":
            return ("s", n["v"])
        if k == "sizeof":
            return ("c", n.get("v"))
        if k in ("ref", "mem", "sub") or (k == "call" and n.get("op") in ("[]", "*", "->") and "o" in n and not self.inlinable(n)):
            p = self.path(n)
            if p:
                t = self.load(p)
                if t is not None:
                    return t
            if k == "ref":
                if n.get("g"):
                    return ("g", n["g"])
                return ("v", n["n"])
            if k == "mem":
                return ("m", n["n"], self.x(n["b"]) if n.get("b") else ("this",))
            if k == "sub":
                return ("m", "[]", self.x(n["b"]))
            if n.get("op") == "[]":
                return ("m", "[]", self.x(n["o"]))
            return self.x(n["o"])
        if k == "this":
            return ("this",)
        if k in ("call", "ctor"):
            return self.call(n)
        if k == "bin":
            op = n["op"]
            if op in ("&&", "||"):
                a = self.x(n["L"])
                return ("b", op, a, self.x(n["R"]))
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                self.assign(n["L"], self.x(n["R"]), op)
                return self.x(n["L"])
            if op == ",":
                self.x(n["L"])
                return self.x(n["R"])
            return ("b", op, self.x(n["L"]), self.x(n["R"]))
        if k == "un":
            if n["op"] in ("++", "--"):
                p = self.path(n["e"])
                if p:
                    self.store(p, ("b", n["op"], self.x(n["e"])))
                return ("v", "inc")
            if n["op"] in ("&", "*"):
                return self.x(n["e"])
            return ("u", n["op"], self.x(n["e"]))
        if k == "cond":
            t = self.truth(n["cond"])
            if t is True:
                return self.x(n["L"])
            if t is False:
                return self.x(n["R"])
            return ("?", self.x(n["cond"]), self.x(n["L"]), self.x(n["R"]))
        if k == "lambda":
            for y in walk(n["body"]):
                if "f" in y and any(t.fid in self.swap_reach() for t in self.P.targets(y)):
                    self.note_swap(y)
            return ("lambda",)
        if k == "zero":
            return ("c", 0)
        if k == "init" and len(n.get("c", [])) == 1:
            return self.x(n["c"][0])
        return (k,) + tuple(self.x(c) for c in kids(n))

    def note_swap(self, n):
        bits = set()

        def rec(fid, seen):
            if fid in seen:
                return
            seen.add(fid)
            f = self.P.by_fid.get(fid)
            if not f:
                return
            for y in f.nodes():
                q = y.get("_q", "")
                m = re.search(r"builtin_bswap(\d+)", q)
                if m:
                    bits.add(int(m.group(1)))
                if "f" in y:
                    for t in self.P.targets(y):
                        if t.fid in self.swap_reach():
                            rec(t.fid, seen)
        for t in self.P.targets(n):
            rec(t.fid, set())
        m = re.search(r"builtin_bswap(\d+)", n.get("_q", ""))
        if m:
            bits.add(int(m.group(1)))
        self.swbits = sorted(bits)[0] if len(bits) == 1 else 0

    def truth(self, n):
        n = strip_casts(n)
        k = n.get("k")
        if k == "un" and n["op"] == "!":
            t = self.truth(n["e"])
            return None if t is None else not t
        if k == "bin" and n["op"] in ("&&", "||"):
            a = self.truth(n["L"])
            if a is not None and a == (n["op"] == "||"):
                return a
            b = self.truth(n["R"])
            if a is not None:
                return b
            return b if b is not None and b == (n["op"] == "||") else None
        if k == "bin" and n["op"] in ("==", "!="):
            for a, b in ((n["L"], n["R"]), (n["R"], n["L"])):
                e = strip_casts(a)
                if e.get("k") == "int" and type_code(e):
                    u = unsw(self.x_quiet(b))
                    if u[0] == "in":
                        self.enumcmp.add(u[1])
        return self.decide(self.x(n))

    def decide(self, t):
        if t[0] == "c" and isinstance(t[1], (int, bool)):
            return bool(t[1])
        if t[0] == "u" and t[1] == "!":
            v = self.decide(t[2])
            return None if v is None else not v
        if t[0] == "b" and t[1] in ("==", "!=", "<", "<=", ">", ">="):
            a, b = self.val(t[2]), self.val(t[3])
            if a is not None and b is not None:
                return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[t[1]]
        r = self.fold(t)
        return None if r is None else bool(r)

    def val(self, t):
        if t[0] == "c" and isinstance(t[1], int):
            return t[1]
        if t[0] == "u" and t[1] == "-":
            v = self.val(t[2])
            return None if v is None else -v
        v = self.fold(t)
        return v if isinstance(v, int) else None

    # -- calls
    def inlinable(self, n):
        return any(self.handles_stream(f) and f.q.startswith("Omega_h") for f in self.P.targets(n)) if "f" in n else False

    def call(self, n):
        q = n.get("_q", "")
        nm = last(q)
        k = n["k"]
        if "f" in n and self.P.noreturn(n):
            self.out.append(("fail",))
            self.stopped = True
            return ("fail",)
        obj_t = strip_casts(n["o"]).get("t", "") if "o" in n else ""
        if nm in ("read", "write") and re.match(r"std::basic_[io]stream<char>::", q) and len(n["a"]) == 2:
            return self.raw(n, nm)
        if n.get("op") == "()" and "o" in n:
            lam = self.lambdas.get(self.path(n["o"])) or (strip_casts(n["o"]) if strip_casts(n["o"]).get("k") == "lambda" else None)
            if lam is not None and self.depth < self.MAXDEPTH:
                return self.inline(n, Closure(lam))
        tg = [f for f in (self.P.targets(n) if "f" in n else []) if f.body]
        if len(tg) == 1 and self.depth < self.MAXDEPTH:
            f = tg[0]
            if self.handles_stream(f) and f.q.startswith("Omega_h"):
                return self.inline(n, f)
            if f.fid in self.swap_reach():
                old = self.swbits
                self.swbits = None
                if "builtin" in q or "byteswap" in q:
                    self.note_swap(n)
                r = self.inline(n, f)
                b, self.swbits = self.swbits, old
                if b is not None and n["a"]:
                    p = self.path(n["a"][0])
                    byref = not f.params or "&" in f.params[0]["t"] or "*" in f.params[0]["t"]
                    cur = self.x_quiet(n["a"][0])
                    if byref and p and not self.P.callee[n["f"]].get("rt", "void") not in ("void",):
                        pass
                    if f.d.get("rt", n.get("t", "void")) == "void":
                        if p:
                            self.store(p, ("sw", b, cur))
                        self.swbits = b if old is None and self.depth and self.in_swap else old
                        return ("sw", b, cur)
                    return ("sw", b, cur)
                return r
        if "builtin_bswap" in q:
            self.note_swap(n)
            return self.x(n["a"][0])
        if nm in ("compress", "compress2") and len(n["a"]) >= 4:
            src = self.x(n["a"][2])
            et = self.base_type(n["a"][2])
            for i, t in ((0, ("z", et, src)), (1, ("zlen", src))):
                p = self.path(n["a"][i])
                if p:
                    self.store(p, t)
            self.effects.append((nm, None, (src,)))
            return ("f", nm)
        if nm in ("uncompress", "uncompress2") and len(n["a"]) >= 4:
            src = self.x(n["a"][2])
            p = self.path(n["a"][0])
            if p:
                self.store(p, ("unz", self.base_type(n["a"][0]), src))
            self.effects.append((nm, None, (src,)))
            return ("f", nm)
        if q in self.swap_names() and n["a"]:
            # swapping a one-byte type
            return self.x(n["a"][0])
        args = [self.x(a) for a in n.get("a", [])]
        if n.get("op") == "=" and "o" in n and args:
            self.assign(n["o"], args[0], "=")
            return args[0]
        o = (self.x(n["o"]),) if "o" in n else ()
        if k == "ctor":
            if len(args) == 1:
                return args[0]
            return ("new", short(n.get("t", ""))) + tuple(args)
        fe = (self.x(n["fe"]),) if "fe" in n else ()
        if nm.startswith("operator ") and o:
            return o[0]
        # an out-parameter or a container method may change what a local holds
        if nm in ("push_back", "emplace_back") and "o" in n:
            p = self.path(n["o"])
            self.effects.append((nm, self.loc(n["o"]), tuple(args)))
            if p:
                self.store(p + ("[*]",), args[0] if args else ("c", 0))
            return ("void",)
        self.effects.append((nm, o[0] if o else None, tuple(args)))
        if nm in ("data", "nonnull", "c_str", "write", "read", "get", "move", "forward", "deep_copy", "data") and (o or args):
            return (o or tuple(args))[0]
        if nm == "is" and self.P.callee[n["f"]].get("ta"):
            nm = "is<%s>" % self.P.callee[n["f"]]["ta"][0]
        return ("f", nm if nm not in ("length",) else "size") + o + fe + tuple(args)

    in_swap = False
    stopkind = None

    def loc(self, n):
        p = self.path(n)
        return ("loc",) + p if p else self.x(n)

    def x_quiet(self, n):
        e, o = self.effects, self.out
        self.effects, self.out = [], []
        try:
            return self.x(n)
        finally:
            self.effects, self.out = e, o

    def inline(self, n, f):
        self.depth += 1
        self.visited.append(f)
        try:
            for i, p in enumerate(f.params):
                if i >= len(n["a"]):
                    break
                a = n["a"][i]
                t = p["t"]
                self.alias.pop(p["d"], None)
                self.st = {q: v for q, v in self.st.items() if q[0] != "d%s" % p["d"]}
                lv = self.path(a) if ("&" in t or t.rstrip().endswith("*")) else None
                if lv:
                    self.alias[p["d"]] = lv
                else:
                    self.st[("d%s" % p["d"],)] = self.x(a)
            out_s, self.stopped = self.stopped, False
            self.ret = None
            self.stmts([f.body])
            self.stopped = out_s
            r = self.ret if self.ret is not None else ("void",)
            self.ret = None
            return r
        finally:
            self.depth -= 1

    def raw(self, n, nm):
        size = self.x(n["a"][1])
        p = self.path(n["a"][0])
        k = self.k
        self.k += 1
        bt = self.base_type(n["a"][0])
        if nm == "read":
            self.out.append(("raw", k, size, bt, None, n))
            if p:
                if p[-1] == "[]" :
                    p = p[:-1]
                self.store(p, ("in", k))
        else:
            t = self.x(n["a"][0])
            if p and t[0] == "m" and t[1] == "[]":
                t = t[2]
            self.out.append(("raw", k, size, bt, t, n))
            self.written.setdefault(unsw(t), k)
        return ("stream",)

    def base_type(self, n):
        """Type of what the pointer points at, below reinterpret casts."""
        m = n
        while m.get("k") in ("cast", "opaque") and "e" in m:
            m = m["e"]
        if m.get("k") == "call" and last(m.get("_q", "")) == "nonnull" and m["a"]:
            m = m["a"][0]
            while m.get("k") in ("cast", "opaque") and "e" in m:
                m = m["e"]
        t = m.get("t", "")
        return t.replace("const ", "").rstrip("* ").strip()

    # -- statements
    def assign(self, l, t, op):
        p = self.path(l)
        if op != "=":
            t = ("b", op, self.x(l), t)
        if p:
            self.store(p, t)

    def snapshot(self):
        return dict(self.st), dict(self.alias)

    def run(self, f, args=None):
        self.out = []
        self.stopped = False
        self.ret = None
        self.visited.append(f)
        for i, p in enumerate(f.params):
            t = p["t"]
            if args and i in args:
                self.st[("d%s" % p["d"],)] = args[i]
            else:
                self.st[("d%s" % p["d"],)] = ("P", re.sub(r"[&*]|const", "", short(t)).strip())
        self.stmts([f.body])
        return self.out

    def stmts(self, ss):
        """Execute a list of statements; sets self.stopped when control leaves."""
        for i, s in enumerate(ss):
            if self.stopped:
                return
            k = s.get("k")
            if k in ("block", "stmts") or (k is None and "c" in s):
                self.stmts(s["c"])
            elif k == "decl":
                for v in s["c"]:
                    if v.get("k") == "var":
                        self.declare(v)
            elif k == "if":
                if s.get("init"):
                    self.stmts([s["init"]])
                if s.get("cv"):
                    self.stmts([{"k": "decl", "c": [s["cv"]]}])
                t = self.truth(s["cond"])
                if t is True:
                    self.stmts([s["then"]])
                elif t is False:
                    if s.get("else"):
                        self.stmts([s["else"]])
                else:
                    c = self.x_quiet(s["cond"])
                    self.branch(c, [s["then"]], [s["else"]] if s.get("else") else [], ss[i + 1:])
                    return
            elif k in ("for", "while", "rfor", "do"):
                self.loop(s)
            elif k == "ret":
                if s.get("e"):
                    self.ret = self.x(s["e"])
                self.stopped = True
                self.stopkind = "ret"
            elif k in ("break", "cont"):
                self.stopped = True
                self.stopkind = k
            elif k in ("null",):
                pass
            elif k in ("case", "default", "attr", "try", "label"):
                if s.get("body"):
                    self.stmts([s["body"]])
            elif k == "switch":
                c = self.x(s["cond"])
                arms = [y for y in s["body"].get("c", [])]
                labels = [y for y in walk(s["body"]) if y.get("k") == "case"]
                if unsw(c)[0] == "in" and any(type_code(y) for l in labels for y in walk(l["val"])):
                    self.enumcmp.add(unsw(c)[1])
                dec = self.val(c)
                if dec is not None:
                    self.switch_arm(arms, dec)
                    continue
                st0 = self.snapshot()
                evs = []
                cur = None
                for y in arms:
                    while y.get("k") in ("case", "default"):
                        cur = []
                        evs.append(cur)
                        self.st, self.alias = dict(st0[0]), dict(st0[1])
                        self.stopped = False
                        y = y["body"]
                    if cur is None or self.stopped:
                        continue
                    o, self.out = self.out, cur
                    self.stmts([y])
                    self.out = o
                self.stopped = False
                evs = [e for e in evs if e]
                if evs:
                    self.out.append(("switch", c, evs))
            else:
                e = strip_casts(s)
                if e.get("k") == "cond":
                    arms = [strip_casts(e["L"]), strip_casts(e["R"])]
                    fails = [a for a in arms if "f" in a and self.P.noreturn(a)]
                    if fails:
                        t = self.truth(e["cond"])
                        c = self.x_quiet(e["cond"])
                        self.effects.append(("check", None, (c,)))
                        if t is not None and (fails[0] is arms[0]) == t:
                            self.out.append(("fail",))
                            self.stopped = True
                        continue
                self.x(s)

    def switch_arm(self, arms, v):
        """Run the arm of a switch whose value is known."""
        on = None
        flat = []
        for y in arms:
            while y.get("k") in ("case", "default"):
                flat.append(y)
                y = y["body"]
            flat.append(y)
        def label(y):
            return self.val(self.x_quiet(y["val"]))
        for i, y in enumerate(flat):
            if y.get("k") == "case" and label(y) == v:
                on = i
        if on is None:
            for i, y in enumerate(flat):
                if y.get("k") == "default":
                    on = i
        if on is None:
            return
        for y in flat[on:]:
            if y.get("k") in ("case", "default"):
                continue
            if y.get("k") == "break":
                break
            was = self.out
            self.stmts([y])
            if self.stopped:
                if ends_with_break(y):
                    self.stopped = False
                break

    def declare(self, v):
        d = ("d%s" % v["d"],)
        self.alias.pop(v["d"], None)
        i = v.get("i")
        t = v.get("t", "")
        if i is None or (i.get("k") == "ctor" and not i["a"]):
            self.store(d, ("new", short(t)))
            del self.st[d]
            return
        if strip_casts(i).get("k") == "lambda":
            self.lambdas[d] = strip_casts(i)
        if ("&" in t or t.rstrip().endswith("*")) and self.path(i):
            p = self.path(i)
            if p[0].startswith("d") or p[0] == "this":
                self.alias[v["d"]] = p
                return
        self.store(d, self.x(i))

    def branch(self, c, a, b, rest):
        s0 = self.snapshot()
        o0 = self.out
        k0 = self.k
        res = []
        for ss in (a, b):
            self.st, self.alias = dict(s0[0]), dict(s0[1])
            self.out = []
            self.stopped = False
            r0, self.ret = self.ret, self.ret
            self.stmts(ss)
            res.append((self.out, self.stopped, self.snapshot(), self.ret))
        self.out = o0
        (oa, sa, na, ra), (ob, sb, nb, rb) = res
        if oa or ob:
            self.out.append(("if", c, oa, ob))
        if sa and sb:
            self.stopped = True
            self.ret = ("?", c, ra or ("void",), rb or ("void",))
            return
        self.stopped = False
        if sa or sb:
            # the rest runs only when the other side fell through
            self.st, self.alias = nb if sa else na
            fell = oa if sb else ob
            if rest and (oa if sa else ob) != [("fail",)]:
                o, self.out = self.out, []
                self.stmts(rest)
                if self.out:
                    o.append(("if", c, [], self.out) if sa else ("if", c, self.out, []))
                self.out = o
                r = ra if sa else rb
                if r is not None and self.ret is not None:
                    self.ret = ("?", c, r, self.ret)
                return
            self.stmts(rest)
            return
        m = {}
        for p in set(na[0]) | set(nb[0]):
            x, y = na[0].get(p), nb[0].get(p)
            if x == y:
                m[p] = x
            elif x is not None and y is not None:
                m[p] = ("?", c, x, y)
            else:
                m[p] = x if x is not None else y
        self.st = m
        al = dict(na[1])
        al.update(nb[1])
        self.alias = al
        self.stmts(rest)

    def assigned_paths(self, body):
        s = set()
        for y in walk(body):
            t = None
            if y.get("k") == "bin" and y["op"].endswith("=") and y["op"] not in ("==", "!=", "<=", ">="):
                t = y["L"]
            elif y.get("k") == "un" and y["op"] in ("++", "--"):
                t = y["e"]
            if t is not None:
                p = self.path(t)
                if p:
                    s.add(p)
        return s

    def unroll(self, s, start, bound, var):
        """A loop over a small constant range is executed."""
        if start is None or start[0] != "c" or bound[0] != "b" or bound[1] not in ("<", "<=", "!=") or bound[2] != var:
            return False
        b = self.val(bound[3])
        a = start[1]
        if b is None or b - a > 8:
            return False
        inc = strip_casts(s["inc"]) if s.get("inc") else {}
        if inc.get("k") != "un" or inc["op"] != "++":
            return False
        v = [p for p, t in self.st.items() if t == var]
        if len(v) != 1:
            return False
        for i in range(a, b + (bound[1] == "<=")):
            self.store(v[0], ("c", i))
            self.stopkind = None
            self.stmts([s["body"]])
            if self.stopped:
                if self.stopkind == "ret" or self.out and self.out[-1] == ("fail",):
                    break
                self.stopped = False
                if self.stopkind == "break":
                    break
        return True

    def loop(self, s):
        k = s["k"]
        self.loopdepth += 1
        var = ("lv", self.loopdepth)
        start = None
        if k == "for" and s.get("init"):
            self.stmts([s["init"]])
            if s["init"].get("k") == "decl":
                v = s["init"]["c"][0]
                start = self.st.get(("d%s" % v["d"],))
                self.st[("d%s" % v["d"],)] = var
        counters, down = {}, None
        if k == "while":
            for y in walk(s["body"]):
                if y.get("k") == "un" and y["op"] == "++":
                    p = self.path(y["e"])
                    if p and self.st.get(p, ("",))[0] == "c":
                        counters[p] = self.st[p]
            c = strip_casts(s["cond"])
            if c.get("k") == "bin" and c["op"] in (">", "!=") and self.x_quiet(c["R"]) == ("c", 0):
                c = strip_casts(c["L"])
            if c.get("k") == "un" and c["op"] == "--" and c.get("post"):
                down = self.x_quiet(c["e"])
        for p in self.assigned_paths(s["body"]):
            if not (k == "for" and self.st.get(p) == var):
                self.store(p, ("v", str(p[-1])))
        if k == "rfor":
            r = self.x(s["range"])
            bound = ("b", "<", var, ("f", "size", r))
            start = ("c", 0)
            vd = s["var"]
            self.st[("d%s" % vd["d"],)] = ("m", "[]", r)
            self.alias.pop(vd["d"], None)
        else:
            bound = self.x(s["cond"]) if s.get("cond") else ("c", 1)
        if k == "for" and self.unroll(s, start, bound, var):
            self.loopdepth -= 1
            return
        if k == "while":
            c = strip_casts(s["cond"])
            p = None
            if c.get("k") == "bin" and c["op"] in ("<", "<=", "!="):
                p = self.path(c["L"])
            if p and p in counters:
                start = counters[p]
                self.store(p, var)
                bound = self.x(c)
            elif down is not None:
                start, bound = ("c", 0), ("b", "<", var, down)
        o, self.out = self.out, []
        st, self.stopped = self.stopped, False
        self.stmts([s["body"]])
        self.stopped = st
        body, self.out = self.out, o
        if body:
            self.out.append(("loop", start, bound, body))
        for p in self.assigned_paths(s["body"]):
            self.store(p, ("v", str(p[-1])))
        self.loopdepth -= 1


def type_code(n):
    return re.search(r"OMEGA_H_(I|F|REAL)\w*$", str(n.get("en", ""))) is not None


def ends_with_break(y):
    while y.get("k") == "block" and y["c"]:
        y = y["c"][-1]
    return y.get("k") == "break"


def unsw(t):
    while isinstance(t, tuple) and t and t[0] == "sw":
        t = t[2]
    return t


def tstr(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    h = t[0]
    if h == "c" or h == "v" or h == "g":
        return str(t[1])
    if h == "s":
        return '"%s"' % t[1]
    if h == "P":
        return "<%s>" % t[1]
    if h == "m":
        return tstr(t[2]) + (t[1] if t[1] == "[]" else "." + t[1])
    if h == "f":
        return "%s(%s)" % (t[1], ", ".join(tstr(x) for x in t[2:]))
    if h == "b" and len(t) == 4:
        return "%s %s %s" % (tstr(t[2]), t[1], tstr(t[3]))
    if h == "u":
        return t[1] + tstr(t[2])
    if h == "in":
        return "in%d" % t[1]
    if h == "lv":
        return "i%d" % t[1]
    if h == "sw":
        return "swap%d(%s)" % (t[1], tstr(t[2]))
    return "(" + " ".join(tstr(x) for x in t) + ")"


def dump(ev, ind=0):
    out = []
    for e in ev:
        pad = "  " * ind
        if e[0] == "raw":
            out.append(pad + "#%d %s bytes of %s%s" % (e[1], tstr(e[2]), e[3], "" if e[4] is None else " = " + tstr(e[4])))
        elif e[0] == "loop":
            out.append(pad + "loop from %s while %s" % (tstr(e[1]), tstr(e[2])))
            out += dump(e[3], ind + 1)
        elif e[0] == "if":
            out.append(pad + "if " + tstr(e[1]))
            out += dump(e[2], ind + 1)
            if e[3]:
                out.append(pad + "else")
                out += dump(e[3], ind + 1)
        elif e[0] == "switch":
            out.append(pad + "switch " + tstr(e[1]))
            for a in e[2]:
                out += dump(a, ind + 1)
                out.append(pad + " --")
        else:
            out.append(pad + str(e))
    return out
