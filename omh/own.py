"""Ownership: the abstract effect of the functions that hold, share, pool and release memory.

A function is applied to every abstract state of the objects it works on (which handle refers to which
allocation, how many others refer to it, which block is in which list); the states are few because a function
can tell no more of them apart.  The statement forms are those of the language; library containers and the
system's allocator are given by what they promise."""
from .core import *
from .db import Broken


class Violation(Exception):
    pass


class Failed(Exception):
    """The program reports an error and ends."""


class Unseen(Exception):
    """Something this analysis does not understand."""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


OPAQUE = ("opaque",)
NEXT = [0]


class Obj:
    """A class instance or a block of memory; a pointer to it is itself."""
    def __init__(self, cls, **kw):
        NEXT[0] += 1
        self.cls, self.f, self.dead, self.addr = cls, dict(kw), False, 0x1000 * NEXT[0]

    def use(self):
        if self.dead:
            raise Violation("uses %s after it was released" % self.cls)


class It:
    def __init__(self, l, i):
        self.l, self.i = l, i

    def __eq__(self, o):
        return isinstance(o, It) and self.l is o.l and self.i == o.i


class Ptr:
    """The address of a variable or member (d[k])."""
    def __init__(self, d, k):
        self.d, self.k = d, k

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.d is o.d and self.k == o.k

    __hash__ = None


class Alias(Ptr):
    """A reference to a variable or member."""


class Lam:
    def __init__(self, n, env, this):
        self.n, self.env, self.this = n, env, this


WIDTH = {"int": (32, 1), "unsigned int": (32, 0), "long": (64, 1), "unsigned long": (64, 0), "short": (16, 1), "unsigned short": (16, 0), "signed char": (8, 1), "unsigned char": (8, 0)}


def fit(v, t, cast):
    """A whole number in its type: unsigned types wrap, signed arithmetic must not overflow."""
    w = WIDTH.get((t or "").replace("const ", ""))
    if w is None or not isinstance(v, int) or isinstance(v, bool):
        return v
    bits, signed = w
    if not signed:
        return v & ((1 << bits) - 1)
    if -(1 << bits - 1) <= v < 1 << bits - 1:
        return v
    if not cast:
        raise Violation("a number overflows its type")
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> bits - 1 else v


class Own:
    def __init__(self, P, globs, malloc=None, free=None):
        self.P, self.globs, self.malloc, self.free, self.steps, self.depth = P, globs, malloc, free, 0, 0
        self.temps, self.locals = [], []

    # ---- calls
    def call(self, f, this, args):
        if f.body is None:
            raise Unseen(f.q)
        self.depth += 1
        if self.depth > 40:
            raise Unseen("recursion")
        save = getattr(self, "env", None), getattr(self, "this", None)
        outer, self.temps, self.locals = (self.temps, self.locals), [], []
        try:
            self.env = {p["d"]: a for p, a in zip(f.params, args)}
            self.this = this
            for i in f.d.get("inits") or ():
                if i.get("deleg"):
                    g = self.P.by_fid.get(i["e"].get("f"))
                    if g is None:
                        raise Unseen("delegated constructor")
                    e, t = self.env, self.this
                    self.call(g, this, [self(x) for x in i["e"]["a"]])
                    self.env, self.this = e, t
                elif isinstance(this, Obj) and "n" in i:
                    this.f[i["n"]] = self.keep(self(i["e"]))
                self.finish()
            v = None
            try:
                self.run(f.body)
            except Ret as r:
                v = r.v
            self.temps += [x for x in self.locals if x is not v]
            self.finish()
            return v
        finally:
            self.env, self.this = save
            self.temps, self.locals = outer
            self.depth -= 1

    def keep(self, v):
        """A temporary that got a name lives on."""
        self.temps = [x for x in self.temps if x is not v]
        return v

    def finish(self):
        """Temporaries end with the expression they were made in."""
        t, self.temps = self.temps, []
        for x in reversed(t):
            if not x.dead:
                f = next((g for g in self.P.fns if g.q == x.cls + "::~" + x.cls.split("::")[-1] and g.body), None)
                if f is not None:
                    self.call(f, x, [])

    def run(self, n):
        self.steps += 1
        if self.steps > 20000:
            raise Violation("does not end")
        k = n["k"]
        if k == "block":
            for x in n["c"]:
                self.run(x)
        elif k == "decl":
            for x in n["c"]:
                if x["k"] == "var":
                    self.env[x["d"]] = v = self.ref(x["i"], x["t"]) if x["t"].rstrip().endswith("&") and x.get("i") else self.copy(self(x["i"])) if x.get("i") else self.fresh(x["t"])
                    if any(v is y for y in self.temps):
                        self.keep(v)
                        self.locals.append(v)
                    self.finish()
        elif k == "if":
            if n.get("init"):
                self.run(n["init"])
            if self.truth(self(n["cond"])):
                self.run(n["then"])
            elif n.get("else"):
                self.run(n["else"])
        elif k in ("for", "while", "do"):
            if n.get("init"):
                self.run(n["init"])
            first = k == "do"
            while first or not n.get("cond") or self.truth(self(n["cond"])):
                first = False
                self.steps += 1
                if self.steps > 20000:
                    raise Violation("does not end")
                try:
                    if n.get("body"):
                        self.run(n["body"])
                except Brk:
                    break
                except Cont:
                    pass
                if n.get("inc"):
                    self(n["inc"])
        elif k == "switch":
            self.switch(n)
        elif k in ("case", "default"):
            self.run(n["body"])
        elif k == "rfor":
            l = self(n["range"])
            if not isinstance(l, list):
                raise Unseen("range")
            var = n["var"]
            var = var if "d" in var else var["c"][0]
            d, byref = var["d"], (var.get("t") or "").rstrip().endswith("&")
            for i, x in enumerate(list(l)):
                self.env[d] = Alias(l, i) if byref and not isinstance(x, (list, dict)) and i < len(l) and l[i] is x else x
                try:
                    self.run(n["body"])
                except Brk:
                    break
                except Cont:
                    pass
        elif k == "break":
            raise Brk()
        elif k == "cont":
            raise Cont()
        elif k == "ret":
            v = self.keep(self(n["e"])) if n.get("e") else None
            self.finish()
            raise Ret(v)
        elif k == "null":
            pass
        else:
            self(n)
            self.finish()

    def switch(self, n):
        v = self.asint(self(n["cond"]))
        c = n["body"]["c"] if n["body"]["k"] == "block" else [n["body"]]
        at = other = None
        for i, x in enumerate(c):
            while x is not None and x["k"] in ("case", "default"):
                if x["k"] == "default":
                    other = i
                elif at is None and self.asint(self(x["val"])) == v:
                    at = i
                x = x.get("body")
        at = other if at is None else at
        try:
            for x in c[at:] if at is not None else []:
                self.run(x)
        except Brk:
            pass

    def fresh(self, t):
        if "SharedAlloc" in t and "*" not in t:
            return self.construct("Omega_h::SharedAlloc", [])
        if "vector" in t:
            return []
        return ("junk",)

    def copy(self, v):
        return v

    def construct(self, cls, args, f=None):
        o = Obj(cls)
        if f is None:
            f = next((g for g in self.P.fns if g.q == cls + "::" + cls.split("::")[-1] and len(g.params) == len(args) and g.body), None)
        if f is None:
            raise Unseen("constructor of " + cls)
        self.call(f, o, args)
        if cls == "Omega_h::SharedAlloc":
            self.temps.append(o)
        return o

    # ---- places
    def ref(self, n, t=""):
        """What a reference bound to n stands for."""
        n0 = strip_casts(n)
        if n0["k"] in ("mem", "ref", "sub") or n0["k"] == "un" and n0["op"] == "*" or n0["k"] == "call" and (n0.get("op") in ("[]", "*") or (n0.get("_q") or "").split("::")[-1] in ("back", "front", "at")):
            try:
                d, k = self.place(n)
                v = d.get(k, ("junk",)) if isinstance(d, dict) else d[k]
                if not isinstance(v, (list, dict)) and not (isinstance(v, Obj) and "*" not in t and "VoidPtr" not in t):
                    return Alias(d, k)
            except Unseen:
                pass
        return self(n)

    def place(self, n):
        d, k = self.place0(n)
        for _ in range(9):
            v = d.get(k) if isinstance(d, dict) else d[k] if isinstance(d, list) and isinstance(k, int) and -len(d) <= k < len(d) else None
            if not isinstance(v, Alias):
                break
            d, k = v.d, v.k
        return d, k

    def place0(self, n):
        n = strip_casts(n)
        k = n["k"]
        if k == "paren":
            return self.place(n["e"])
        if k == "ref":
            if n.get("g"):
                return self.globs, n["g"].split("::")[-1]
            return self.env, n["d"]
        if k == "mem":
            b = self(n["b"]) if n.get("b") else self.this
            if b is None:
                raise Violation("follows a null pointer")
            if not isinstance(b, Obj):
                raise Violation("follows a value that is not a pointer") if isinstance(b, (int, tuple)) and b != OPAQUE else Unseen("member " + n["n"])
            b.use()
            return b.f, n["n"]
        if k == "sub":
            b, i = self(n["b"]), self(n["i"])
            if not isinstance(b, (list, dict)):
                raise Unseen("subscript")
            if isinstance(b, list) and not 0 <= i < len(b):
                raise Violation("index %d outside a list of %d" % (i, len(b)))
            return b, i
        if k == "un" and n["op"] == "*":
            v = self(n["e"])
            if isinstance(v, It):
                return v.l, v.i
            if isinstance(v, Ptr):
                return v.d, v.k
            if isinstance(v, Obj):
                return {0: v}, 0
        if k == "call":
            a = [n["o"]] + n["a"] if n.get("o") else n["a"]
            nm = (n.get("_q") or "").split("::")[-1]
            v = self(a[0]) if a and (n.get("op") in ("*", "[]") or nm in ("back", "front", "at")) else None
            if isinstance(v, It) and n.get("op") == "*":
                if not 0 <= v.i < len(v.l):
                    raise Violation("writes past the end of a list")
                return v.l, v.i
            if isinstance(v, list):
                i = len(v) - 1 if nm == "back" else 0 if nm == "front" else self.asint(self(a[1]))
                if not 0 <= i < len(v):
                    raise Violation("index %d outside a list of %d" % (i, len(v)))
                return v, i
        if k == "cond":
            return self.place(n["L"] if self.truth(self(n["cond"])) else n["R"])
        raise Unseen("place " + k)

    @staticmethod
    def truth(v):
        if v == ("junk",):
            raise Violation("uses a value that was never set")
        if isinstance(v, (Obj, It, list, Ptr)):
            return True
        if v is OPAQUE:
            raise Unseen("condition")
        return bool(v)

    @staticmethod
    def asint(v):
        if v is None:
            return 0
        if isinstance(v, Obj):
            return v.addr
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if v == ("junk",):
            raise Violation("uses a value that was never set")
        raise Unseen("number")

    def __call__(self, n):
        k = n["k"]
        m = getattr(self, "n_" + k, None)
        if m is None:
            raise Unseen("expression " + str(k))
        return m(n)

    def n_int(self, n):
        return n["v"]

    def n_bool(self, n):
        return bool(n["v"])

    def n_null_ptr(self, n):
        return None

    def n_str(self, n):
        return OPAQUE

    def n_oexpr(self, n):
        return OPAQUE

    def n_float(self, n):
        return OPAQUE

    def n_this(self, n):
        return self.this

    def n_fref(self, n):
        return ("fn", self.P.by_fid.get(n["f"]) or n.get("_q"))

    def n_lambda(self, n):
        return Lam(n, self.env if any(c.get("ref") for c in n["caps"]) else dict(self.env), self.this)

    def n_init(self, n):
        try:
            return [self(x) for x in n["a" if "a" in n else "c"]]
        except (Unseen, KeyError):
            return OPAQUE

    def n_sizeof(self, n):
        if "v" not in n:
            raise Unseen("sizeof")
        return n["v"]

    def n_paren(self, n):
        return self(n["e"])

    def n_cast(self, n):
        if "v" in n and n["v"] is not None and not isinstance(n["v"], str):
            return n["v"]
        v = self(n["e"])
        ck = n.get("ck")
        if ck in ("PointerToIntegral",):
            return self.asint(v)
        if ck == "IntegralToPointer":
            v = self.asint(v)
            if v == 0:
                return None
            o = self.globs["objects"].get(v)
            return o if o is not None else v
        if ck in ("PointerToBoolean", "IntegralToBoolean"):
            return self.truth(v)
        if ck == "IntegralCast":
            return fit(v, n.get("t"), True)
        return v

    def n_ref(self, n):
        d, k = self.place(n)
        if isinstance(d, dict) and k not in d:
            if d is self.globs:
                raise Unseen("global " + k)
            raise Unseen("variable " + str(n.get("n")))
        return d[k]

    def n_mem(self, n):
        d, k = self.place(n)
        if isinstance(d, dict) and k not in d:
            return ("junk",)
        return d[k]

    def n_sub(self, n):
        d, k = self.place(n)
        return d[k]

    def n_cond(self, n):
        if n.get("m") in ("OMEGA_H_CHECK", "OMEGA_H_CHECK_MSG", "OMEGA_H_CHECK_PRINTF"):
            if not self.truth(self(n["cond"])):
                raise Failed()
            return None
        return self(n["L"] if self.truth(self(n["cond"])) else n["R"])

    def n_un(self, n):
        op = n["op"].replace("post", "").replace("pre", "").strip("x")
        if op in ("++", "--"):
            d, k = self.place(n["e"])
            old = d.get(k, ("junk",)) if isinstance(d, dict) else d[k]
            new = self.asint(old) + (1 if op == "++" else -1)
            d[k] = new
            return old if n.get("post") else new
        if op == "&":
            try:
                d, k = self.place(n["e"])
                v = d.get(k, ("junk",)) if isinstance(d, dict) else d[k]
                if isinstance(v, (Obj, list, dict)) and (n.get("t") or "").count("*") < 2:
                    return v
                return Ptr(d, k)
            except Unseen:
                return self(n["e"])
        v = self(n["e"]) if op != "*" else None
        if op == "!":
            return not self.truth(v)
        if op == "~":
            return ~self.asint(v) & (2 ** 64 - 1)
        if op == "-":
            return -self.asint(v)
        if op == "*":
            d, k = self.place(n)
            return d.get(k, ("junk",)) if isinstance(d, dict) else d[k]
        raise Unseen("operator " + op)

    def n_bin(self, n):
        op = n["op"]
        if op == ",":
            self(n["L"])
            return self(n["R"])
        if op in ("&&", "||"):
            a = self.truth(self(n["L"]))
            return (a and self.truth(self(n["R"]))) if op == "&&" else (a or self.truth(self(n["R"])))
        if op == "=":
            v = self(n["R"])
            d, k = self.place(n["L"])
            d[k] = v
            return v
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            r = self(n["R"])
            d, k = self.place(n["L"])
            d[k] = self.arith(op[:-1], d[k] if k in d or isinstance(d, list) else ("junk",), r)
            return d[k]
        return fit(self.arith(op, self(n["L"]), self(n["R"])), n.get("t"), False)

    def arith(self, op, a, b):
        if op in ("==", "!="):
            if isinstance(a, (It, Ptr)) or isinstance(b, (It, Ptr)):
                e = a == b
            else:
                e = self.asint(a) == self.asint(b)
            return e if op == "==" else not e
        if OPAQUE in (a, b):
            return OPAQUE
        if isinstance(a, It) and isinstance(b, int):
            return It(a.l, a.i + b if op == "+" else a.i - b)
        if isinstance(a, It) and isinstance(b, It) and op == "-":
            return a.i - b.i
        a, b = self.asint(a), self.asint(b)
        if op in ("<<",) and b > 63:
            raise Violation("shifts by %d" % b)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b, "%": lambda: a % b, "&": lambda: a & b, "|": lambda: a | b,
                "^": lambda: a ^ b, "<<": lambda: a << b & (2 ** 64 - 1), ">>": lambda: a >> b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()

    def n_new(self, n):
        cls = n["t"].replace("const ", "")
        i = n.get("i")
        if i is None or i["k"] != "ctor":
            raise Unseen("new " + cls)
        o = Obj(cls)
        f = self.P.by_fid.get(i["f"])
        args = [self(x) for x in i["a"]]
        self.globs["objects"][o.addr] = o
        self.globs["made"].append(o)
        if f is not None and f.body is not None:
            self.call(f, o, args)
        else:
            self.plain(o)
        return o

    def plain(self, o):
        pass

    def n_delete(self, n):
        o = self(n["e"])
        if o is None:
            return None
        if not isinstance(o, Obj):
            raise Violation("deletes a value that is not an object")
        o.use()
        f = next((g for g in self.P.fns if g.q == o.cls + "::~" + o.cls.split("::")[-1] and g.body), None)
        if f is not None:
            self.call(f, o, [])
        o.dead = True
        return None

    def n_ctor(self, n):
        t = n["t"].replace("const ", "").strip()
        if n.get("cp") and n["a"]:
            v = self(n["a"][0])
            if isinstance(v, Obj) and v.cls == "Omega_h::SharedAlloc":
                f = self.P.by_fid.get(n["f"])
                if f is not None and f.body is not None:
                    return self.construct(v.cls, [v], f)
            return v
        if t == "Omega_h::SharedAlloc":
            f = self.P.by_fid.get(n["f"])
            return self.construct(t, [self(x) for x in n["a"]], f)
        if t.startswith("std::vector<"):
            if t.endswith("]"):
                return [[] for _ in range(int(t[t.rindex("[") + 1:-1]))]
            return []
        if "function<" in t and n["a"]:
            return self(n["a"][0])
        vs = []
        for x in n.get("a", []):
            try:
                vs.append(self(x))
            except Unseen:
                pass
        return vs[0] if len(vs) == 1 and isinstance(vs[0], It) else OPAQUE

    def n_call(self, n):
        q = n.get("_q") or ""
        nm = q.split("::")[-1]
        f = self.P.by_fid.get(n.get("f"))
        if nm in ("fail", "Omega_h_fail", "abort"):
            raise Failed()
        if q in ("std::move", "std::forward"):
            return self(n["a"][0])
        if nm in ("malloc", "calloc") and self.malloc:
            return self.malloc(self.asint(self(n["a"][0])))
        if nm == "free" and self.free:
            return self.free(self(n["a"][0]), None)
        if n.get("op") and not (f is not None and f.body is not None and f.cls):
            a = [n["o"]] + n["a"] if n.get("o") else n["a"]
            if n["op"] in ("==", "!=", "-", "+") and len(a) == 2:
                return self.arith(n["op"], self(a[0]), self(a[1]))
            if n["op"] == "*" and len(a) == 1:
                v = self(a[0])
                if isinstance(v, It):
                    if not 0 <= v.i < len(v.l):
                        raise Violation("reads past the end of a list")
                    return v.l[v.i]
            if n["op"] == "++":
                v = self(a[0])
                if isinstance(v, It):
                    d, k = self.place(a[0])
                    d[k] = It(v.l, v.i + 1)
                    return d[k]
            if n["op"] == "[]":
                b, i = self(a[0]), self(a[1])
                if isinstance(b, list):
                    if not 0 <= i < len(b):
                        raise Violation("index %d outside a list of %d" % (i, len(b)))
                    return b[i]
            if n["op"] == "()":
                return self.apply(self(a[0]), [self(x) for x in a[1:]])
            if n["op"] == "=":
                v = self(a[1])
                d, k = self.place(a[0])
                d[k] = v
                return v
            if n["op"] == "<<":
                return OPAQUE
        if nm == "operator()" and n.get("o"):
            return self.apply(self(n["o"]), [self(x) for x in n["a"]])
        if q.startswith("std::"):
            return self.std(n, q, nm)
        if f is None:
            fs = [x for x in self.P.targets(n) if x.body is not None]
            f = fs[0] if len(fs) == 1 else None
        if f is not None and f.body is not None and (f.q.startswith("Omega_h::") or f.cls):
            if f.q.split("::")[-1] in ("begin_code", "end_code", "parallel_for") or "ScopedTimer" in f.q or "profile" in f.file:
                return None
            this = self(n["o"]) if n.get("o") else None
            args = [self.ref(x, p["t"]) if p["t"].rstrip().endswith("&") and "const" not in p["t"] and "&&" not in p["t"] else self(x) for x, p in zip(n["a"], f.params)]
            if isinstance(this, Obj):
                this.use()
            env = self.env, self.this
            try:
                return self.call(f, this if f.cls else None, args)
            finally:
                self.env, self.this = env
        for x in n.get("a", []):
            try:
                self(x)
            except Unseen:
                pass
        return OPAQUE

    def apply(self, fn, args):
        if callable(fn):
            return fn(*args)
        if isinstance(fn, Lam):
            save = self.env, self.this
            self.env, self.this = dict(fn.env), fn.this
            for p, a in zip(fn.n["ps"], args):
                self.env[p["d"]] = a
            try:
                self.run(fn.n["body"])
            except Ret as r:
                return r.v
            finally:
                own = {p["d"] for p in fn.n["ps"]}
                fn.env.update((k, v) for k, v in self.env.items() if k in fn.env and k not in own)
                self.env, self.this = save
            return None
        if isinstance(fn, tuple) and fn[:1] == ("fn",):
            if isinstance(fn[1], str):
                raise Unseen(fn[1])
            env = self.env, self.this
            try:
                return self.call(fn[1], None, args)
            finally:
                self.env, self.this = env
        raise Unseen("call of a value")

    def std(self, n, q, nm):
        o = self(n["o"]) if n.get("o") else None
        a = [self(x) for x in n["a"]]
        if isinstance(o, list):
            if nm == "empty":
                return not o
            if nm == "size":
                return len(o)
            if nm in ("back", "front", "pop_back") and not o:
                raise Violation("%s of an empty list" % nm)
            if nm == "back":
                return o[-1]
            if nm == "front":
                return o[0]
            if nm == "pop_back":
                o.pop()
                return None
            if nm in ("push_back", "emplace_back"):
                o.append(a[0])
                return None
            if nm == "clear":
                o.clear()
                return None
            if nm in ("begin", "cbegin"):
                return It(o, 0)
            if nm in ("end", "cend"):
                return It(o, len(o))
            if nm == "erase":
                if not isinstance(a[0], It) or a[0].l is not o or not 0 <= a[0].i < len(o):
                    raise Violation("erases an entry that is not in the list")
                del o[a[0].i]
                return It(o, a[0].i)
            if nm == "at":
                if not 0 <= a[0] < len(o):
                    raise Violation("index outside a list")
                return o[a[0]]
        if isinstance(o, str):
            if nm in ("size", "length"):
                return len(o)
            if nm == "empty":
                return not o
            if nm == "c_str" or nm == "data":
                return o
            if nm == "compare" and a and isinstance(a[-1], str):
                x = o if len(a) == 1 else o[self.asint(a[0]):self.asint(a[0]) + self.asint(a[1])]
                return (x > a[-1]) - (x < a[-1])
            if nm in ("find", "rfind") and a and isinstance(a[0], str):
                i = getattr(o, nm)(a[0])
                return i if i >= 0 else 2 ** 64 - 1
            if nm == "substr":
                i = self.asint(a[0])
                return o[i:i + self.asint(a[1])] if len(a) > 1 and a[1] is not OPAQUE else o[i:]
        if nm in ("find_if", "find", "any_of") and len(a) == 3 and isinstance(a[0], It) and isinstance(a[1], It) and a[0].l is a[1].l:
            for i in range(a[0].i, a[1].i):
                x = a[0].l[i]
                hit = self.truth(self.apply(a[2], [x])) if nm != "find" else self.asint(x) == self.asint(a[2])
                if hit:
                    return It(a[0].l, i) if nm != "any_of" else True
            return It(a[0].l, a[1].i) if nm != "any_of" else False
        if nm == "iter_swap" or nm == "swap" and len(a) == 2:
            if nm == "swap":
                d, k = self.place(n["a"][0])
                e, j = self.place(n["a"][1])
            else:
                d, k, e, j = a[0].l, a[0].i, a[1].l, a[1].i
            d[k], e[j] = e[j], d[k]
            return None
        if nm in ("max", "min") and len(a) == 2:
            return max(self.asint(a[0]), self.asint(a[1])) if nm == "max" else min(self.asint(a[0]), self.asint(a[1]))
        if nm == "prev" and isinstance(a[0], It):
            return It(a[0].l, a[0].i - 1)
        if nm == "next" and isinstance(a[0], It):
            return It(a[0].l, a[0].i + 1)
        return OPAQUE
