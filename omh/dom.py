"""Index sets: which set of things an array is over, and which set its elements number.

A type inference over host code and kernels.  Every array value carries two index sets (the set it has one
entry, or one fixed-width block of entries, for; and the set its integer elements number or point into), every
integer carries the set it numbers or counts.  Sets are union-find variables; some are bound to a definite
set: the entities of one dimension of one mesh, the marked members of another set, the entries of an upward
adjacency, the images of a fan.  Two different definite sets meeting is a conflict."""
from .core import walk, strip, strip_casts, show, short

import re

UP = 0


class S:
    __slots__ = ("p", "rig", "why")

    def __init__(self, rig=None, why=None):
        self.p = None
        self.rig = rig
        self.why = why


def find(s):
    if _TRAILS[0]:
        while s.p is not None:
            s = s.p
        return s
    while s.p is not None:
        if s.p.p is not None:
            s.p = s.p.p
        s = s.p
    return s


_TRAILS = [0]    # open branches whose unifications may be taken back: no path compression meanwhile
_ALIAS = set()   # meshes some of whose entity sets were declared equal to other sets


# ---- dimension terms: (symbol or None, offset) -------------------------------------------------------------
def term_add(t, k):
    return None if t is None else (t[0], t[1] + k)


def term_diff(a, b):
    """Are two dimension terms certainly different?"""
    if a is None or b is None:
        return False
    if a[0] == b[0]:
        return a[1] != b[1]
    for x, y in ((a, b), (b, a)):
        if x[0] is None and y[0] is not None and y[0][0] == "dim":
            return x[1] - y[1] not in (1, 2, 3)
    if a[0] is not None and b[0] is not None and a[0][0] in ("p", "v") and b[0][0] in ("p", "v"):
        return not (a[0][0] == b[0][0] == "v" and a[0][1] == b[0][1])  # rounds of one loop
    return False


def rig_diff(a, b):
    """Are two definite sets certainly different?"""
    if a == b:
        return False
    for x, y in ((a, b), (b, a)):
        if x[0] == "join":
            return all(find(m).rig is not None and rig_diff(find(m).rig, y) for m in x[1])
    for x in (a, b):
        if x[0] == "ent" and x[1] in _ALIAS and x[2][0] is not None and not (a[0] == b[0] == "ent" and a[1] == b[1]):
            return False
    if a[0] == "ent" and b[0] == "ent":
        if a[1] != b[1]:
            return True
        return term_diff(a[2], b[2])
    if a[0] == "up" and b[0] == "up":
        if a[1] != b[1]:
            return True
        return term_diff(a[2], b[2]) or term_diff(a[3], b[3])
    if "letter" in (a[0], b[0]) and "sk" in (a[0], b[0]):
        return False
    if a[0] == "sk" and b[0] == "sk":
        if a[1] == b[1]:
            return term_diff(a[3], b[3])
        return "fan" not in (a[2], b[2]) or a[2] == b[2]  # the marked members are the images of the marks' scan
    return True


# ---- values ---------------------------------------------------------------------------------------------
class Arr:
    __slots__ = ("dom", "el", "memo", "ww")

    def __init__(self, dom=None, el=None, memo=None):
        self.dom = dom or S()
        self.el = el or S()
        self.memo = {} if memo is None else memo  # sets derived from this very array (marked, scanned)


class Num:
    """An integer: S set (hard), soft (an integer parameter), or plain (a width, counter or constant)."""
    __slots__ = ("s", "soft", "term", "diff")

    def __init__(self, s=None, soft=False, term=None):
        self.s = s
        self.soft = soft
        self.term = term


class Rec:
    __slots__ = ("t", "f")

    def __init__(self, t, f):
        self.t = t
        self.f = f


class Mesh:
    __slots__ = ("key", "dim")

    def __init__(self, key, dim=None):
        self.key = key
        self.dim = dim if dim is not None else (("dim", key), 0)


class Vec:
    """A small fixed-size vector of integers."""
    __slots__ = ("el",)

    def __init__(self, el=None):
        self.el = el or S()


class DimArr:
    """Several values of one type, told apart by a dimension term."""
    __slots__ = ("t", "by", "init")

    def __init__(self, t, by=None):
        self.t = t
        self.by = by if by is not None else {}
        self.init = {}  # values as they were before the function wrote them


class Fun:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n


class Ptr:
    """The address of a variable, or of one of several values."""
    __slots__ = ("d", "arr", "t")

    def __init__(self, d, arr=None, t=None):
        self.d = d
        self.arr = arr
        self.t = t

    def get(self, ev):
        return ev.dimget(self.arr, Num(None, False, self.t)) if self.arr is not None else ev.env.get(self.d)

    def set(self, ev, v):
        if self.arr is not None:
            if self.t is not None:
                self.arr.by[self.t] = v
        else:
            ev.env[self.d] = v


PLAIN = Num()


class Uninit:
    pass


UNINIT = Uninit()


class Opaque:
    """A value the rules say nothing about."""


OPAQUE = Opaque()

INT_T = re.compile(r"^(const )?(int|long|unsigned int|unsigned long|long long|signed char|unsigned char|short)( const)?( &)?$")
ARR_T = re.compile(r"^(const )?(Omega_h::)?(Read|Write|HostRead|HostWrite)<")


def base_t(t):
    t = t.strip()
    while True:
        u = t
        if t.startswith("const "):
            t = t[6:]
        for e in ("&", " const", "&&"):
            if t.endswith(e):
                t = t[: -len(e)].strip()
        if t == u:
            break
    return t.replace("Omega_h::", "")


class Summary:
    __slots__ = ("params", "ret", "outs", "rekey", "ents", "done", "fn")

    def __init__(self, fn):
        self.fn = fn
        self.params = []
        self.ret = None
        self.outs = {}
        self.rekey = set()
        self.ents = {}
        self.done = False


class Conflict:
    __slots__ = ("fn", "node", "a", "b", "what", "fname")

    def __init__(self, fn, node, a, b, what):
        self.fn, self.node, self.a, self.b, self.what = fn, node, a, b, what


class Infer:
    def __init__(self, P, sigs, skip=lambda f: False):
        self.P = P
        self.sigs = sigs
        self.sum = {}
        self.fam = {}
        self.conf = []
        self.skip = skip
        self.n = 0
        self.stats = {"unify": 0, "match": 0, "calls": 0, "sig": 0, "index": 0, "kernels": 0, "fns": 0}
        self.trace = False

    # ---- fresh values by declared type
    def fresh(self, t, tag=None, mesh=None):
        """A value of declared type t about which nothing is known."""
        b = base_t(t)
        if ARR_T.match(b):
            if b.endswith("]") or b.endswith("*"):
                return DimArr(b.rstrip("*]0123456789[ "))
            return Arr()
        if b.startswith("Few<Read<") or b.startswith("Few<Write<"):
            return DimArr(b[4:].rsplit(",", 1)[0])
        if b.startswith("std::array<Read<"):
            return DimArr(b[11:].rsplit(",", 1)[0])
        if INT_T.match(t.strip()) or INT_T.match(b):
            return Num(S(), True, (("p", tag), 0) if tag is not None else None)
        if b in ("Graph", "Adj", "Children"):
            AB = S()
            f = {"a2ab": Arr(S(), AB), "ab2b": Arr(AB, S())}
            if b != "Graph":
                f["codes"] = Arr(AB)
            return Rec(b, f)
        if b == "Parents":
            d = S()
            return Rec(b, {"parent_idx": Arr(d), "codes": Arr(d)})
        if b == "Remotes":
            d = S()
            return Rec(b, {"ranks": Arr(d), "idxs": Arr(d)})
        if b == "Dist":
            return Rec(b, {"fr": S(), "fi": S(), "ri": S(), "rr": S()})
        if b.rstrip(" *") == "Mesh":
            return Mesh(("m", tag) if tag is not None else self.newkey())
        if re.match(r"^Few<(int|long), \d+>$", b):
            return Vec()
        return None

    def newkey(self):
        self.n += 1
        return ("new", self.n)

    def sk(self, why):
        self.n += 1
        return S(("sk", self.n, why, None))

    # ---- summaries
    def summary(self, f):
        s = self.sum.get(f.fid)
        if s is not None:
            return s if s.done else None
        s = self.sum[f.fid] = Summary(f)
        Eval(self, f).run(s)
        s.done = True
        return s


class Dead(Exception):
    pass


class Eval:
    def __init__(self, I, f, rig=None):
        self.I = I
        self.P = I.P
        self.f = f
        self.env = {}
        self.ents = {}   # (meshkey, term) -> S
        self.ups = {}
        self.rets = []
        self.grets = []
        self.keyedges = {}
        self.dead = False
        self.brk = []
        self.depth = 0
        self.trail = None
        self.facts = {}
        self.inlam = 0
        self.tagarr = {}
        self.dimof = {}
        self.joins = {}
        self.undone = {}

    # ---- sets
    def ent(self, m, t):
        if t is None:
            return S()
        t = self.norm(m, t)
        k = (m.key, t)
        if k not in self.ents:
            self.ents[k] = S(("ent", m.key, t))
        return self.ents[k]

    def setent(self, m, t, s):
        """The entities of this dimension are declared to be this set."""
        self.ents[(m.key, t)] = s
        _ALIAS.add(m.key)

    def norm(self, m, t):
        return t

    def up(self, m, lo, hi):
        if lo is None or hi is None:
            return S()
        k = (m.key, lo, hi)
        if k not in self.ups:
            self.ups[k] = S(("up", m.key, lo, hi))
        return self.ups[k]

    def unify(self, a, b, n, what):
        I = self.I
        I.stats["unify"] += 1
        a, b = find(a), find(b)
        if a is b:
            if a.rig:
                I.stats["match"] += 1
            return
        if a.rig and b.rig:
            if a.rig == b.rig:
                I.stats["match"] += 1
                return
            if rig_diff(self.known(a.rig), self.known(b.rig)):
                I.conf.append(Conflict(self.f, n, a.rig, b.rig, what))
            return
        if a.rig:
            a, b = b, a
        if b.rig and self.facts:
            r = self.known(b.rig)
            if r != b.rig:
                b = self.ents.setdefault((r[1], r[2]), S(r)) if r[0] == "ent" else S(r)
                b = find(b)
                if a is b:
                    return
        a.p = b
        if self.trail is not None:
            self.trail.append(a)

    def open_branch(self):
        t0 = self.trail
        self.trail = []
        _TRAILS[0] += 1
        return t0

    def close_branch(self, t0):
        """What a branch taken only for some dimensions taught about constant dimensions does not hold outside it."""
        tr = self.trail
        for x in reversed(tr):
            r = x.p.rig
            if r and r[0] in ("ent", "up") and any(isinstance(t, tuple) and t[0] is None for t in r[2:]):
                self.undone.setdefault(id(x), (x, []))[1].append(x.p)
                x.p = None
            elif t0 is not None:
                t0.append(x)
        _TRAILS[0] -= 1
        self.trail = t0

    def known(self, r):
        """A set's description under the dimensions known in this branch."""
        if not self.facts:
            return r
        f = self.facts

        def ft(t):
            if t is not None and t[0] in f and f[t[0]] is not None:
                return (f[t[0]][0], f[t[0]][1] + t[1])
            return t
        if r[0] == "join":
            return r
        return tuple(ft(x) if isinstance(x, tuple) and len(x) == 2 and i >= 2 and x[0] != "new" else x for i, x in enumerate(r))

    def unival(self, a, b, n, what):
        """Two values that must be of the same kind."""
        if a is b or a is None or b is None or a is UNINIT or b is UNINIT:
            return
        if isinstance(a, Arr) and isinstance(b, Arr):
            self.unify(a.dom, b.dom, n, what)
            self.unify(a.el, b.el, n, what + " (elements)")
        elif isinstance(a, Num) and isinstance(b, Num):
            if a.s is not None and b.s is not None:
                self.unify(a.s, b.s, n, what)
        elif isinstance(a, Vec) and isinstance(b, Vec):
            self.unify(a.el, b.el, n, what)
        elif isinstance(a, Rec) and isinstance(b, Rec):
            for k in a.f:
                if k in b.f:
                    x, y = a.f[k], b.f[k]
                    if isinstance(x, S) and isinstance(y, S):
                        self.unify(x, y, n, what)
                    else:
                        self.unival(x, y, n, what + "." + k)
        elif isinstance(a, DimArr) and isinstance(b, DimArr):
            # formal, actual: what the callee read must fit, what it wrote is there afterwards
            for k, v in a.init.items():
                if k in b.by:
                    self.unival(v, b.by[k], n, what)
                else:
                    b.by[k] = v
            for k, v in a.by.items():
                if k not in a.init or a.init[k] is not v:
                    b.by[k] = v

    # ---- running a function
    def run(self, s):
        f = self.f
        self.I.stats["fns"] += 1
        for i, p in enumerate(f.params):
            v = self.I.fresh(p["t"], i)
            s.params.append(v)
            self.env[p["d"]] = v
        self.this = None
        if f.cls in ("Omega_h::Mesh", "Omega_h::Dist"):
            self.this = Mesh(("m", "this")) if f.cls.endswith("Mesh") else self.I.fresh("Dist")
        s0 = dict(self.env)
        if f.body is not None:
            self.stmt(f.body)
        # what at least two of the branches for different dimensions agree on
        for x, ps in self.undone.values():
            x = find(x)
            if len(ps) > 1 and all(p.rig == ps[0].rig for p in ps) and not x.rig and x is not ps[0]:
                x.p = ps[0]
        # result
        r = None
        rets = [v for v in self.rets if v is not UNINIT]
        if rets:
            r = rets[-1]
            for v in rets[:-1]:
                r = self.join(v, r)
        elif self.grets:
            r = self.grets[-1]
            for v in self.grets[:-1]:
                r = self.join(v, r)
        s.ret = r
        for i, p in enumerate(f.params):
            v0, v1 = s0[p["d"]], self.env.get(p["d"])
            if isinstance(v0, Mesh) and isinstance(v1, Mesh) and v0.key != v1.key:
                s.rekey.add(i)
            elif v0 is not v1 and p["t"].rstrip().endswith("&") and not p["t"].startswith("const"):
                s.outs[i] = v1
        s.ents = {k: v for k, v in self.ents.items()
                  if find(v).rig != ("ent", k[0], k[1]) and (k[1][0] is None or k[1][0][0] in ("p", "dim"))}
        if self.this is not None and isinstance(self.this, Mesh) and self.this.key != ("m", "this"):
            s.rekey.add("this")

    # ---- joins
    def join(self, a, b):
        if a is b:
            return a
        if a is UNINIT:
            return b
        if b is UNINIT:
            return a
        if a is None or b is None:
            return None
        if isinstance(a, Arr) and isinstance(b, Arr):
            d = self.joinset(a.dom, b.dom)
            e = a.el if find(a.el) is find(b.el) else (b.el if self.loose(a.el) else a.el if self.loose(b.el) else self.joinset(a.el, b.el))
            if not find(a.dom).rig and not a.memo and find(a.dom) is not find(b.dom):
                d = S()
            return Arr(d, e, a.memo if a.memo is b.memo else {})
        if isinstance(a, Num) and isinstance(b, Num):
            if a.s is None and b.s is None:
                return a if a.term == b.term else Num()
            if a.s is None:
                return b
            if b.s is None:
                return a
            if find(a.s) is find(b.s):
                return a if a.term == b.term else Num(a.s, a.soft and b.soft)
            if self.loose(a.s) or self.loose(b.s):
                return None
            return Num(self.joinset(a.s, b.s), a.soft and b.soft)
        if isinstance(a, Vec) and isinstance(b, Vec):
            return a if find(a.el) is find(b.el) else Vec()
        if isinstance(a, Rec) and isinstance(b, Rec):
            f = {}
            for k in a.f:
                if k in b.f:
                    x, y = a.f[k], b.f[k]
                    if isinstance(x, S):
                        f[k] = self.joinset(x, y)
                    else:
                        f[k] = self.join(x, y)
            return Rec(a.t, f)
        if isinstance(a, Mesh) and isinstance(b, Mesh):
            if a.key == b.key:
                return a
            return Mesh(self.I.newkey(), a.dim if a.dim == b.dim else None)
        if isinstance(a, DimArr) and isinstance(b, DimArr):
            by = {}
            for k in set(a.by) | set(b.by):
                if k in a.by and k in b.by:
                    by[k] = self.join(a.by[k], b.by[k])
                else:
                    by[k] = a.by.get(k) or b.by.get(k)
            return DimArr(a.t, by)
        return None

    def joinset(self, a, b):
        """One of two sets, depending on the path."""
        a, b = find(a), find(b)
        if a is b:
            return a
        if not a.rig or not b.rig:
            return S()
        ms = []
        for x in (a, b):
            for m in x.rig[1] if x.rig[0] == "join" else (x,):
                if not any(find(m) is find(y) or find(m).rig == find(y).rig for y in ms):
                    ms.append(find(m))
        if len(ms) == 1:
            return ms[0]
        return self.joined(ms)

    def joined(self, ms):
        k = frozenset(id(m) for m in ms)
        if k not in self.joins:
            self.joins[k] = (ms, S(("join", tuple(ms))))
        return self.joins[k][1]

    def loose(self, s):
        return find(s).rig is None

    def joinenv(self, e1, e2):
        out = {}
        for k in e1:
            if k in e2:
                out[k] = e1[k] if e1[k] is e2[k] else self.join(e1[k], e2[k])
        for k in e2:
            if k not in e1:
                out[k] = e2[k]
        for k in e1:
            if k not in e2:
                out[k] = e1[k]
        return out

    # ---- statements
    def stmt(self, n):
        if n is None:
            return
        k = n.get("k")
        if self.dead and k not in ("case", "default"):
            return
        m = getattr(self, "s_" + k, None) if k else None
        if m:
            return m(n)
        self.ex(n)

    def s_block(self, n):
        for x in n.get("c", ()):
            self.stmt(x)

    def s_decl(self, n):
        for v in n.get("c", ()):
            if v.get("k") == "var":
                self.declare(v)

    def declare(self, v):
        t = v.get("t", "")
        if v.get("i") is None:
            x = self.I.fresh(t)
            if isinstance(x, Num):
                x = UNINIT
            elif isinstance(x, Arr):
                x = UNINIT
            self.env[v["d"]] = x
            return
        x = self.ex(v["i"])
        if x is OPAQUE:
            self.env[v["d"]] = None
            return
        if x is None:
            y = self.I.fresh(t)
            if isinstance(y, (DimArr, Vec)):
                x = y
            elif isinstance(y, Mesh) and t.strip().endswith("Mesh"):
                x = y
        self.env[v["d"]] = x

    def s_if(self, n):
        if n.get("init"):
            self.stmt(n["init"])
        if n.get("cv"):
            self.stmt(n["cv"])
        self.ex(n.get("cond"))
        subs = self.guard(n.get("cond"))
        e0 = dict(self.env)
        self.guards = getattr(self, "guards", [])
        self.guards.append(bool(subs))
        f0 = self.facts
        if subs:
            t0 = self.open_branch()
            self.facts = dict(f0)
            self.facts.update({a: b for a, b in subs if a != "any"})
        self.stmt(n.get("then"))
        if subs:
            self.close_branch(t0)
            self.facts = f0
        self.guards.pop()
        e1, d1 = self.env, self.dead
        if subs and not d1:
            for sub in subs:
                e1 = {k: (self.subst(v, sub) if e0.get(k) is not v else v) for k, v in e1.items()}
        nullchk = self.nullcheck(n.get("cond"))
        self.env, self.dead = dict(e0), False
        if n.get("else"):
            if subs:
                self.guards.append(True)
                t0 = self.open_branch()
            self.stmt(n["else"])
            if subs:
                self.close_branch(t0)
                self.guards.pop()
        e2, d2 = self.env, self.dead
        if d1 and d2:
            self.dead = True
        elif d1:
            self.env, self.dead = e2, False
        elif d2 or (nullchk and not n.get("else")):
            self.env, self.dead = e1, False
        else:
            self.env, self.dead = self.joinenv(e1, e2), False

    def nullcheck(self, c):
        c = strip_casts(c) if c else None
        while c and c.get("k") == "call" and c.get("_q", "").endswith("::exists"):
            return True
        if c and c.get("k") == "ref" and c.get("t", "").endswith("*"):
            return True
        if c and c.get("k") == "bin" and c["op"] == "!=" and strip_casts(c["R"]).get("k") == "null_ptr":
            return True
        return False

    def guard(self, c):
        """x == constant: what is fixed inside the branch: (dimension symbol or "any", its value)."""
        c = strip_casts(c) if c else None
        if not c or c.get("k") != "bin":
            return []
        if c["op"] in ("&&", "||"):
            x = self.guard(c["L"]) + self.guard(c["R"])
            return x if c["op"] == "&&" or not x else [("any", None)]
        if c["op"] not in ("==", "!=", "<", ">", "<=", ">="):
            return []
        if any(x.get("k") == "int" and x.get("en", "").split("::")[-1].startswith("OMEGA_H_") for x in (strip_casts(c["L"]), strip_casts(c["R"]))):
            return []
        if any("double" in x.get("t", "") for x in (c["L"], c["R"])):
            return []
        a, b = self.ex(c["L"]), self.ex(c["R"])
        for x, y, e in ((a, b, c["R"]), (b, a, c["L"])):
            if isinstance(y, Num) and y.term and y.term[0] is None or strip_casts(e).get("k") == "int":
                if c["op"] == "==" and isinstance(x, Num) and x.term and x.term[0] is not None:
                    return [(x.term[0], (None, y.term[1] - x.term[1]))]
                if c["op"] in ("==",) and (x is None or isinstance(x, Num) and (x.s is None or x.soft)) and not self.inlam:
                    return [("any", None)]
        if isinstance(a, Num) and isinstance(b, Num) and a.term and b.term:
            if c["op"] == "==" and a.term[0] is not None:
                return [(a.term[0], (b.term[0], b.term[1] - a.term[1]))]
            return [("any", None)]
        return []

    def subst(self, v, sub):
        """The value as it is known to be where the dimension symbol has that value."""
        if sub[0] == "any":
            return v
        memo = {}

        def ft(t):
            if t is not None and t[0] == sub[0]:
                return (sub[1][0], sub[1][1] + t[1])
            return t

        def fs(s):
            s = find(s)
            return self.resym(s, ft) if s.rig else s
        return copyval(v, fs, lambda k: k, ft, memo)

    def s_for(self, n):
        if n.get("init"):
            self.stmt(n["init"])
        i = n.get("init")
        # loop variable takes the set of its bound
        if i and i.get("k") == "decl" and len(i["c"]) == 1:
            v = i["c"][0]
            x = self.env.get(v["d"])
            if isinstance(x, Num) and x.s is None:
                c = strip_casts(n["cond"]) if n.get("cond") else None
                b = None
                if c and c.get("k") == "bin" and c["op"] in ("<", "!=", "<="):
                    L = strip_casts(c["L"])
                    if L.get("k") == "ref" and L["d"] == v["d"]:
                        b = self.ex(c["R"])
                y = Num(None, False, (("v", v["d"], self.I.n), 0))
                if isinstance(b, Num) and b.s is not None and not b.soft:
                    y = Num(b.s)
                self.I.n += 1
                self.env[v["d"]] = y
        self.loop(n.get("cond"), n.get("body"), n.get("inc"))

    def loop(self, cond, body, inc=None):
        e0 = dict(self.env)
        if cond:
            self.ex(cond)
        self.brk.append([])
        for rnd in (0, 1):
            self.stmt(body)
            self.dead = False
            e1 = self.env
            if inc is not None and rnd == 0:
                x = strip_casts(inc)
                if x.get("k") == "un" and x["op"] in ("++", "--") and strip_casts(x["e"]).get("k") == "ref":
                    d = strip_casts(x["e"])["d"]
                    v = e0.get(d)
                    if isinstance(v, Num) and v.s is None and v.term and v.term[0] and v.term[0][0] == "v":
                        self.I.n += 1
                        new = ("v", d, self.I.n)
                        sub = (v.term[0], (new, -1 if x["op"] == "++" else 1))
                        e1 = {k: (self.subst(w, sub) if e0.get(k) is not w else w) for k, w in e1.items()}
                        e1[d] = Num(None, False, (new, 0))
                        e0 = dict(e0)
                        e0[d] = e1[d]
            e = self.joinenv(e0, e1)
            if all(e.get(k) is e0.get(k) for k in e0):
                self.env = e
                break
            self.env = e
        for b in self.brk.pop():
            self.env = self.joinenv(self.env, b)

    def s_while(self, n):
        self.loop(n.get("cond"), n.get("body"))

    def s_do(self, n):
        self.brk.append([])
        self.stmt(n.get("body"))
        for b in self.brk.pop():
            self.env = self.joinenv(self.env, b)
        self.dead = False
        self.ex(n.get("cond"))

    def s_rfor(self, n):
        self.ex(n.get("range"))
        v = n.get("var")
        if v:
            self.env[v["d"]] = self.I.fresh(v.get("t", "")) if not INT_T.match(v.get("t", "")) else Num(S(), True)
        self.loop(None, n.get("body"))

    def s_switch(self, n):
        self.ex(n.get("cond"))
        e0 = dict(self.env)
        self.brk.append([])
        dims = not any(x.get("k") == "case" and "OMEGA_H_" in str((strip_casts(x.get("val") or {})).get("en", "")) for x in walk(n))
        self.guards = getattr(self, "guards", [])
        self.guards.append(dims)
        if dims:
            t0 = self.open_branch()
        else:
            t0 = None
        self.sw = getattr(self, "sw", []) + [[e0, t0, dims]]
        self.stmt(n.get("body"))
        t0 = self.sw.pop()[1]
        self.guards.pop()
        if dims:
            self.close_branch(t0)
        out = self.env if not self.dead else None
        self.dead = False
        for b in self.brk.pop():
            out = b if out is None else self.joinenv(out, b)
        self.env = self.joinenv(out, e0) if out is not None else e0

    def s_case(self, n):
        if self.dead:
            self.env, self.dead = dict(self.sw[-1][0]), False
            if self.sw[-1][2]:  # what one value of the dimension implies says nothing about the next
                self.close_branch(self.sw[-1][1])
                self.sw[-1][1] = self.open_branch()
        self.stmt(n.get("body") or n.get("c") if isinstance(n.get("body") or n.get("c"), dict) else None)
        if isinstance(n.get("c"), list):
            for x in n["c"]:
                self.stmt(x)

    s_default = s_case

    def s_break(self, n):
        if self.brk:
            self.brk[-1].append(dict(self.env))
        self.dead = True

    s_continue = s_break

    def s_ret(self, n):
        v = self.ex(n["e"]) if n.get("e") else None
        g = [x for x in getattr(self, "guards", []) if x]
        if g and n.get("e") and not self.inlam:
            self.grets.append(v)
        if self.inlam:
            self.lamret.append(v)
        elif not g:
            self.rets.append(v)
        self.dead = True

    def s_throw(self, n):
        self.dead = True

    def s_try(self, n):
        self.stmt(n.get("body"))
        self.dead = False

    def s_attr(self, n):
        for x in n.get("c", ()) if isinstance(n.get("c"), list) else ([n["c"]] if n.get("c") else []):
            self.stmt(x)
        if n.get("body"):
            self.stmt(n["body"])

    # ---- expressions
    def ex(self, n):
        if n is None:
            return None
        k = n.get("k")
        m = getattr(self, "e_" + k, None) if k else None
        if m:
            return m(n)
        # unknown: evaluate children for their effects
        for c in _kids(n):
            if c.get("k") not in ("lambda",):
                self.ex(c)
        return None

    def e_int(self, n):
        return Num(None, False, (None, n["v"]))

    def e_ref(self, n):
        d = n.get("d")
        if d in self.env:
            return self.env[d]
        if INT_T.match(n.get("t", "")):
            if "v" in n:
                return Num(None, False, (None, n["v"]))
            return PLAIN if n.get("g") else None
        return None

    def e_this(self, n):
        return self.this

    def e_cast(self, n):
        v = self.ex(n["e"])
        if isinstance(v, Num) and n.get("ck") == "FloatingToIntegral":
            return None
        if isinstance(v, Num) and "double" in n.get("t", ""):
            return None
        return v

    def e_opaque(self, n):
        return self.ex(n["e"]) if n.get("e") else None

    def e_init(self, n):
        c = [self.ex(x) for x in n.get("c", ()) if x]
        if len(c) == 1:
            return c[0]
        return None

    def e_oexpr(self, n):
        return self.ex(n["e"]) if n.get("e") else None

    def e_lambda(self, n):
        return Fun(n)

    def e_cond(self, n):
        self.ex(n["cond"])
        a, b = self.ex(n["L"]), self.ex(n["R"])
        return self.join(a, b)

    def e_sub(self, n):
        b, i = self.ex(n["b"]), self.ex(n["i"])
        if isinstance(b, Arr):
            return self.index(b, i, n)
        if isinstance(b, Vec):
            return Num(b.el)
        if isinstance(b, DimArr):
            return self.dimget(b, i)
        return None

    def dimget(self, b, i):
        t = i.term if isinstance(i, Num) else None
        if t is None:
            return self.I.fresh(b.t)
        if t not in b.by:
            fam = [k for k in b.by if k[0] is not None and k[0][0] == "v" and k not in b.init]
            if len(fam) == 1 and not (t[0] == fam[0][0]):
                b.by[t] = self.instance(b.by[fam[0]], fam[0], t)
                return b.by[t]
            b.by[t] = b.init[t] = self.I.fresh(b.t)
        return b.by[t]

    def instance(self, v, key, t):
        """One member of a family of values that a loop made for every dimension."""
        fam = self.I.fam
        sym, off = key

        def ft(x):
            return (t[0], t[1] - off + x[1]) if x is not None and x[0] == sym else x

        def fs(s):
            s = find(s)
            if s.rig and s.rig[0] == "join":
                return self.joined([find(fs(m)) for m in s.rig[1]])
            if s.rig and s.rig[0] == "ent" or s.rig and s.rig[0] == "up":
                return self.resym(s, ft)
            k = (id(s), t)
            if k not in fam:
                fam[k] = (s, S(("sk", s.rig[1], s.rig[2], t) if s.rig else None))
            return fam[k][1]
        return copyval(v, fs, lambda k: k, ft, {})

    def resym(self, s, ft):
        r = s.rig
        if r[0] == "join":
            ms = [self.resym(find(m), ft) if find(m).rig else find(m) for m in r[1]]
            return s if all(x is y for x, y in zip(ms, r[1])) else self.joined(ms)
        if r[0] == "ent":
            t = ft(r[2])
            if t != r[2]:
                k = (r[1], t)
                if k not in self.ents:
                    self.ents[k] = S(("ent",) + k)
                return self.ents[k]
        if r[0] == "up":
            lo, hi = ft(r[2]), ft(r[3])
            if (lo, hi) != r[2:4]:
                k = (r[1], lo, hi)
                if k not in self.ups:
                    self.ups[k] = S(("up",) + k)
                return self.ups[k]
        return s

    def index(self, a, i, n):
        self.I.stats["index"] += 1
        if isinstance(i, Num) and i.s is not None:
            self.unify(a.dom, i.s, n, "index into %s" % show(n.get("o") or n.get("b")))
        return Num(a.el)

    def e_mem(self, n):
        b = self.ex(n["b"]) if n.get("b") else None
        if isinstance(b, Rec):
            v = b.f.get(n["n"])
            if v is not None:
                return v if not isinstance(v, S) else None
        t = n.get("t", "")
        if b is not None and isinstance(b, (Mesh,)):
            return None
        if base_t(t).rstrip(" *") == "Mesh":
            k = "mem:" + show(n)
            if k not in self.env:
                self.env[k] = Mesh(self.I.newkey())
            return self.env[k]
        v = self.I.fresh(t)
        if isinstance(v, Num):
            return PLAIN if v.soft and n.get("cls", "").startswith("Omega_h::Dist") else None
        return v

    def e_un(self, n):
        e = self.ex(n["e"])
        op = n["op"]
        if op in ("++", "--"):
            return e
        if op == "&":
            x = strip_casts(n["e"])
            if x.get("k") == "ref":
                v = self.env.get(x["d"])
                if isinstance(v, Mesh):
                    return v
                return Ptr(x["d"])
            while x.get("k") == "init" and len(x.get("c", [])) == 1:
                x = x["c"][0]
            if x.get("k") == "sub" or (x.get("k") == "call" and x.get("op") == "[]"):
                b = self.ex(x.get("b") or x.get("o"))
                i = self.ex(x.get("i") or x["a"][0])
                if isinstance(b, DimArr):
                    return Ptr(None, b, i.term if isinstance(i, Num) else None)
                if isinstance(b, Arr):
                    return Vec(b.el)
            return e
        if op == "*":
            if isinstance(e, Ptr):
                return e.get(self)
            if isinstance(e, DimArr):
                return self.dimget(e, Num(None, False, (None, 0)))
            return e
        if op == "-":
            if isinstance(e, Num) and e.s is None and e.term and e.term[0] is None:
                return Num(None, False, (None, -e.term[1]))
            return None if not isinstance(e, Num) or e.s is not None else PLAIN
        if op == "!":
            return PLAIN
        return None

    def e_sizeof(self, n):
        return PLAIN

    def e_bin(self, n):
        op = n["op"]
        if op == "=":
            r = self.ex(n["R"])
            self.assign(n["L"], r, n)
            return r
        if op in ("+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="):
            r = self.ex(n["R"])
            l = self.ex(n["L"])
            L = strip_casts(n["L"])
            if L.get("k") == "ref":
                v = self.arith(op[:-1], l, r)
                self.env[L["d"]] = v if not isinstance(v, Num) or v.s is not None or v.term is None else PLAIN
                if isinstance(self.env[L["d"]], Num) and self.env[L["d"]].term and self.inloop():
                    self.env[L["d"]] = Num(self.env[L["d"]].s)
            return l
        if op == ",":
            self.ex(n["L"])
            return self.ex(n["R"])
        a, b = self.ex(n["L"]), self.ex(n["R"])
        if op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
            return PLAIN
        return self.arith(op, a, b)

    def inloop(self):
        return True

    def arith(self, op, a, b):
        """Index arithmetic: adding a plain number, or scaling by a width, keeps the set."""
        if not (isinstance(a, Num) and isinstance(b, Num)):
            x = a if isinstance(a, Num) else b if isinstance(b, Num) else None
            if op in ("*", "/") and x is a and x is not None and x.s is not None and not x.soft:
                return Num(x.s)
            if op == "*" and x is not None and x.s is not None and not x.soft:
                return Num(x.s)
            return None
        ha, hb = a.s is not None and not a.soft, b.s is not None and not b.soft
        sa, sb = a.s is not None and a.soft, b.s is not None and b.soft
        t = None
        if a.term is not None and b.term is not None:
            if op == "+" and b.term[0] is None:
                t = term_add(a.term, b.term[1])
            elif op == "+" and a.term[0] is None:
                t = term_add(b.term, a.term[1])
            elif op == "-" and b.term[0] is None:
                t = term_add(a.term, -b.term[1])
            elif op == "-" and a.term[0] == b.term[0]:
                t = (None, a.term[1] - b.term[1])
            elif op == "*" and a.term[0] is None and b.term[0] is None:
                t = (None, a.term[1] * b.term[1])
        if op == "*":
            if ha and hb:
                return None
            if ha or hb:
                return Num((a if ha else b).s)
            if sa and sb:
                return None
            if sa or sb:
                return Num((a if sa else b).s, True)
            return Num(None, False, t)
        if op == "/":
            if ha and hb:
                return PLAIN
            if ha:
                return Num(a.s)
            if sa and not sb and not hb:
                return Num(a.s, True)
            if a.s is None and b.s is None:
                return PLAIN
            return None
        if op == "%":
            return PLAIN
        if op == "+":
            if ha and hb:
                return Num(a.s) if find(a.s) is find(b.s) and False else None
            if ha or hb:
                return Num((a if ha else b).s)
            if sa and sb:
                return None
            if sa or sb:
                return Num((a if sa else b).s, True, t)
            return Num(None, False, t)
        if op == "-":
            if ha and b.s is None:
                return Num(a.s)
            if sa and b.s is None:
                return Num(a.s, True, t)
            if a.s is None and b.s is None:
                return Num(None, False, t)
            if t is not None:
                return Num(None, False, t)
            if a.s is not None and b.s is not None:
                return PLAIN
            return None
        return None

    def assign(self, L, v, n):
        L = strip_casts(L)
        k = L.get("k")
        if k == "ref":
            old = self.env.get(L["d"])
            if isinstance(old, Vec) and isinstance(v, Num):
                return
            self.env[L["d"]] = v
        elif k == "un" and L["op"] == "*":
            p = self.ex(L["e"])
            if isinstance(p, Ptr):
                p.set(self, v)
            elif isinstance(p, DimArr):
                p.by[(None, 0)] = v
            elif isinstance(p, Mesh):
                x = strip_casts(L["e"])
                if x.get("k") == "ref" and isinstance(v, Mesh):
                    self.env[x["d"]] = v
                elif x.get("k") == "this" and isinstance(v, Mesh):
                    self.this = v
        elif k == "sub" or (k == "call" and L.get("op") == "[]"):
            base = L.get("b") or L.get("o")
            ie = L.get("i") or L["a"][0]
            b = self.ex(base)
            i = self.ex(ie)
            if isinstance(b, Ptr):
                b = b.get(self)
            if isinstance(b, Arr):
                e = self.index(b, i, L)
                if isinstance(v, Num) and v.s is not None and not isinstance(v, Uninit):
                    self.unify(e.s, v.s, n, "element of %s" % show(base))
            elif isinstance(b, Vec):
                if isinstance(v, Num) and v.s is not None:
                    self.unify(b.el, v.s, n, "entry of %s" % show(base))
            elif isinstance(b, DimArr):
                if isinstance(i, Num) and i.term is not None:
                    b.by[i.term] = v
        elif k == "mem":
            b = self.ex(L["b"]) if L.get("b") else None
            if isinstance(b, Rec) and v is not None:
                x = strip_casts(L["b"])
                if x.get("k") == "ref":
                    self.env[x["d"]] = Rec(b.t, dict(b.f, **{L["n"]: v}))
        else:
            self.ex(L)

    # ---- calls
    def e_ctor(self, n):
        a = n.get("a", [])
        t = base_t(n.get("t", ""))
        if (n.get("cp") or n.get("mv")) and a:
            v = self.ex(a[0])
            if isinstance(v, (DimArr,)):
                w = DimArr(v.t, dict(v.by))
                w.init = dict(v.init)
                return w
            if isinstance(v, Rec):
                return v
            if isinstance(v, Mesh) and t == "Mesh":
                return v
            return v
        vs = [self.ex(x) for x in a]
        if ARR_T.match(t):
            if not a:
                return UNINIT
            v0 = vs[0]
            if isinstance(v0, Arr):
                return v0
            if v0 is UNINIT:
                return UNINIT
            if isinstance(v0, Num):
                d = v0.s if v0.s is not None else S()
                if len(vs) >= 3 and all(isinstance(v, Num) and v.term for v in vs[1:3]) and (vs[1].term, vs[2].term) == ((None, 0), (None, 1)):
                    return Arr(d, d)  # the identity
                return Arr(d)
            return Arr()
        if t in ("Graph", "Adj", "Children"):
            if not a:
                return UNINIT
            if len(vs) == 1 and isinstance(vs[0], Rec):
                return Rec(t, dict(vs[0].f))
            arrs = [v if isinstance(v, Arr) else Arr() for v in vs]
            if len(vs) == 1:
                return Rec(t, {"ab2b": arrs[0]})
            if len(vs) == 2:
                cal = self.I.P.callee[n["f"]] if "f" in n else None
                t2 = base_t(a[1].get("t", ""))
                if "I8" in t2 or "signed char" in t2:
                    self.unify(arrs[0].dom, arrs[1].dom, n, "codes of an adjacency")
                    return Rec(t, {"ab2b": arrs[0], "codes": arrs[1]})
                self.unify(arrs[0].el, arrs[1].dom, n, "offsets and entries of a graph")
                return Rec(t, {"a2ab": arrs[0], "ab2b": arrs[1]})
            if len(vs) == 3:
                self.unify(arrs[0].el, arrs[1].dom, n, "offsets and entries of a graph")
                self.unify(arrs[1].dom, arrs[2].dom, n, "codes of an adjacency")
                return Rec(t, {"a2ab": arrs[0], "ab2b": arrs[1], "codes": arrs[2]})
            return None
        if t == "Remotes":
            if len(vs) == 2:
                x, y = [v if isinstance(v, Arr) else Arr() for v in vs]
                self.unify(x.dom, y.dom, n, "ranks and indices of remotes")
                return Rec(t, {"ranks": x, "idxs": y})
            return self.I.fresh(t) if not a else (vs[0] if isinstance(vs[0], Rec) else None)
        if t == "Parents":
            if len(vs) == 2:
                x, y = [v if isinstance(v, Arr) else Arr() for v in vs]
                self.unify(x.dom, y.dom, n, "indices and codes of parents")
                return Rec(t, {"parent_idx": x, "codes": y})
            return self.I.fresh(t)
        if t == "Dist":
            if len(vs) == 3:
                d = S()
                rem, nr = vs[1], vs[2]
                ri = self.I.sk("received items")
                rr = nr.s if isinstance(nr, Num) and nr.s is not None else S()
                if isinstance(rem, Rec) and rem.t == "Remotes":
                    d = rem.f["idxs"].dom
                    self.unify(rem.f["idxs"].dom, rem.f["ranks"].dom, n, "remotes")
                    e = rem.f["idxs"].el
                    self.unify(e, rr, n, "destination indices")
                return Rec(t, {"fr": d, "fi": d, "ri": ri, "rr": rr})
            return self.I.fresh(t)
        if t == "Mesh":
            return Mesh(self.I.newkey())
        if re.match(r"^Few<Read<|^Few<Write<", t):
            return self.I.fresh(t)
        if re.match(r"^Few<(int|long), \d+>$", t):
            return Vec()
        if len(vs) == 1 and isinstance(vs[0], (Arr, Rec, Mesh)):
            return None
        if t.startswith("(lambda"):
            return vs[0] if vs and isinstance(vs[0], Fun) else None
        return None

    def e_call(self, n):
        q = n.get("_q", "")
        op = n.get("op")
        a = n.get("a", [])
        I = self.I
        if q in ("std::move", "std::forward") and a:
            return self.ex(a[0])
        if "o" in n and op == "=":
            r = self.ex(a[0])
            self.assign(n["o"], r, n)
            return r
        if "o" in n and op == "[]":
            b = self.ex(n["o"])
            i = self.ex(a[0])
            if isinstance(b, Ptr):
                b = b.get(self)
            if isinstance(b, Arr):
                return self.index(b, i, n)
            if isinstance(b, Vec):
                return Num(b.el)
            if isinstance(b, DimArr):
                return self.dimget(b, i)
            return None
        if op in ("->", "*") and "o" in n and not a:
            return self.ex(n["o"])
        if op == "()" and "o" in n:
            fv = self.ex(n["o"])
            av = [self.ex(x) for x in a]
            if isinstance(fv, Fun):
                return self.kernel(fv.n, av)
            return None
        o = self.ex(n["o"]) if n.get("o") else None
        if isinstance(o, Ptr):
            o = o.get(self)
        q = re.sub(r"<.*>(?=::)", "", q)
        if q.startswith("Omega_h::"):
            q = q[9:]
        av = [self.ex(x) for x in a]
        h = I.sigs.get(q)
        if h is not None:
            r = h(self, n, o, av)
            if r is not NotImplemented:
                I.stats["sig"] += 1
                return r
        t = self.P.by_fid.get(n.get("f"))
        if t is not None and not I.skip(t):
            I.stats["calls"] += 1
            s = I.summary(t)
            if s is not None:
                return self.apply(n, s, o, av)
        rt = n.get("t", "")
        for x in a:  # unknown callee: variables passed by address are overwritten
            y = strip_casts(x)
            if y.get("k") == "un" and y["op"] == "&" and strip_casts(y["e"]).get("k") == "ref":
                d = strip_casts(y["e"])["d"]
                if not isinstance(self.env.get(d), Mesh):
                    self.env[d] = self.I.fresh(strip_casts(y["e"]).get("t", ""))
        r = I.fresh(rt)
        return None if isinstance(r, Num) else r

    def kernel(self, lam, av):
        """The body of a lambda, entered with these argument values."""
        ps = lam.get("ps", [])
        for p, v in zip(ps, av):
            self.env[p["d"]] = v
        dead, ret, brk = self.dead, getattr(self, "lamret", None), self.brk
        g = getattr(self, "guards", [])
        self.guards = []
        self.lamret = []
        self.brk = []
        self.inlam += 1
        self.stmt(lam["body"])
        self.inlam -= 1
        r = None
        if self.lamret:
            r = self.lamret[-1]
            for v in self.lamret[:-1]:
                r = self.join(v, r)
        self.dead, self.lamret, self.brk = dead, ret, brk
        self.guards = g
        return r

    def lam_of(self, v, n):
        if isinstance(v, Fun):
            return v.n
        return None

    def apply(self, n, s, o, av):
        """Instantiate a function's summary at a call."""
        I = self.I
        keys, dims = {}, {}
        for i, (p, v) in enumerate(zip(s.params, av)):
            if isinstance(v, Ptr):
                v = v.get(self)
            if isinstance(p, Mesh):
                keys[p.key] = v if isinstance(v, Mesh) else Mesh(I.newkey())
            if isinstance(p, Num) and p.term is not None:
                dims[p.term[0]] = v.term if isinstance(v, Num) else None
        if isinstance(o, Mesh):
            keys[("m", "this")] = o
        memo = {}
        smemo = {}

        def fk(k):
            if k in keys:
                return keys[k].key
            k2 = (k, "k")
            if k2 not in memo:
                memo[k2] = I.newkey()
            return memo[k2]

        def ft(t):
            if t is None or t[0] is None:
                return t
            if t[0] in dims:
                d = dims[t[0]]
                return None if d is None else (d[0], d[1] + t[1])
            if t[0][0] == "dim":
                m = keys.get(t[0][1])
                if m is not None and m.dim is not None:
                    return (m.dim[0], m.dim[1] + t[1])
                return (("dim", fk(t[0][1])), t[1])
            return t

        def fs(x):
            x = find(x)
            if id(x) in smemo:
                return smemo[id(x)][1]
            r = x.rig
            if r is None:
                y = S()
            elif r[0] == "join":
                y = self.joined([find(fs(m)) for m in r[1]])
            elif r[0] == "ent":
                t = ft(r[2])
                if t is None:
                    y = S()
                else:
                    k = (fk(r[1]), t)
                    if k not in self.ents:
                        self.ents[k] = S(("ent",) + k)
                    y = self.ents[k]
            elif r[0] == "up":
                lo, hi = ft(r[2]), ft(r[3])
                if lo is None or hi is None:
                    y = S()
                else:
                    k = (fk(r[1]), lo, hi)
                    if k not in self.ups:
                        self.ups[k] = S(("up",) + k)
                    y = self.ups[k]
            else:
                y = I.sk(r[2])
            smemo[id(x)] = (x, y)
            return y
        # sets of a mesh parameter that the callee gave a meaning
        for (mk, t), v in s.ents.items():
            if mk in keys:
                t2 = ft(t)
                if t2 is not None:
                    self.ents[(fk(mk), t2)] = fs(v)
                    _ALIAS.add(fk(mk))
        for i, (p, v) in enumerate(zip(s.params, av)):
            pv = v
            if isinstance(v, Ptr):
                pv = v.get(self)
            if isinstance(p, (Mesh, type(None))):
                continue
            formal = copyval(p, fs, fk, ft, memo)
            if isinstance(v, Ptr) and isinstance(p, DimArr):
                # out parameter: the callee's *p afterwards
                x = p.init.get((None, 0))
                if x is not None:
                    self.unival(copyval(x, fs, fk, ft, memo), pv, n, "argument %s of %s" % (s.fn.params[i]["n"], s.fn.name))
                x = p.by.get((None, 0))
                if x is not None:
                    v.set(self, copyval(x, fs, fk, ft, memo))
                continue
            name = s.fn.params[i]["n"]
            self.unival(formal, pv, n, "argument %s of %s" % (name, s.fn.name))
        for i, v in s.outs.items():
            x = strip_casts(n["a"][i]) if i < len(n["a"]) else None
            if x is not None and x.get("k") == "ref":
                self.env[x["d"]] = copyval(v, fs, fk, ft, memo)
        for i in s.rekey:
            if i == "this":
                self.rekey(n.get("o"), o)
            elif i < len(n["a"]):
                self.rekey(n["a"][i], av[i])
        r = copyval(s.ret, fs, fk, ft, memo)
        if r is None:
            y = I.fresh(n.get("t", ""))
            if not isinstance(y, Num):
                r = y
        return r

    def rekey(self, x, m):
        """The mesh this expression names has been rebuilt."""
        if not isinstance(m, Mesh) or x is None:
            return
        nm = Mesh(self.I.newkey(), m.dim)
        x = strip_casts(x)
        while x.get("k") == "un" and x["op"] in ("&", "*"):
            x = strip_casts(x["e"])
        if x.get("k") == "ref":
            self.env[x["d"]] = nm
            for k, v in list(self.env.items()):
                if isinstance(v, Mesh) and v.key == m.key:
                    self.env[k] = nm
        elif x.get("k") == "this":
            self.this = nm


def _kids(n):
    from .core import kids
    return kids(n)


def copyval(v, fs, fk, ft, memo):
    if v is None or v is UNINIT or isinstance(v, (Fun, Ptr)):
        return v
    if id(v) in memo:
        return memo[id(v)][1]
    if isinstance(v, Arr):
        r = Arr(fs(v.dom), fs(v.el))
    elif isinstance(v, Num):
        r = Num(fs(v.s) if v.s is not None else None, v.soft, ft(v.term))
    elif isinstance(v, Vec):
        r = Vec(fs(v.el))
    elif isinstance(v, Rec):
        r = Rec(v.t, {k: (fs(x) if isinstance(x, S) else copyval(x, fs, fk, ft, memo)) for k, x in v.f.items()})
    elif isinstance(v, Mesh):
        r = Mesh(fk(v.key), ft(v.dim))
    elif isinstance(v, DimArr):
        r = DimArr(v.t, {ft(k): copyval(x, fs, fk, ft, memo) for k, x in v.by.items() if ft(k) is not None})
        r.init = {ft(k): copyval(x, fs, fk, ft, memo) for k, x in v.init.items() if ft(k) is not None}
    else:
        r = None
    memo[id(v)] = (v, r)
    return r
