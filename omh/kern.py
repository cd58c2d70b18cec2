"""Functional normal forms of kernels and helpers.

A function is executed symbolically once: locals are substituted away, loops with constant bounds are
unrolled, other loops become folds / existential conditions over a binder, branches become conditional
terms, and stores to arrays become events guarded by their path condition.  Names of locals, helper
functions, the order of independent statements and the way a loop is written leave no trace."""
from .core import *
from .iox import last

TRUE, FALSE = ("c", True), ("c", False)


def isc(t):
    return t[0] == "c" and isinstance(t[1], (int, bool))


# ------------------------------------------------------------------ integers
def lin(t):
    """Linear form: {term: coefficient}, constant under key 1."""
    if isc(t):
        return {1: int(t[1])}
    if t[0] == "+":
        d = {1: t[1]}
        for c, x in t[2]:
            d[x] = d.get(x, 0) + c
        return d
    return {t: 1}


def unlin(d):
    c = d.get(1, 0)
    xs = tuple(sorted(((v, k) for k, v in d.items() if k != 1 and v != 0), key=repr))
    if not xs:
        return ("c", c)
    if c == 0 and len(xs) == 1 and xs[0][0] == 1:
        return xs[0][1]
    return ("+", c, xs)


def add(a, b, s=1):
    d = dict(lin(a))
    for k, v in lin(b).items():
        d[k] = d.get(k, 0) + s * v
    return unlin(d)


def mul(a, b):
    if isc(b):
        a, b = b, a
    if isc(a):
        return unlin({k: v * int(a[1]) for k, v in lin(b).items()})
    return ("*",) + tuple(sorted((a, b), key=repr))


def distinct(a, b):
    """Certainly different integers."""
    d = {k: v for k, v in lin(add(a, b, -1)).items() if v != 0}
    c = d.pop(1, 0)
    if not d:
        return c != 0
    return all(v % 2 == 0 for v in d.values()) and c % 2 == 1


# ------------------------------------------------------------------ booleans
def neg(t):
    if isc(t):
        return ("c", not t[1])
    if t[0] == "not":
        return t[1]
    if t[0] == "<":
        return ("<=", t[2], t[1])
    if t[0] == "<=":
        return ("<", t[2], t[1])
    return ("not", t)


def conj(*ts):
    work = []
    for t in ts:
        work.extend(t[1:] if t[0] == "and" else (t,))
    out = []
    pend = []
    for x in work:
        if isc(x):
            if not x[1]:
                return FALSE
            continue
        (pend if x[0] == "not" and x[1][0] == "and" else out).append(x)
    lits = []
    for x in out:
        if x not in lits:
            if neg(x) in lits:
                return FALSE
            lits.append(x)
    while True:
        nxt = []
        grew = False
        for x in pend:              # not (a and b ...)
            rest = []
            sat = False
            for y in x[1][1:]:
                if y in lits:
                    continue
                if neg_deep(y) in lits:
                    sat = True
                    break
                rest.append(y)
            if sat:
                continue
            if not rest:
                return FALSE
            if len(rest) == 1:
                z = neg_deep(rest[0])
                for w in (z[1:] if z[0] == "and" else (z,)):
                    if neg(w) in lits:
                        return FALSE
                    if w not in lits:
                        lits.append(w)
                grew = True
            else:
                z = ("not", ("and",) + tuple(rest)) if len(rest) < len(x[1]) - 1 else x
                if z not in nxt:
                    nxt.append(z)
        pend = nxt
        if not grew:
            break
    lits += pend
    if not lits:
        return TRUE
    return lits[0] if len(lits) == 1 else ("and",) + tuple(sorted(lits, key=repr))


def isbool(t):
    return t[0] in ("not", "<", "<=", "==", "and", "ex") or isc(t) and isinstance(t[1], bool) or t[0] == "ite" and isbool(t[2]) and isbool(t[3])


def disj(*ts):
    return neg_deep(conj(*[neg_deep(t) for t in ts]))


def neg_deep(t):
    if t[0] == "and":
        return ("not", t)
    if t[0] == "not" and t[1][0] == "and":
        return t[1]
    return neg(t)


def ite(c, a, b):
    if isc(c):
        return a if c[1] else b
    if a == b:
        return a
    if c[0] == "not":
        return ite(c[1], b, a)
    if a == TRUE and b == FALSE:
        return c
    if a == FALSE and b == TRUE:
        return neg_deep(c)
    if isbool(a) and isbool(b):
        if a == TRUE:
            return disj(c, b)
        if a == FALSE:
            return conj(neg_deep(c), b)
        if b == TRUE:
            return disj(neg_deep(c), a)
        if b == FALSE:
            return conj(c, a)
    return ("ite", c, a, b)


def ex(b, c):
    """There is a b in its range with c."""
    if isc(c) and not c[1]:
        return c
    if not contains(c, lambda x: x == b):
        return conj(("<", b[1], b[2]), c)
    return ("ex", b, c)


def contains(t, pred):
    if not isinstance(t, tuple):
        return False
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if pred(x):
                return True
            st.extend(x)
    return False


def subst(t, f, memo=None):
    """Bottom-up rewriting of subterms by f (None: keep)."""
    memo = {} if memo is None else memo
    if not isinstance(t, tuple):
        return t
    if t in memo:
        return memo[t]
    r = f(t)
    if r is None:
        r = tuple(subst(x, f, memo) for x in t)
    memo[t] = r
    return r


class Event:
    def __init__(self, kind, data, pc, binders, node, fn):
        self.kind, self.data, self.pc, self.binders, self.node, self.fn = kind, data, pc, binders, node, fn


class Give(Exception):
    pass


class Kern:
    MAXDEPTH = 8
    UNROLL = 14
    versions = False        # reads of an array written before are marked with the number of events so far

    def __init__(self, P, inline=None, opaque=(), hook=None, fold=None, maxdepth=None):
        self.P = P
        self.inline_if = inline or (lambda f: False)
        self.hook = hook
        self.env = {}
        self.alias = {}
        self.lam = {}
        self.pc = []
        self.binders = []
        self.events = []
        self.loops = []         # (binder, break condition, {state variable: (initial value, next value)})
        self.alive = True
        self.made = {}         # array -> how many loops around, and which conditions hold, where it is made
        self.jumps = []         # (kind, frame id, pc, env)
        self.frames = []
        self.n = 0
        self.depth = 0
        self.fn = None
        self.failed = False

        self.ty = {}            # declared types of locals and parameters
        self.inlined = set()
        if maxdepth is not None:
            self.MAXDEPTH = maxdepth

    # -- entry
    def run(self, f, args):
        self.fn = f
        self.inlined.add(f)
        for p, a in zip(f.params, args):
            self.env[(p["d"],)] = a
            self.ty[p["d"]] = p["t"]
        return self.body(f.body)

    def body(self, b):
        fr = self.frame("ret")
        self.stmts([b])
        r = self.close_ret(fr)
        return r

    def frame(self, *kinds):
        fr = (len(self.frames), len(self.pc), kinds)
        self.frames.append((kinds, len(self.pc), len(self.jumps), len(self.binders)))
        return len(self.frames) - 1

    def take(self, kinds):
        """Jumps of these kinds that belong to the innermost frame; conditions relative to its entry."""
        k, npc, nj, nb = self.frames[-1]
        mine = [j for j in self.jumps[nj:] if j[0] in kinds]
        self.jumps[nj:] = [j for j in self.jumps[nj:] if j[0] not in kinds]
        return mine

    def close_ret(self, fr):
        js = self.take(("ret",))
        kinds, npc, nj, nb = self.frames.pop()
        end = self.env if self.alive else None
        val = ("void",) if self.alive else None
        del self.pc[npc:]
        # merge in reverse order: later jumps are reached only when earlier ones were not taken
        seq = [(conj(*j[1][npc:]), j[2], j[3]) for j in js]
        env = end
        for c, e, v in reversed(seq):
            if env is None:
                env, val = e, v
                continue
            env = self.merge(c, e, env)
            val = ite(c, v, val) if v != val else v
        if env is not None:
            self.env = env
        self.alive = env is not None
        return val if val is not None else ("void",)

    def merge(self, c, a, b):
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if len(k) > 1 and (x is None or y is None):     # a member that only one branch assigns
                x, y = x or self.within(a, k), y or self.within(b, k)
            out[k] = x if x == y or y is None else y if x is None else ite(c, x, y)
        return out

    def within(self, env, p):
        """A member of a value that is held as a whole."""
        for i in range(len(p) - 1, 0, -1):
            t = env.get(p[:i])
            if t is not None:
                if t[0] == "undef":
                    return None
                for f in p[i:]:
                    t = self.mem(t, f)
                return t

    # -- paths
    def path(self, n):
        n = strip_casts(n)
        k = n.get("k")
        if k == "ref":
            if "d" not in n:
                return None
            return self.alias.get(n["d"], (n["d"],))
        if k == "mem":
            if n.get("b") is None:
                return ("this", n["n"])
            p = self.path(n["b"])
            return p + (n["n"],) if p else None
        if k == "this":
            return ("this",)
        if k == "un" and n["op"] == "&":
            b, i = self.subscripted(n["e"])
            if b is not None:           # the address of element 0 of a local array is the array
                i = strip_casts(i)
                if i.get("k") == "int" and i["v"] == 0 and self.local(b):
                    return self.path(b)
                return None
        if k == "un" and n["op"] in ("&", "*"):
            return self.path(n["e"])
        if k == "call" and n.get("op") in ("->", "*") and "o" in n and not n["a"]:
            return self.path(n["o"])
        if k == "ctor" and (n.get("cp") or n.get("mv")) and n.get("a"):
            return self.path(n["a"][0])
        return None

    def subscripted(self, n):
        m = strip_casts(n)
        if m.get("k") == "sub":
            return m["b"], m["i"]
        if m.get("k") == "call" and m.get("op") == "[]" and "o" in m and m.get("a"):
            return m["o"], m["a"][0]
        return None, None

    def load(self, p):
        for i in range(len(p), 0, -1):
            t = self.env.get(p[:i])
            if t is not None:
                if i == len(p) and any(len(q) > len(p) and q[0] == p[0] and q[:len(p)] == p for q in self.env):
                    r = [(q[len(p):], v) for q, v in self.env.items() if len(q) > len(p) and q[:len(p)] == p]
                    if t[0] == "rec":
                        r += [x for x in t[1:] if x[0] not in dict(r)]
                    elif t[0] != "undef":
                        r.append(((), t))
                    return ("rec",) + tuple(sorted(r, key=repr))
                for f in p[i:]:
                    t = self.mem(t, f)
                return t
        if p[0] == "this":
            t = ("this",)
            for f in p[1:]:
                t = self.mem(t, f)
            return t
        if any(q[:len(p)] == p for q in self.env):
            return ("rec",) + tuple(sorted(((q[len(p):], v) for q, v in self.env.items() if q[:len(p)] == p), key=repr))
        return None

    def mem(self, t, f):
        if t[0] == "rec":
            rest = []
            base = None
            for q, v in t[1:]:
                if q == (f,):
                    return v
                if q[:1] == (f,):
                    rest.append((q[1:], v))
                if q == ():
                    base = v
            if rest:
                return ("rec",) + tuple(rest)
            if base is not None:
                return self.mem(base, f)
        if t[0] == "ite":
            return ite(t[1], self.mem(t[2], f), self.mem(t[3], f))
        return ("mem", f, t)

    def store(self, p, t):
        for q in [q for q in self.env if len(q) > len(p) and q[:len(p)] == p]:
            del self.env[q]
        self.env[p] = t

    # -- statements
    def stmts(self, ss):
        for s in ss:
            if not self.alive:
                return
            if s is not None:
                self.stmt(s)

    def stmt(self, s):
        k = s.get("k")
        if k in ("block", "stmts") or (k is None and "c" in s):
            self.stmts(s["c"])
        elif k == "decl":
            for v in s["c"]:
                if v.get("k") == "var":
                    self.declare(v)
        elif k == "if":
            if s.get("init"):
                self.stmt(s["init"])
            if s.get("cv"):
                self.stmt({"k": "decl", "c": [s["cv"]]})
            self.branch(self.truth(s["cond"]), [s["then"]], [s["else"]] if s.get("else") else [])
        elif k == "for":
            self.loop(s)
        elif k in ("while", "do"):
            self.wloop(s)
        elif k == "rfor":
            self.rloop(s)
        elif k == "ret":
            v = self.x(s["e"]) if s.get("e") else ("void",)
            if self.alive:
                self.jump("ret", v)
        elif k == "break":
            self.jump("brk")
        elif k == "cont":
            self.jump("cont")
        elif k == "switch":
            self.switch(s)
        elif k in ("attr", "label", "try", "case", "default"):
            if s.get("body"):
                self.stmt(s["body"])
        elif k == "null":
            pass
        else:
            e = strip_casts(s)
            if e.get("k") == "cond":
                arms = [strip_casts(e["L"]), strip_casts(e["R"])]
                if any("f" in a and self.P.noreturn(a) for a in arms):
                    c = self.truth(e["cond"])
                    self.branch(c, [e["L"]], [e["R"]])
                    return
            self.x(s)

    def jump(self, kind, v=None):
        self.jumps.append((kind, list(self.pc), dict(self.env), v))
        self.alive = False

    def branch(self, c, a, b):
        if isc(c):
            self.stmts(a if c[1] else b)
            return
        base = len(self.pc)
        e0 = dict(self.env)
        l0 = dict(self.alias)
        self.pc.append(c)
        self.failed = False
        self.stmts(a)
        fa, self.failed = self.failed and not self.alive, False
        at, ea, sa = self.alive, self.env, self.pc[base + 1:]
        del self.pc[base:]
        self.env, self.alive = e0, True
        la, self.alias = self.alias, dict(l0)
        self.pc.append(neg(c))
        self.stmts(b)
        fb, self.failed = self.failed and not self.alive, False
        bt, eb, sb = self.alive, self.env, self.pc[base + 1:]
        del self.pc[base:]
        if not at and not bt:
            self.alive = False
            self.failed = fa and fb
            return
        self.alive = True
        if at and bt:
            self.env = self.merge(c, ea, eb)
            if sa or sb:
                self.pc.append(disj(conj(c, *sa), conj(neg(c), *sb)))
        elif at:
            self.env = ea
            self.alias = la
            self.pc.extend(([] if fb else [c]) + sa)
        else:
            self.env = eb
            self.pc.extend(([] if fa else [neg(c)]) + sb)

    def switch(self, s):
        v = self.x(s["cond"])
        arms = []
        for y in s["body"].get("c", []):
            labs = []
            while y.get("k") in ("case", "default"):
                labs.append(None if y["k"] == "default" else self.x(y["val"]))
                y = y["body"]
            arms.append((labs, y))
        self.frame("brk")
        used = []
        conds = []
        for labs, y in arms:
            for l in labs:
                if l is not None:
                    used.append(self.cmp("==", v, l))
        run = None              # condition under which control is inside the list
        e0 = None
        for labs, y in arms:
            entry = [neg(conj(*[neg(u) for u in used])) if l is None and False else (conj(*[neg(u) for u in used]) if l is None else self.cmp("==", v, l)) for l in labs]
            if entry:
                c = disj(*entry) if len(entry) > 1 else entry[0]
                # control enters here under c, or falls through
                if self.frames[-1] and run is not None and self.alive and run != "dead":
                    fall = self.env
                    self.env = self.merge(c, dict(base_env), fall)
                    cc = disj(c, run)
                else:
                    if run is None:
                        base_env, base_pc = dict(self.env), len(self.pc)
                    self.env = dict(base_env)
                    cc = c
                del self.pc[base_pc:]
                self.alive = True
                if isc(cc) and not cc[1]:
                    self.alive = False
                elif not isc(cc):
                    self.pc.append(cc)
                run = cc
            if run is None:
                continue
            if self.alive:
                self.stmts([y])
                if not self.alive:
                    run = "dead"
        # leave: breaks, the end, or no label matched
        js = self.take(("brk",))
        kinds, npc, nj, nb = self.frames.pop()
        hasdef = any(l is None for labs, y in arms for l in labs)
        outs = [(conj(*j[1][npc:]), j[2]) for j in js]
        if self.alive and run not in (None, "dead"):
            outs.append((conj(*self.pc[npc:]), self.env))
        if run is None:
            del self.pc[npc:]
            return
        if not hasdef:
            outs.append((conj(*[neg(u) for u in used]), base_env))
        del self.pc[npc:]
        outs = [o for o in outs if not (isc(o[0]) and not o[0][1])]
        if not outs:
            self.alive = False
            return
        env = outs[-1][1]
        for c, e in reversed(outs[:-1]):
            env = self.merge(c, e, env)
        live = disj(*[c for c, e in outs]) if len(outs) > 1 else outs[0][0]
        if hasdef and len(js) + 1 >= len([1 for labs, y in arms if labs]) and not [j for j in self.jumps[nj:]]:
            live = TRUE
        self.env, self.alive = env, True
        if not isc(live):
            self.pc.append(live)

    # -- loops
    def assigned(self, body):
        s = []

        def put(t):
            t0 = t
            elem = False
            while True:
                m = strip_casts(t)
                if m.get("k") == "sub":
                    t = m["b"]
                    elem = True
                elif m.get("k") == "call" and m.get("op") in ("[]", "()") and "o" in m:
                    t = m["o"]
                    elem = True
                else:
                    break
            p = self.path(t)
            if p and elem and self.shared(p):
                return
            if p and p not in s:
                s.append(p)
        for y in walk(body):
            if y.get("k") == "bin" and y["op"].endswith("=") and y["op"] not in ("==", "!=", "<=", ">="):
                put(y["L"])
            elif y.get("k") == "un" and y["op"] in ("++", "--", "&"):
                put(y["e"])
            elif y.get("k") == "call" and y.get("op", "").endswith("=") and y["op"] not in ("==", "!=", "<=", ">="):
                put(y["o"] if "o" in y else y["a"][0])
            elif y.get("k") == "call" and "f" in y:
                m = self.P.callee[y["f"]]
                t = self.P.by_fid.get(y["f"])
                if t:
                    for p, a in zip(t.params, y["a"]):
                        if "&" in p["t"] and "const" not in p["t"]:
                            put(a)
        return s

    def loop(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        if self.unrolled(s):
            return
        init = s.get("init")
        # the counter
        cond = strip_casts(s["cond"]) if s.get("cond") else None
        inc = strip_casts(s["inc"]) if s.get("inc") else {}
        var = None
        more = []
        v = self.counts(inc) if inc else None
        if v is not None and cond is not None and cond.get("k") == "bin" and cond["op"] == "&&":
            # a further condition ends the loop
            parts = self.ands(cond)
            mine = [y for y in parts if y.get("k") == "bin" and y["op"] in ("<", "<=", ">", ">=", "!=") and v in self.sides(y)]
            if len(mine) == 1:
                rest = [{"k": "if", "cond": {"k": "un", "op": "!", "e": y}, "then": {"k": "break"}} for y in parts if y is not mine[0]]
                cond = mine[0]
                s = dict(s, cond=cond, body={"k": "block", "c": rest + [s["body"]]})
        if inc.get("k") == "bin" and inc["op"] == "," and cond and not self.continues(s["body"]):
            parts = self.commas(inc)
            mine = [y for y in parts if self.counts(y) is not None and self.counts(y) in self.sides(cond)]
            if len(mine) == 1:
                more = [y for y in parts if y is not mine[0]]
                inc = mine[0]
        if inc.get("k") == "call" and inc.get("op") in ("++", "+=") and ("o" in inc or inc.get("a")):
            xs = ([inc["o"]] if "o" in inc else []) + inc.get("a", [])
            inc = {"k": "un", "op": "++", "e": xs[0]} if inc["op"] == "++" else {"k": "bin", "op": "+=", "L": xs[0], "R": xs[-1]}
        if cond and cond.get("k") == "call" and cond.get("op") in ("<", "!=", "<=", ">", ">=") and len(([cond["o"]] if "o" in cond else []) + cond.get("a", [])) == 2:
            xs = ([cond["o"]] if "o" in cond else []) + cond.get("a", [])
            cond = {"k": "bin", "op": cond["op"], "L": xs[0], "R": xs[1]}
        if inc.get("k") == "un" and inc["op"] == "++":
            var = self.path(inc["e"])
        elif inc.get("k") == "bin" and inc["op"] == "+=" and self.x(inc["R"]) == ("c", 1):
            var = self.path(inc["L"])
        if var is None and cond is not None and cond.get("k") == "bin" and self.downward(s, cond, inc):
            return
        if var is None or cond is None or cond.get("k") != "bin":
            return self.wloop(s)
        lo = self.env.get(var)
        op, L, Rr = cond["op"], cond["L"], cond["R"]
        if self.path(L) != var and self.path(Rr) == var:
            L, Rr = Rr, L
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if self.path(L) != var or op not in ("<", "<=", "!=") or lo is None:
            return self.wloop(s)
        hi = self.x(Rr)
        if op == "<=":
            hi = add(hi, ("c", 1))
        base = None
        if lo[0] == "ptr" and hi[0] == "ptr" and lo[1] == hi[1]:
            base, lo, hi = lo[1], lo[2], hi[2]
        if isc(hi) and isc(lo) and lo[1] >= hi[1]:
            return
        b = ("bv", lo, hi, len(self.binders))
        if more:
            s = dict(s, body={"k": "block", "c": [s["body"]] + more})
        if base is not None:
            inner = init is not None and init.get("k") == "decl" and any(("%s" % v.get("d")) == ("%s" % var[0]) for v in init["c"])
            self.general(s["body"], b, var, ("ptr", base, lo), ("ptr", base, hi), inner, ("ptr", base, b))
            return
        inner = init is not None and init.get("k") == "decl" and any(("%s" % v.get("d")) == ("%s" % var[0]) for v in init["c"])
        self.general(s["body"], b, var, lo, hi, inner)

    def downward(self, s, cond, inc):
        """A loop that counts down."""
        var = None
        if inc.get("k") == "un" and inc["op"] == "--":
            var = self.path(inc["e"])
        elif inc.get("k") == "bin" and inc["op"] == "-=" and self.x(inc["R"]) == ("c", 1):
            var = self.path(inc["L"])
        op, L, R = cond["op"], cond["L"], cond["R"]
        if var is None:
            return False
        if self.path(L) != var and self.path(R) == var:
            L, R = R, L
            op = {"<": ">", "<=": ">="}.get(op, op)
        top = self.env.get(var)
        if self.path(L) != var or op not in (">", ">=", "!=") or top is None or top[0] == "ptr":
            return False
        low = self.x(R)
        if op != ">=":
            low = add(low, ("c", 1))
        n = add(add(top, ("c", 1)), low, -1)
        init = s.get("init")
        inner = init is not None and init.get("k") == "decl" and any(("%s" % v.get("d")) == ("%s" % var[0]) for v in init["c"])
        carried = [p for p in self.assigned(s["body"]) if p != var and self.load(p) is not None]
        leaves = any(y.get("k") in ("break", "ret", "return") for y in walk(s["body"]))
        if not carried and not leaves:
            b = ("bv", low, add(top, ("c", 1)), len(self.binders))
            self.general(s["body"], b, var, top, add(low, ("c", 1), -1), inner)
        else:
            b = ("bv", ("c", 0), n, len(self.binders))
            self.general(s["body"], b, var, top, add(low, ("c", 1), -1), inner, add(top, b, -1))
        return True

    def ands(self, n):
        n = strip_casts(n)
        if n.get("k") == "bin" and n["op"] == "&&":
            return self.ands(n["L"]) + self.ands(n["R"])
        return [n]

    def commas(self, n):
        n = strip_casts(n)
        if n.get("k") == "bin" and n["op"] == ",":
            return self.commas(n["L"]) + self.commas(n["R"])
        return [n]

    def counts(self, n):
        """The variable a statement increments by one."""
        n = strip_casts(n)
        if n.get("k") == "un" and n["op"] == "++":
            return self.path(n["e"])
        if n.get("k") == "bin" and n["op"] == "+=" and strip_casts(n["R"]).get("k") == "int" and strip_casts(n["R"])["v"] == 1:
            return self.path(n["L"])
        return None

    def sides(self, cond):
        return [self.path(cond[x]) for x in ("L", "R") if cond.get("k") == "bin" and x in cond]

    def continues(self, body):
        """Does a loop's body continue with the next turn?"""
        st = [body]
        while st:
            n = st.pop()
            if isinstance(n, dict):
                if n.get("k") == "cont":
                    return True
                if n.get("k") in ("for", "while", "do", "rfor", "lambda") and n is not body:
                    continue
                st.extend(v for k, v in n.items() if isinstance(v, (dict, list)))
            elif isinstance(n, list):
                st.extend(n)
        return False

    def aswhile(self, s):
        """A while loop whose last statement advances its counter is a for loop."""
        b = s.get("body") or {}
        c = strip_casts(s["cond"]) if s.get("cond") else {}
        xs = list(b.get("c", [])) if b.get("k") == "block" else [b]
        if s["k"] != "while" or not xs or c.get("k") != "bin" or self.continues(b):
            return None
        last = xs[-1]
        while last.get("k") in ("expr", "full") and last.get("e"):
            last = last["e"]
        v = self.counts(last)
        if v is None or not any(v in self.sides(y) for y in self.ands(c)):
            return None
        for y in xs[:-1]:
            if v in self.assigned(y):
                return None
        return {"k": "for", "init": None, "cond": s["cond"], "inc": last, "body": {"k": "block", "c": xs[:-1]}, "l": s.get("l", 0)}

    def rloop(self, s):
        r = self.x(s["range"])
        b = ("bv", ("c", 0), ("call", "size", r), len(self.binders))
        vd = s["var"]
        self.store((vd["d"],), self.sel(r, b))
        self.general(s["body"], b, None, None, None, True)

    def general(self, body, b, var, lo, hi, inner, val=None):
        muts = [p for p in self.assigned(body) if p != var and self.load(p) is not None]
        init = {p: self.load(p) for p in muts}
        npc = len(self.pc)
        nev = len(self.events)
        mus = {}
        for p in muts:
            mus[p] = ("mu", len(self.binders), str(p[1:]) + str(muts.index(p)))
            self.store(p, mus[p])
        if var is not None:
            self.store(var, val or b)
        self.binders.append(b)
        e_in = dict(self.env)
        self.frame("brk", "cont")
        self.stmts([body])
        conts = self.take(("cont",))
        brks = self.take(("brk",))
        kinds, fpc, nj, nb = self.frames.pop()
        env = self.env if self.alive else None
        for j in reversed(conts):
            env = j[2] if env is None else self.merge(conj(*j[1][fpc:]), j[2], env)
        bc = disj(*[conj(*j[1][fpc:]) for j in brks]) if len(brks) > 1 else conj(*brks[0][1][fpc:]) if brks else FALSE
        step = {}
        for p in muts:
            t = None
            e1 = env
            for j in reversed(brks):
                e1 = j[2] if e1 is None else self.merge(conj(*j[1][fpc:]), j[2], e1)
            if e1 is not None:
                sv, self.env = self.env, e1
                t = self.load(p)
                self.env = sv
            step[p] = t
        # returns inside the loop
        rets = [j for j in self.jumps[nj:] if j[0] == "ret"]
        self.binders.pop()
        del self.pc[npc:]
        rc = []
        for j in rets:
            c = ex(b, conj(*j[1][fpc:]))
            i = self.jumps.index(j)
            v = j[3]
            if v is not None and contains(v, lambda x: x == b):
                v = ("wit", b, conj(*j[1][fpc:]), v)
            e = dict(e_in)
            for p in muts:
                e[p] = ("unk",)
            self.jumps[i] = ("ret", j[1][:fpc] + [c], e, v)
            rc.append(neg(c))
        self.env = dict(e_in)
        self.loops.append((b, bc, {mus[p]: (init[p], step[p]) for p in muts}))
        for p in muts:
            self.store(p, self.foldterm(b, init[p], step[p], bc, mus[p]))
        if var is not None and not inner:
            self.store(var, ("first", b, bc) if bc != FALSE else hi)
        elif var is not None:
            self.env.pop(var, None)
        self.alive = True
        self.pc.extend(rc)

    def foldterm(self, b, init, step, brk, mu):
        if step is None:
            step = mu
        if step == mu:
            return init
        if isc(init) and isinstance(init[1], bool) or step[0] in ("ite",) and isc(init):
            if step[0] == "ite" and step[3] == mu and isc(step[2]) and not contains(step[1], lambda x: x == mu) and isinstance(step[2][1], bool) and step[2][1] != init[1]:
                c = ex(b, step[1])
                if brk == FALSE or implies(brk, step[1]):
                    return c if step[2][1] else neg(c)
            if step[0] == "ite" and step[2] == mu and isc(step[3]) and not contains(step[1], lambda x: x == mu) and isinstance(step[3][1], bool) and step[3][1] != init[1]:
                c = ex(b, neg(step[1]))
                if brk == FALSE or implies(brk, neg(step[1])):
                    return c if step[3][1] else neg(c)
        return ("fold", b, init, step, brk, mu)

    def unrolled(self, s):
        """Execute a loop whose condition is decided at every turn."""
        if not s.get("cond"):
            return False
        sv = (dict(self.env), dict(self.alias), list(self.pc), len(self.events), len(self.jumps))
        npc = len(self.pc)
        brk_all = []
        for turn in range(self.UNROLL):
            c = TRUE if s["k"] == "do" and turn == 0 else self.truth(s["cond"])
            if not isc(c):
                break
            if not c[1]:
                env = self.env if self.alive else None
                self._leave(brk_all, npc)
                return True
            self.frame("brk", "cont")
            fpc = len(self.pc)
            self.stmts([s["body"]])
            conts = self.take(("cont",))
            brks = self.take(("brk",))
            self.frames.pop()
            for j in brks:
                brk_all.append((list(j[1]), j[2]))
            if conts:
                env = self.env if self.alive else None
                suff = [conj(*self.pc[fpc:])] if self.alive else []
                for j in reversed(conts):
                    cj = conj(*j[1][fpc:])
                    env = j[2] if env is None else self.merge(cj, j[2], env)
                    suff.append(cj)
                self.env, self.alive = env, True
                del self.pc[fpc:]
                gone = [conj(*j[1][fpc:]) for j in brks] + [conj(*j[1][fpc:]) for j in self.jumps[sv[4]:] if len(j[1]) >= fpc and j[0] == "ret" and list(j[1][:fpc]) == self.pc[:fpc]]
                self.pc.extend(neg(g) for g in gone)
            if not self.alive:
                self._leave(brk_all, npc)
                return True
            if s.get("inc"):
                self.x(s["inc"])
        self.env, self.alias, self.pc = dict(sv[0]), dict(sv[1]), sv[2]
        del self.events[sv[3]:]
        del self.jumps[sv[4]:]
        self.alive = True
        return False

    def _leave(self, brks, npc):
        env = self.env if self.alive else None
        for pc, e in reversed(brks):
            env = e if env is None else self.merge(conj(*pc[npc:]), e, env)
        if env is None:
            self.alive = False
            return
        if brks:
            # the end is reached by falling out or by a break; returns are excluded
            rets = [neg(conj(*j[1][npc:])) for j in self.jumps if j[0] == "ret" and len(j[1]) > npc and list(j[1][:npc]) == self.pc[:npc]]
            del self.pc[npc:]
            self.pc.extend(r for r in rets if not isc(r))
        self.env, self.alive = env, True

    def wloop(self, s):
        """A loop without a counter: everything it assigns becomes unknown."""
        if s["k"] != "for" and self.unrolled(s):
            return
        w = self.aswhile(s)
        if w is not None:
            return self.loop(w)
        body = {"k": "block", "c": [x for x in (s.get("body"), s.get("inc")) if x]}
        b = ("bv", ("c", 0), ("unk", s.get("l", 0)), len(self.binders))
        muts = [p for p in self.assigned(body) if self.load(p) is not None]
        for p in muts:
            self.n += 1
            self.store(p, ("loopvar", self.n))
        self.binders.append(b)
        npc = len(self.pc)
        e_in = dict(self.env)
        c = self.truth(s["cond"]) if s.get("cond") else TRUE
        if s["k"] != "do":
            self.pc.append(c)
        self.frame("brk", "cont")
        self.stmts([body])
        self.take(("brk", "cont"))
        kinds, fpc, nj, nb = self.frames.pop()
        self.events.append(Event("while", (c,), list(self.pc), list(self.binders), s, self.fn))
        for j in [j for j in self.jumps[nj:] if j[0] == "ret"]:
            i = self.jumps.index(j)
            self.jumps[i] = ("ret", j[1][:npc] + [("ex", b, conj(*j[1][npc:]))], e_in, j[3])
        self.binders.pop()
        del self.pc[npc:]
        self.env, self.alive = e_in, True
        for p in muts:
            self.n += 1
            self.store(p, ("loopvar", self.n))

    # -- declarations
    def moved(self, a):
        """The object behind moves, forwards and copies."""
        while True:
            a = strip_casts(a)
            if a.get("k") in ("call", "ctor") and len(a.get("a", [])) == 1 and (a.get("cp") or a.get("mv") or last(a.get("_q", "")) in ("move", "forward")):
                a = a["a"][0]
            else:
                return self.path(a)

    def declare(self, v):
        d = (v["d"],)
        self.alias.pop(v["d"], None)
        for q in [q for q in self.env if q[0] == v["d"]]:
            del self.env[q]
        i = v.get("i")
        t = v.get("t", "")
        self.ty[v["d"]] = t
        if i is None or (i.get("k") in ("ctor", "zero") and not i.get("a")) or (i.get("k") == "init" and not i.get("c")):
            self.n += 1
            self.env[d] = ("undef", short(t))
            return
        m = strip_casts(i)
        if m.get("k") == "lambda":
            self.lam[d] = (m, None)
            self.env[d] = ("lambda", m.get("l", 0))
            return
        lp = self.moved(m)
        if lp in self.lam:
            self.lam[d] = self.lam[lp]
            self.env[d] = self.load(lp) or ("lambda", 0)
            return
        if ("&" in t or t.rstrip().endswith("*")) and "const" not in t.split("&")[0][-8:] or t.rstrip().endswith("&"):
            p = self.path(i)
            if p and self.load(p) is not None:
                self.alias[v["d"]] = p
                return
        val = self.x(i)
        if self.alive:
            self.env[d] = val

    # -- expressions
    def truth(self, n):
        n = strip_casts(n)
        if n.get("k") == "bin" and n["op"] in ("&&", "||"):
            a = self.truth(n["L"])
            if isc(a) and a[1] == (n["op"] == "||"):
                return a
            b = self.truth(n["R"])
            return conj(a, b) if n["op"] == "&&" else disj(a, b)
        if n.get("k") == "un" and n["op"] == "!":
            return neg_deep(self.truth(n["e"]))
        if n.get("k") == "bin" and n["op"] in ("==", "!="):
            l, r = strip_casts(n["L"]), strip_casts(n["R"])
            for a, b in ((l, r), (r, l)):
                if b.get("k") in ("null", "null_ptr") and self.addressed(a):
                    return ("c", n["op"] == "!=")
        if self.addressed(n):
            return TRUE
        return self.asbool(self.x(n))

    def addressed(self, n):
        """A pointer to a variable that is known: it is not null."""
        return n.get("k") == "ref" and n.get("d") in self.alias and self.ty.get(n["d"], "").replace("const", "").rstrip().endswith("*")

    def asbool(self, t):
        if isc(t):
            return ("c", bool(t[1]))
        if t[0] in ("not", "<", "<=", "==", "and", "ex"):
            return t
        if t[0] == "ite":
            a, b = self.asbool(t[2]), self.asbool(t[3])
            if isc(a) and isc(b):
                return ite(t[1], a, b)
            return disj(conj(t[1], a), conj(neg_deep(t[1]), b))
        return ("not", ("==", ("c", 0), t)) if t[0] in ("+", "*", "&") else t

    def cmp(self, op, a, b):
        if op == ">":
            return self.cmp("<", b, a)
        if op == ">=":
            return self.cmp("<=", b, a)
        if op == "!=":
            return neg(self.cmp("==", a, b))
        if a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1]:
            a, b = a[2], b[2]
        for p, q in ((a, b), (b, a)):
            if p[0] == "first" and q == p[1][2] and op in ("==", "<"):
                r = ex(p[1], p[2])
                return neg(r) if op == "==" else r if p is a else FALSE
        if op == "==" and isc(b) and not isc(a):
            a, b = b, a
        if op == "==" and isc(a) and b[0] in ("not", "<", "<=", "==", "and", "ex"):
            return b if a[1] else neg_deep(b)
        if a[0] == "ite" and isc(b) and (isc(a[2]) or isc(a[3])):
            return self.asbool(ite(a[1], self.cmp(op, a[2], b), self.cmp(op, a[3], b)))
        if b[0] == "ite" and isc(a) and (isc(b[2]) or isc(b[3])):
            return self.asbool(ite(b[1], self.cmp(op, a, b[2]), self.cmp(op, a, b[3])))
        d = {k: v for k, v in lin(add(a, b, -1)).items() if v} if not (a[0] == "f" or b[0] == "f") else {0: 1}
        if not [k for k in d if k != 1]:
            v = d.get(1, 0)
            return ("c", v == 0 if op == "==" else v < 0 if op == "<" else v <= 0)
        if op == "==":
            if distinct(a, b):
                return FALSE
            a, b = sorted((a, b), key=repr)
        return (op, a, b)

    def x(self, n):
        n0 = n
        n = strip_casts(n)
        k = n.get("k")
        if k == "int":
            if n.get("b"):
                return ("c", bool(n["v"]))
            return ("c", n["v"])
        if k == "flt":
            return ("f", float(n["v"]))
        if k == "str":
            return ("s", n["v"])
        if k == "null_ptr":
            return ("null",)
        if k in ("ref", "mem"):
            if k == "ref" and "d" not in n:
                return ("g", n["n"])
            p = self.path(n)
            if p:
                t = self.load(p)
                if t is not None:
                    return t
            if k == "mem" and n.get("b") is not None:
                return self.mem(self.x(n["b"]), n["n"])
            if isinstance(n.get("v"), int):
                return ("c", n["v"])
            return ("g", n["n"])
        if k == "this":
            return self.env.get(("this",), ("this",))
        if k == "un":
            op = n["op"]
            if op in ("++", "--"):
                old = self.x(n["e"])
                new = add(old, ("c", 1 if op == "++" else -1))
                self.assign(n["e"], new, n)
                return old if n.get("post") else new
            if op == "!":
                return neg_deep(self.truth(n["e"]))
            if op == "&":
                b, i = self.subscripted(n["e"])
                if b is not None:
                    i = self.x(i)
                    if i == ("c", 0) and self.local(b):
                        return self.x(b)
                    return self.ptr(self.x(b), i)
            e = self.x(n["e"])
            if op == "-":
                if e[0] == "f":
                    return ("f", -e[1])
                return mul(("c", -1), e)
            if op == "*" and e[0] == "ptr":
                return self.sel(e, ("c", 0))
            if op in ("+", "&", "*"):
                return e
            if op == "~" and isc(e):
                return ("c", ~e[1])
            return ("u", op, e)
        if k == "bin":
            op = n["op"]
            if op in ("&&", "||"):
                return self.truth(n)
            if op == "=":
                v = self.x(n["R"])
                self.assign(n["L"], v, n)
                return v
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                v = self.arith(op[:-1], self.x(n["L"]), self.x(n["R"]))
                self.assign(n["L"], v, n)
                return v
            if op == ",":
                self.x(n["L"])
                return self.x(n["R"])
            a = self.x(n["L"])
            b = self.x(n["R"])
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return self.cmp(op, a, b)
            return self.arith(op, a, b)
        if k == "cond":
            c = self.truth(n["cond"])
            if isc(c):
                return self.x(n["L"] if c[1] else n["R"])
            return ite(c, self.x(n["L"]), self.x(n["R"]))
        if k == "sub":
            return self.sel(self.x(n["b"]), self.x(n["i"]))
        if k in ("call", "ctor"):
            return self.call(n)
        if k == "init":
            xs = [self.x(c) for c in n["c"] if c]
            if len(xs) == 1:
                return xs[0]
            return ("list",) + tuple(xs)
        if k == "lambda":
            return ("lambda", n.get("l", 0))
        if k == "zero":
            return ("c", 0)
        if k == "sizeof":
            return ("sizeof", n.get("at", ""))
        if k == "throw":
            self.alive = False
            return ("void",)
        if k == "new":
            return ("new", short(n["t"])) + tuple(self.x(a) for a in n.get("a", []))
        if k in ("fref", "mfref"):
            return ("fn", n.get("_q", n.get("n", "?")))
        if "e" in n and isinstance(n["e"], dict):
            return self.x(n["e"])
        return ("?", k)

    def arith(self, op, a, b):
        if op in ("+", "-") and a[0] == "ptr":
            if b[0] != "ptr":
                return ("ptr", a[1], add(a[2], b, 1 if op == "+" else -1))
            if op == "-" and a[1] == b[1]:
                return add(a[2], b[2], -1)
        if op in ("+", "-"):
            if a[0] == "f" or b[0] == "f":
                if a[0] == b[0]:
                    return ("f", a[1] + b[1] if op == "+" else a[1] - b[1])
                return ("fa", op, a, b) if op == "-" else ("fa", op) + tuple(sorted((a, b), key=repr))
            return add(a, b, 1 if op == "+" else -1)
        if op == "*":
            return mul(a, b) if not (a[0] == "f" or b[0] == "f") else ("*",) + tuple(sorted((a, b), key=repr))
        if isc(a) and isc(b):
            x, y = int(a[1]), int(b[1])
            if op == "/" and y:
                return ("c", int(x / y))
            if op == "%" and y:
                return ("c", x - y * int(x / y))
            if op == "<<" and 0 <= y < 64:
                return ("c", x << y)
            if op == ">>" and 0 <= y < 64:
                return ("c", x >> y)
            if op in "&|^":
                return ("c", {"&": x & y, "|": x | y, "^": x ^ y}[op])
        if op in ("&", "|", "^"):
            if op == "^" and ("c", 0) in (a, b):
                return a if b == ("c", 0) else b
            return (op,) + tuple(sorted((a, b), key=repr))
        return ("b", op, a, b)

    def ptr(self, a, i):
        if a[0] == "ptr":
            return ("ptr", a[1], add(a[2], i))
        return ("ptr", a, i)

    def sel(self, a, i):
        if a[0] == "ptr":
            return self.sel(a[1], add(a[2], i))
        if a[0] == "upd":
            if a[2] == i:
                return a[3]
            if distinct(a[2], i):
                return self.sel(a[1], i)
            return ite(self.cmp("==", a[2], i), a[3], self.sel(a[1], i))
        if a[0] == "ite":
            return ite(a[1], self.sel(a[2], i), self.sel(a[3], i))
        if a[0] == "call" and a[1].startswith("gather_verts<") and len(a) == 4:
            return ("at", a[2], add(mul(("c", int(a[1][13:-1])), a[3]), i))
        if a[0] == "list" and isc(i) and 0 <= i[1] < len(a) - 1:
            return a[1 + i[1]]
        if self.versions and a[0] == "alloc" and any(e.kind == "store" and e.data[0] == a for e in self.events):
            return ("at", ("ver", a, len(self.events)), i)
        return ("at", a, i)

    def assign(self, l, v, n):
        m = strip_casts(l)
        idx = None
        if m.get("k") == "sub":
            b, idx = m["b"], m["i"]
        elif m.get("k") == "call" and m.get("op") in ("[]",) and "o" in m and m["a"]:
            b, idx = m["o"], m["a"][0]
        if idx is not None:
            i = self.x(idx)
            bm = strip_casts(b)
            arr = self.x(b)
            if arr[0] == "ptr":
                arr, i = arr[1], add(arr[2], i)
            elif arr[0] in ("undef", "upd", "list") or self.local(b):
                self.assign(b, ("upd", arr, i, v), n)
                return
            self.events.append(Event("store", (arr, i, v), list(self.pc), list(self.binders), n, self.fn))
            return
        p = self.path(m)
        if p:
            if len(p) > 1 and p[0] == "this":
                self.events.append(Event("field", (p, v), list(self.pc), list(self.binders), n, self.fn))
            self.store(p, v)
        else:
            self.events.append(Event("store", (self.x(m), None, v), list(self.pc), list(self.binders), n, self.fn))

    VIEW = re.compile(r"Write<|Read<|\bLOs\b|\bReals\b|\bGOs\b|\*\s*(const)?$|std::vector|HostWrite")

    def shared(self, p):
        """Does this variable denote memory shared with others (a view), not a value?"""
        t = self.env.get(p)
        if t is not None and t[0] == "alloc":
            return True
        if len(p) == 1:
            ty = self.ty.get(p[0])
            if ty is not None:
                return bool(self.VIEW.search(ty.rstrip("& ").strip())) or ty.rstrip().endswith("*")
        return False

    def local(self, b):
        """Is this a value held in a local variable (not a view of shared memory)?"""
        p = self.path(b)
        if p is None:
            m = strip_casts(b)
            if m.get("k") == "sub":
                return self.local(m["b"])
            if m.get("k") == "call" and m.get("op") == "[]" and "o" in m:
                return self.local(m["o"])
            return False
        if p[0] == "this":
            return False
        return self.load(p) is not None and not self.shared(p)

    # -- calls
    def call(self, n):
        q = n.get("_q", "")
        nm = last(q) if q else ""
        op = n.get("op")
        if "f" in n and self.P.noreturn(n):
            for a in n.get("a", []):
                pass
            self.events.append(Event("fail", (q,), list(self.pc), list(self.binders), n, self.fn))
            self.alive = False
            self.failed = True
            return ("void",)
        if op == "=" and ("o" in n):
            v = self.x(n["a"][0])
            self.assign(n["o"], v, n)
            return v
        if op and op.endswith("=") and op not in ("==", "!=", "<=", ">=") and len(op) > 1:
            l, r = (n["o"], n["a"][0]) if "o" in n else (n["a"][0], n["a"][1])
            v = self.arith(op[:-1], self.x(l), self.x(r))
            self.assign(l, v, n)
            return v
        if op in ("++", "--"):
            l = n.get("o") or n["a"][0]
            v = ("step", op, self.x(l))
            self.assign(l, v, n)
            return v
        if op == "[]" and "o" in n and n["a"] and "IntIterator" in q:
            return add(self.x(n["o"]), self.x(n["a"][0]))
        if op == "*" and len(n.get("a", [])) + ("o" in n) == 1:
            v = self.x(n["o"] if "o" in n else n["a"][0])
            return self.sel(v, ("c", 0)) if v[0] == "ptr" else v
        if op == "[]" and "o" in n and n["a"]:
            return self.sel(self.x(n["o"]), self.x(n["a"][0]))
        if op in ("*", "->") and "o" in n and not n["a"]:
            return self.x(n["o"])
        if op == "()" and "o" in n:
            p = self.path(n["o"])
            if p in self.lam:
                return self.lambda_call(self.lam[p][0], [self.x(a) for a in n["a"]], n)
        if nm == "parallel_for" or nm == "parallel_reduce":
            return self.kernel(n)
        k = n["k"]
        if k == "ctor" and (n.get("cp") or n.get("mv")) and n.get("a"):
            return self.x(n["a"][0])
        if k == "ctor" and re.match(r"^(const )?(std::basic_string<char|std::string\b)", n.get("t", "")):
            return self.x(n["a"][0]) if n.get("a") else ("s", "")
        if k == "ctor" and n.get("a") and "std::function" not in n.get("t", "") and len(n["a"]) == 1:
            return self.wrapctor(n, [self.x(n["a"][0])])
        o = self.x(n["o"]) if "o" in n else None
        args = [self.x(a) for a in n.get("a", [])]
        if not self.alive:
            return ("void",)
        if self.hook:
            r = self.hook(self, n, nm, q, o, args)
            if r is not None:
                return r
        if op in ("==", "!=", "<", ">", "<=", ">="):
            l, rr = (o, args[0]) if o is not None else (args[0], args[1])
            return self.cmp(op, l, rr)
        if op in ("+", "-", "*", "/", "%", "&", "|", "^"):
            xs = ([o] if o is not None else []) + args
            if len(xs) == 2:
                return self.varith(op, xs[0], xs[1])
            return ("u", op, xs[0])
        if op == "!":
            return neg_deep(self.asbool(([o] if o is not None else []) + args)[0])
        if op == "bool" or nm.startswith("operator "):
            return o if o is not None else ("?", nm)
        if op == "()":
            return ("at", o) + tuple(args) if o is not None else ("call", nm) + tuple(args)
        if nm in ("move", "forward", "read", "as_const") and (args or o):
            return args[0] if args else o
        if nm in ("min2", "min", "max2", "max") and len(args) == 2:
            if isc(args[0]) and isc(args[1]):
                f = min if nm.startswith("min") else max
                return ("c", f(args[0][1], args[1][1]))
            fl = []
            for a in args:
                fl.extend(a[1:] if a[0] == nm[:3] else (a,))
            return (nm[:3],) + tuple(sorted(set(fl), key=repr))
        if nm == "swap2" or nm == "swap" and len(args) == 2:
            self.assign(n["a"][0], args[1], n)
            self.assign(n["a"][1], args[0], n)
            return ("void",)
        if k == "ctor":
            return self.wrapctor(n, args)
        tg = [f for f in (self.P.targets(n) if "f" in n else []) if f.body]
        if len(tg) == 1 and self.depth < self.MAXDEPTH and self.inline_if(tg[0]):
            return self.inline(n, tg[0], o, args)
        ta = [x for x in (self.P.callee[n["f"]].get("ta") or []) if re.match(r"^-?\d+$", x)] if "f" in n else []
        nm2 = nm + ("<%s>" % ",".join(ta) if ta else "")
        t = ("call", nm2) + ((o,) if o is not None else ()) + tuple(args)
        self.effects(n, nm, t)
        return t

    def varith(self, op, a, b):
        return ("va", op, a, b)

    def wrapctor(self, n, args):
        ty = n.get("t", "")
        s = short(ty)
        args = [a for a in args if a[0] != "s"] if re.match(r"^(const )?(Host)?(Write|Read|LOs|GOs|Reals)", s) else args
        if re.match(r"^(const )?(Host)?Write<", s):
            if len(args) >= 2 or (len(args) == 1 and (args[0][0] == "c" or self.numeric(n["a"][0]))):
                self.n += 1
                self.made[("alloc", self.n) + tuple(args)] = (len(self.binders), list(self.pc))
                return ("alloc", self.n) + tuple(args)
        if len(args) == 1 and re.match(r"^(const )?(Host)?(IntIterator|CastIterator|Write|Read|LOs|GOs|Reals|Bytes|std::|double|int|long|signed|Vector|Matrix|Few|Graph|Adj|bool)", s):
            return args[0]
        if len(args) > 1:
            self.made.setdefault(("new", s) + tuple(args), (len(self.binders), list(self.pc)))
        return ("new", s) + tuple(args)

    def numeric(self, a):
        t = a.get("t", "") or strip_casts(a).get("t", "")
        m = strip_casts(a)
        if re.match(r"^(const )?(int|long|signed char|unsigned.*|(std::)?size_t|(Omega_h::)?(LO|GO|Int|I8|I32|I64))( const)?( ?&)?$", t):
            return True
        if m.get("k") in ("int", "bin", "un", "sub"):
            return True
        if m.get("k") == "call":
            rt = self.P.callee[m["f"]].get("rt", "") if "f" in m else ""
            return bool(re.match(r"^(const )?(int|long|signed char|std::size_t|unsigned.*|Omega_h::(LO|GO|Int|I8|I32|I64))\b", rt))
        v = self.x(a)
        return v[0] in ("+", "*", "c") or v[0] == "call" and v[1] in ("size", "last", "first", "nents", "nverts", "nedges", "nfaces", "nelems", "nregions")

    def effects(self, n, nm, t):
        """Output arguments of functions that are not looked into."""
        if "f" not in n:
            return
        f = self.P.by_fid.get(n["f"])
        pts = [p["t"] for p in f.params] if f else None
        self.events.append(Event("call", (nm, t), list(self.pc), list(self.binders), n, self.fn))
        for i, a in enumerate(n.get("a", [])):
            m = strip_casts(a)
            ptr = m.get("k") == "un" and m["op"] == "&"
            ref = pts is not None and i < len(pts) and "&" in pts[i] and "const" not in pts[i] and "&&" not in pts[i]
            ptrp = pts is not None and i < len(pts) and pts[i].rstrip().endswith("*") and "const" not in pts[i] and not re.search(r"Mesh|Library|Comm", pts[i])
            if ptr or ref or ptrp:
                p = self.path(a)
                if p and p[0] != "this" and (ref or (self.load(p) or ("x",))[0] != "p"):
                    self.store(p, ("out", i, t))

    def inline(self, n, f, o, args):
        self.depth += 1
        self.inlined.add(f)
        fn0, self.fn = self.fn, f
        this0 = {q: v for q, v in self.env.items() if q[0] == "this"}
        th_alias = None
        try:
            if "o" in n:
                for q in this0:
                    del self.env[q]
                if o is not None:
                    p = self.path(n["o"])
                    self.env[("this",)] = o
            for i, p in enumerate(f.params):
                a = n["a"][i] if i < len(n.get("a", [])) else None
                self.alias.pop(p["d"], None)
                for q in [q for q in self.env if q[0] == p["d"]]:
                    del self.env[q]
                t = p["t"]
                self.ty[p["d"]] = t
                lv = None
                if a is not None and ("&" in t or t.rstrip().endswith("*")) and "&&" not in t:
                    lv = self.path(a)
                    if lv and lv[0] == "this":
                        lv = None
                if a is not None and strip_casts(a).get("k") == "lambda":
                    self.lam[(p["d"],)] = (strip_casts(a), None)
                elif a is not None and self.path(a) in self.lam:
                    self.lam[(p["d"],)] = self.lam[self.path(a)]
                elif a is not None and self.moved(a) in self.lam:
                    self.lam[(p["d"],)] = self.lam[self.moved(a)]
                if lv and self.load(lv) is not None and not (lv[0] == p["d"]):
                    self.alias[p["d"]] = lv
                elif i < len(args):
                    self.env[(p["d"],)] = args[i]
            return self.body(f.body)
        finally:
            for q in [q for q in self.env if q[0] == "this"]:
                if "o" in n:
                    del self.env[q]
            if "o" in n:
                self.env.update(this0)
            self.depth -= 1
            self.fn = fn0

    def lambda_call(self, lam, args, n):
        self.depth += 1
        try:
            if self.depth > self.MAXDEPTH:
                return ("?", "lambda")
            self.bind_caps(lam)
            for p, a in zip(lam["ps"], args):
                self.env[(p["d"],)] = a
                self.alias.pop(p["d"], None)
            return self.body(lam["body"])
        finally:
            self.depth -= 1

    def bind_caps(self, lam):
        for c in lam["caps"]:
            if "i" in c and isinstance(c["i"], dict) and "d" in c:
                self.env[(c["d"],)] = self.x(c["i"])

    def kernel(self, n):
        args = n["a"]
        lam = None
        size = None
        for a in args:
            m = strip(a)
            if m.get("k") == "ref":
                p = self.path(m)
                if p in self.lam:
                    lam = self.lam[p][0]
            elif m.get("k") == "lambda":
                lam = m
            if lam is not None:
                break
            if size is None and m.get("k") != "str":
                size = self.x(a)
        if lam is None and self.functor(n):
            return ("void",)
        if lam is None:
            self.events.append(Event("call", ("parallel_for", ("call", "parallel_for")), list(self.pc), list(self.binders), n, self.fn))
            return ("void",)
        b = ("i", size, len(self.binders))
        self.binders.append(b)
        self.bind_caps(lam)
        npc = len(self.pc)
        e0 = dict(self.env)
        if lam["ps"]:
            self.env[(lam["ps"][0]["d"],)] = b
        self.frame("ret")
        self.stmts([lam["body"]])
        self.take(("ret",))
        self.frames.pop()
        del self.pc[npc:]
        self.binders.pop()
        self.env, self.alive = e0, True
        return ("void",)


    def functor(self, n):
        """A kernel given as an object with operator(): its members are what the constructor gave them."""
        size = None
        for a in n["a"]:
            m = strip_casts(a)
            t = None
            if m.get("k") == "ctor" and not (m.get("cp") or m.get("mv")):
                cls, args = m.get("t", ""), [self.x(y) for y in m.get("a", [])]
            elif m.get("k") in ("ref", "ctor") and size is not None:
                t = self.x(m)
                if t[:1] != ("new",):
                    continue
                cls, args = t[1], list(t[2:])
            else:
                if size is None:
                    size = self.x(a)
                continue
            cls = cls.replace("const ", "").strip()
            ops = [f for f in self.P.fns if f.name == "operator()" and f.body and len(f.params) == 1 and
                   f.q.rsplit("::", 1)[0].replace(" ", "") in (cls.replace(" ", ""), "Omega_h::" + cls.replace(" ", ""))]
            if len(ops) != 1 or size is None:
                continue
            op = ops[0]
            base = op.q.rsplit("::", 1)[0]
            cts = [f for f in self.P.fns if f.q.rsplit("::", 1)[0] == base and f.name == re.sub(r"<.*", "", base.rsplit("::", 1)[-1]) and len(f.params) == len(args) and f.d.get("inits")]
            if len(cts) != 1:
                continue
            e0, fn0, al0 = dict(self.env), self.fn, dict(self.alias)
            for p, v in zip(cts[0].params, args):
                self.env[(p["d"],)] = v
                self.alias.pop(p["d"], None)
            fields = {("this", i["n"]): self.x(i["e"]) for i in cts[0].d["inits"] if i.get("n")}
            for q in [q for q in self.env if q[0] == "this"]:
                del self.env[q]
            self.env.update(fields)
            b = ("i", size, len(self.binders))
            self.binders.append(b)
            npc = len(self.pc)
            self.env[(op.params[0]["d"],)] = b
            self.fn = op
            self.frame("ret")
            self.stmts([op.body])
            self.take(("ret",))
            self.frames.pop()
            del self.pc[npc:]
            self.binders.pop()
            self.env, self.alias, self.fn, self.alive = e0, al0, fn0, True
            return True
        return False


# ------------------------------------------------------------------ propositional reasoning
def atoms(t, out=None):
    out = [] if out is None else out
    if isc(t):
        return out
    if t[0] in ("and", "or"):
        for x in t[1:]:
            atoms(x, out)
    elif t[0] == "not":
        atoms(t[1], out)
    elif t[0] == "<=":
        atoms(("<", t[2], t[1]), out)
    elif t[0] == "ite":
        for x in t[1:]:
            atoms(x, out)
    elif t not in out:
        out.append(t)
    return out


def evalb(t, v):
    if isc(t):
        return bool(t[1])
    if t[0] == "and":
        return all(evalb(x, v) for x in t[1:])
    if t[0] == "or":
        return any(evalb(x, v) for x in t[1:])
    if t[0] == "not":
        return not evalb(t[1], v)
    if t[0] == "<=":
        return not evalb(("<", t[2], t[1]), v)
    if t[0] == "ite":
        return evalb(t[2], v) if evalb(t[1], v) else evalb(t[3], v)
    return v[t]


def leaf(t, v):
    """The value a choice takes when its conditions are as given."""
    while t[:1] == ("ite",):
        t = t[2] if evalb(t[1], v) else t[3]
    return t


def samechoice(a, b):
    """Two choices that agree however their conditions turn out."""
    at = []

    def go(t):
        if t[:1] == ("ite",):
            atoms(t[1], at)
            go(t[2])
            go(t[3])
    go(a)
    go(b)
    if len(at) > 10:
        return False
    for m in range(1 << len(at)):
        v = {x: bool(m >> i & 1) for i, x in enumerate(at)}
        if leaf(a, v) != leaf(b, v):
            return False
    return True


def implies(a, b, given=TRUE):
    """a and given => b, treating other terms as independent facts."""
    at = []
    for t in (a, b, given):
        atoms(t, at)
    if len(at) > 14:
        return False
    for m in range(1 << len(at)):
        v = {x: bool(m >> i & 1) for i, x in enumerate(at)}
        if evalb(a, v) and evalb(given, v) and not evalb(b, v):
            return False
    return True


def tshow(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if d > 16:
        return "..."
    s = lambda x: tshow(x, d + 1)
    k = t[0] if t else ""
    if k in ("c", "f", "s"):
        return repr(t[1]) if k == "s" else str(t[1])
    if k == "+":
        return "(" + " + ".join(([str(t[1])] if t[1] else []) + [("%d*" % c if c != 1 else "") + s(x) for c, x in t[2]]) + ")"
    if k == "at":
        return s(t[1]) + "[" + ", ".join(map(s, t[2:])) + "]"
    if k == "call":
        return t[1] + "(" + ", ".join(map(s, t[2:])) + ")"
    if k == "mem":
        return s(t[2]) + "." + t[1]
    if k in ("<", "<=", "=="):
        return "(" + s(t[1]) + " " + k + " " + s(t[2]) + ")"
    if k == "not":
        return "!" + s(t[1])
    if k == "and":
        return "(" + " && ".join(map(s, t[1:])) + ")"
    if k == "bv":
        return "k%d{%s..%s}" % (t[3], s(t[1]), s(t[2])) if d < 4 else "k%d" % t[3]
    if k == "i":
        return "i%d" % t[2]
    if k == "ite":
        return "(" + s(t[1]) + " ? " + s(t[2]) + " : " + s(t[3]) + ")"
    if k == "p":
        return t[1]
    if not isinstance(k, str):
        return "[" + ", ".join(map(s, t)) + "]"
    return k + "(" + ", ".join(map(s, t[1:])) + ")"


def dump(K):
    for e in K.events:
        print(e.kind, [tshow(x) for x in e.data if x is not None], "| pc:", [tshow(c) for c in e.pc], "| b:", [tshow(b) for b in e.binders])


# ------------------------------------------------------------------ quantified conditions
def exatoms(t):
    return [a for a in atoms(t) if a[0] == "ex"]


def proves(a, b, given=TRUE):
    """a => b where existential conditions over the same range are compared by their bodies."""
    g = [given]
    for y in exatoms(b):
        for x in exatoms(a):
            if x != y and x[1] == y[1]:
                if implies(y[2], x[2]):
                    g.append(disj(neg_deep(y), x))
                if implies(x[2], y[2]):
                    g.append(disj(neg_deep(x), y))
    return implies(a, b, conj(*g))


class Bits:
    """The two direction bits of a collapse code as conditions."""

    def __init__(self, src):
        self.src = src          # terms whose bits are atoms

    def bit(self, t, d):
        if isc(t):
            return ("c", bool(int(t[1]) >> d & 1))
        if t in self.src or t[0] == "mu":
            return ("bit", t, d)
        if t[0] == "ite":
            c = self.cond(t[1])
            return ite(c, self.bit(t[2], d), self.bit(t[3], d))
        if t[0] == "call" and t[1] in ("dont_collapse", "do_collapse"):
            e = ("c", t[1] == "do_collapse")
            if isc(t[3]):
                return e if t[3][1] == d else self.bit(t[2], d)
            return ite(("==", ("c", d), t[3]), e, self.bit(t[2], d))
        if t[0] == "fold":
            k, b, init, step, brk, mu = t
            m = ("bit", mu, d)
            s = self.bit(step, d)
            if s == m:
                return self.bit(init, d)
            s1 = subst(s, lambda x: TRUE if x == m else None)
            s1 = resimp(s1)
            s0 = resimp(subst(s, lambda x: FALSE if x == m else None))
            if s0 != FALSE and not implies(s0, FALSE):
                return ("unk", "bit set in a loop", repr(s0)[:50])
            br = resimp(subst(self.cond(brk), lambda x: TRUE if x == m else None))
            if br != FALSE and not implies(br, neg_deep(s1)):
                return ("unk", "loop left early", repr(br)[:50])
            return conj(self.bit(init, d), neg_deep(ex(b, neg_deep(s1))))
        return ("unk", repr(t)[:60], d)

    def cond(self, c):
        def f(x):
            if x[:1] == ("call",) and x[1] == "collapses" and len(x) == 4 and isc(x[3]):
                return self.bit(x[2], x[3][1])
            return None
        return resimp(subst(c, f))


def resimp(t):
    """Rebuild boolean structure after a substitution."""
    if not isinstance(t, tuple) or isc(t):
        return t
    if t[0] == "and":
        return conj(*[resimp(x) for x in t[1:]])
    if t[0] == "not":
        return neg_deep(resimp(t[1]))
    if t[0] == "ite":
        return ite(resimp(t[1]), resimp(t[2]), resimp(t[3]))
    if t[0] == "ex":
        return ex(t[1], resimp(t[2]))
    return t
