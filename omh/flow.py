"""Flow-sensitive, interprocedural taint evaluation with implicit flows.

Tokens: "L" (a value that may differ between processes), ("p", i) the initial
value of parameter i (i == -1: the object the method is called on).
Every function gets a summary: the tokens of its result, of what it leaves in
each by-reference/pointer parameter, and a list of events (calls of interest)
together with the tokens that decide whether they run."""
from .core import *

E = frozenset()


def mkL(origin):
    return frozenset([("L", origin)])


def hasL(t):
    for x in t:
        if x[0] == "L":
            return True
    return False


def onlyL(t):
    return frozenset(x for x in t if x[0] == "L")


def origins(t):
    return sorted(x[1] for x in t if x[0] == "L")


def cap(t):
    """Keep token sets small: at most two origins."""
    if len(t) > 6:
        ls = sorted(x for x in t if x[0] == "L")
        if len(ls) > 2:
            return frozenset(x for x in t if x[0] != "L") | frozenset(ls[:2])
    return t


def is_ref_type(t):
    return t.endswith("&") and not t.startswith("const ") or t.endswith("*") and not t.startswith("const ")


def base_var(n):
    """The local variable an lvalue expression designates (through fields, indices, derefs)."""
    while isinstance(n, dict):
        n = strip_casts(n)
        k = n.get("k")
        if k == "ref":
            return n
        if k == "mem":
            if "b" not in n:
                return None
            n = n["b"]
        elif k == "sub":
            n = n["b"]
        elif k == "un" and n["op"] in ("*", "&", "++", "--"):
            n = n["e"]
        elif k == "call" and n.get("op") in ("[]", "*", "->", "()", "=", "+=") and "o" in n:
            n = n["o"]
        elif k == "call" and "o" in n and n.get("_q", "").startswith("std::") and n["_q"].split("::")[-1] in (
                "at", "back", "front", "data", "get", "begin", "end", "str", "c_str"):
            n = n["o"]
        elif k == "this":
            return n
        else:
            return None
    return None


class Summary:
    __slots__ = ("ret", "outs", "events", "effects", "ffx")

    def __init__(self):
        self.ret = E
        self.outs = {}
        self.events = []      # (description, tokens, trace) decided-by tokens of interesting calls
        self.ffx = ()         # fields written with values derived from parameters
        self.effects = ()     # abstract sequence of interesting calls


class Engine:
    """cfg must provide:
       source(n, P, eng, state) -> tokens or None      primitive value sources / sanitizers for calls
       interesting(n, P) -> label or None         calls whose execution must not depend on L
       field(n) -> tokens or None                 member reads"""

    def __init__(self, P, cfg):
        self.P = P
        self.cfg = cfg
        self.sum = {}
        self.active = set()
        self.fields = {}      # (cls, field) -> tokens (only L kept)
        self.changed = False
        self.rec = set()
        self.lambda_ret = {}

    def run(self, fns):
        for it in range(12):
            self.changed = False
            self.old = self.sum
            self.sum = {}
            for f in fns:
                self.summary(f)
            if it and not self.changed:
                break
        return it

    def summary(self, f):
        s = self.sum.get(f.fid)
        if s is not None:
            return s
        if f.fid in self.active:
            o = getattr(self, "old", {}).get(f.fid)
            r = Summary()
            if o:
                r.ret, r.outs, r.events, r.ffx = o.ret, o.outs, o.events, o.ffx
            r.effects = (("rec", f.fid),)
            return r
        self.active.add(f.fid)
        s = FnRun(self, f).go()
        self.active.discard(f.fid)
        o = self.old.get(f.fid)
        if o is None or o.ret != s.ret or o.outs != s.outs or len(o.events) != len(s.events) or o.effects != s.effects or set(o.ffx) != set(s.ffx):
            if f.fid in self.rec or o is None:
                pass
            if o is not None:
                self.changed = True
        self.sum[f.fid] = s
        return s

    def setfield(self, key, toks):
        if hasL(toks) and not hasL(self.fields.get(key, E)):
            self.fields[key] = cap(onlyL(toks))
            self.changed = True


class FnRun:
    def __init__(self, eng, f):
        self.eng, self.f, self.P, self.cfg = eng, f, eng.P, eng.cfg
        self.pidx = {p["d"]: i for i, p in enumerate(f.params)}
        self.ret = E
        self.events = []
        self.evkeys = set()
        self.st = {}
        self.pc = []            # stack of token sets controlling the current point
        self.lin = []           # abstract sequence of interesting calls on this path
        self.retst = None
        self.loops = []
        self.rtoks = E
        self.ffx = set()

    def pct(self):
        r = E
        for x in self.pc:
            r |= x
        return r

    def go(self):
        f = self.f
        self.st = {p["d"]: frozenset([("p", i)]) for i, p in enumerate(f.params)}
        self.tail = [E]
        for i in f.d.get("inits", ()):
            t = self.ev(i["e"])
            if "n" in i and f.cls:
                self.setfield((f.cls, i["n"]), t)
        seq = self.stmt(f.body)
        s = Summary()
        s.ret = self.ret
        fin = self.st if self.st is not None else {}
        ex = [fin] + ([self.retst] if self.retst is not None else [])
        for p in f.params:
            if is_ref_type(p["t"]):
                o = E
                for e in ex:
                    o |= e.get(p["d"], E)
                s.outs[self.pidx[p["d"]]] = o
        s.events = self.events
        s.effects = norm_seq(seq)
        s.ffx = tuple(self.ffx)
        return s

    # -- events ------------------------------------------------------------
    def evkey(self, toks, trace):
        return (trace[0],) if hasL(toks) else toks

    def setfield(self, key, toks):
        if key[0] not in self.cfg.FIELD_CLASSES:
            return
        if not self.cfg.scalar_field(self.P, key):
            return
        self.eng.setfield(key, toks)
        ps = frozenset(x for x in toks if x[0] == "p")
        if ps:
            self.ffx.add((key, ps))

    def event(self, label, n, toks, trace):
        toks = cap(toks)
        key = self.evkey(toks, trace)
        if key in self.evkeys:
            return
        self.evkeys.add(key)
        self.events.append((label, toks, trace))

    # -- expressions -------------------------------------------------------
    def ev(self, n):
        if n is None:
            return E
        k = n.get("k")
        if k in ("int", "flt", "str", "null_ptr", "sizeof", "zero", "fref"):
            return E
        if k == "ref":
            if "g" in n:
                return self.eng.fields.get(("global", n["g"]), E)
            return self.st.get(n["d"], E)
        if k == "this":
            return frozenset([("p", -1)]) if self.f.cls else E
        if k == "mem":
            c = self.cfg.field(n)
            if c is not None:
                return c
            b = self.ev(n["b"]) if "b" in n else E
            if n.get("cls") in self.cfg.FIELD_CLASSES:
                b = E       # tracked per field, not per object
            return b | self.eng.fields.get((n.get("cls"), n["n"]), E)
        if k == "mfref":
            return self.ev(n.get("b"))
        if k == "cast" or k == "opaque":
            return self.ev(n.get("e"))
        if k == "un":
            t = self.ev(n["e"])
            if n["op"] in ("++", "--"):
                self.assign(n["e"], t)
            return t
        if k == "bin":
            op = n["op"]
            if op == "=":
                t = self.ev(n["R"])
                self.evl(n["L"])
                self.assign(n["L"], t, strong=True)
                return t
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                t = self.ev(n["L"]) | self.ev(n["R"])
                self.assign(n["L"], t)
                return t
            if op in ("&&", "||"):
                a = self.ev(n["L"])
                self.pc.append(a)
                sub = []
                b = self.ev(n["R"])
                self.pc.pop()
                return a | b
            if op == ",":
                self.ev(n["L"])
                return self.ev(n["R"])
            return self.ev(n["L"]) | self.ev(n["R"])
        if k == "cond":
            c = self.ev(n["cond"])
            # an assertion: the failing arm does not return
            if is_fail(self.P, n["R"]) or is_fail(self.P, n["L"]):
                keep = n["L"] if is_fail(self.P, n["R"]) else n["R"]
                return self.ev(keep)
            self.pc.append(c)
            a = self.ev(n["L"])
            b = self.ev(n["R"])
            self.pc.pop()
            return c | a | b
        if k == "sub":
            return self.ev(n["b"]) | self.ev(n["i"])
        if k == "init":
            r = E
            for x in n["c"]:
                r |= self.ev(x)
            return r
        if k == "lambda":
            for c in n["caps"]:
                if "i" in c:
                    self.st[c["d"]] = self.ev(c["i"])
            self.lambda_body(n)
            return E
        if k == "ctor":
            return self.call(n)
        if k == "call":
            return self.call(n)
        if k == "new":
            r = E
            if "i" in n:
                r |= self.ev(n["i"])
            if "n" in n and isinstance(n["n"], dict):
                r |= self.ev(n["n"])
            return r
        if k == "delete":
            return self.ev(n["e"])
        if k == "throw":
            self.ev(n.get("e"))
            return E
        if k == "stmtexpr":
            self.stmt(n["body"])
            return E
        r = E
        for c in kids(n):
            r |= self.ev(c)
        return r

    def evl(self, n):
        """Evaluate the sub-expressions of an lvalue (for their calls)."""
        n = strip_casts(n)
        if n.get("k") in ("ref", "this"):
            return
        for c in kids(n):
            self.ev(c)

    def lambda_body(self, n):
        if not any(c.get("ref") or "this" in c for c in n["caps"]) and not self.cfg.lambda_matters(n, self.P):
            return
        saved = (self.ret, self.retst, self.rtoks, self.loops)
        self.ret, self.retst, self.loops = E, None, []
        st0 = dict(self.st)
        for p in n["ps"]:
            self.st[p["d"]] = E
        self.st = dict(self.st)
        self.stmt(n["body"])
        self.eng.lambda_ret[n["d"]] = self.ret
        self.ret, self.retst, self.rtoks, self.loops = saved
        merged = dict(st0)
        for c in n["caps"]:
            if c.get("ref") and self.st is not None:
                merged[c["d"]] = st0.get(c["d"], E) | self.st.get(c["d"], E)
        self.st = merged

    def assign(self, lv, t, strong=False):
        t0 = t
        t = t | self.pct()
        lv0 = strip_casts(lv)
        k = lv0.get("k")
        if k == "mem":
            cls = lv0.get("cls")
            b = lv0.get("b")
            bv = base_var(lv0)
            if cls and cls.startswith("Omega_h") and not (bv and bv.get("k") == "ref" and not bv.get("p")):
                self.setfield((cls, lv0["n"]), t0)
        v = base_var(lv0)
        if v is None or v.get("k") == "this":
            return
        if "g" in v:
            self.setfield(("global", v["g"]), t)
            return
        if strong and k == "ref":
            self.st[v["d"]] = t
        elif strong and k == "un" and lv0["op"] == "*" and strip_casts(lv0["e"]).get("k") == "ref":
            self.st[v["d"]] = t
        else:
            self.st[v["d"]] = self.st.get(v["d"], E) | t

    def subst(self, toks, obj, args):
        r = set()
        for x in toks:
            if x[0] == "p":
                if x[1] == -1:
                    r |= obj
                elif x[1] < len(args):
                    r |= args[x[1]]
            else:
                r.add(x)
        return cap(frozenset(r))

    def call(self, n):
        P = self.P
        obj = self.ev(n["o"]) if "o" in n else E
        m = P.meta(n)
        if "o" in n and m and m.get("cls") in self.cfg.FIELD_CLASSES:
            obj = E
        if "fe" in n:
            obj = obj | self.ev(n["fe"])
        args = [self.ev(a) for a in n["a"]]
        lab = self.cfg.interesting(n, P)
        if lab and self.cfg.skip_events(self, n):
            lab = None
        if lab:
            self.event(lab, n, self.pct(), (self.f.where(n),))
            self.emit(lab)
        src = self.cfg.source(n, P, self, obj, args)
        if src is not None:
            return src
        tg = P.targets(n)
        # assignment operators
        if n.get("op") == "=" and "o" in n:
            t = E
            for a in args:
                t |= a
            self.assign(n["o"], t, strong=True)
            return t
        if not tg or (n.get("op") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=")):
            r = obj
            for a in args:
                r |= a
            if n["k"] == "call":
                m = P.meta(n)
                q = n.get("_q", "")
                mut = "o" in n and not (m and m.get("const"))
                if mut and (r - obj or self.pct()) and not q.startswith("std::basic_string::operator["):
                    v = base_var(n["o"])
                    if v is not None and v.get("k") == "ref" and "g" not in v and not n.get("op") in ("[]", "*", "->", "()"):
                        self.assign(n["o"], r)
                elif n.get("op") in ("<<", ">>") and "o" not in n:
                    for a in n["a"]:
                        if base_var(a) is not None:
                            self.assign(a, r)
                elif "o" not in n and not q.startswith("std::"):
                    pass
                if n.get("op") == ">>" and "o" in n:
                    for a in n["a"]:
                        self.assign(a, r)
                for a in n["a"]:
                    sa = strip_casts(a)
                    if sa.get("k") == "un" and sa["op"] == "&":
                        self.assign(sa["e"], r)
                if q in ("std::getline",):
                    for a in n["a"]:
                        self.assign(a, r)
            return r
        r = E
        if len(tg) > 1:
            pass
        effs = set()
        for t in tg:
            s = self.eng.summary(t)
            r |= self.subst(s.ret, obj, args)
            for i, o in s.outs.items():
                if i < len(n["a"]):
                    tk = self.subst(o, obj, args)
                    a = strip_casts(n["a"][i])
                    if a.get("k") == "un" and a["op"] == "&":
                        self.assign(a["e"], tk, strong=len(tg) == 1)
                    elif base_var(a) is not None and base_var(a).get("k") == "ref":
                        pt = t.params[i]["t"]
                        if pt.endswith("&") or a.get("k") == "ref":
                            self.assign(a, tk, strong=len(tg) == 1 and a.get("k") == "ref")
            pct = self.pct()
            for key, toks in s.ffx:
                self.setfield(key, self.subst(toks, obj, args))
            skip = self.cfg.skip_events(self, n)
            for lab, toks, tr in s.events:
                if skip:
                    break
                tk = self.subst(toks, obj, args) | pct
                if len(tr) < 7:
                    if hasL(toks):
                        continue  # reported inside the callee
                    self.event(lab, n, tk, (self.f.where(n),) + tr)
            effs.add(() if skip else s.effects)
        if len(effs) == 1:
            for x in next(iter(effs)):
                self.emit(x)
        elif effs:
            self.emit(("virt", tuple(sorted(map(repr, effs)))))
        return r

    # -- statements: returns the abstract sequence of interesting calls -----
    def emit(self, lab):
        self.lin.append(lab)

    def with_seq(self, fn):
        old, self.lin = self.lin, []
        fn()
        r, self.lin = self.lin, old
        return r

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        r = dict(a)
        for k in a:
            if isinstance(k, tuple) and k not in b:
                del r[k]
        for k, v in b.items():
            if isinstance(k, tuple) and k not in a:
                continue
            o = r.get(k)
            r[k] = v if o is None else (o | v)
        return r

    def stmt(self, n):
        return self.with_seq(lambda: self._stmt(n))

    def run_block(self, stmts):
        """Statements in order; a conditional exit makes the rest depend on its condition."""
        pushed = 0
        for s in stmts:
            if s is None:
                continue
            if self.st is None:
                break
            ex = self._stmt(s)
            if ex:
                self.pc.append(ex)
                pushed += 1
        r = E
        for _ in range(pushed):
            r |= self.pc.pop()
        return r

    def _stmt(self, n):
        """Execute; returns the tokens deciding whether control continues after n."""
        if n is None or self.st is None:
            return E
        k = n.get("k")
        if k == "block":
            return self.run_block(n["c"])
        if k == "decl":
            for v in n["c"]:
                t = self.ev(v["i"]) if "i" in v else E
                self.st[v["d"]] = t | self.pct()
                self.cfg.declared(self, v)
            return E
        if k == "if":
            if "init" in n:
                self._stmt(n["init"])
            if "cv" in n:
                self._stmt(n["cv"])
            c = self.ev(n["cond"])
            cv = strip_casts(n["cond"]).get("v")
            if n.get("ce") and cv is not None:
                if cv:
                    return self._stmt(n["then"])
                return self._stmt(n.get("else"))
            st0 = self.st
            self.pc.append(c)
            lin0 = self.lin
            e0 = len(self.events)
            self.st, self.lin = dict(st0), []
            x1 = self._stmt(n["then"])
            s1, l1 = self.st, self.lin
            self.st, self.lin = dict(st0), []
            x2 = self._stmt(n.get("else"))
            s2, l2 = self.st, self.lin
            self.pc.pop()
            self.lin = lin0
            f1 = fails(self.P, n["then"])
            f2 = fails(self.P, n.get("else"))
            q1, q2 = norm_seq(l1), norm_seq(l2)
            if q1 == q2:
                self.lin += l1
                if q1 and s1 is not None and s2 is not None:
                    # both arms run the same collectives: the condition does not decide them
                    drop = c - self.pct()
                    new = self.events[e0:]
                    self.events[e0:] = []
                    for lab, t, tr in new:
                        self.evkeys.discard(self.evkey(t, tr))
                    for lab, t, tr in new:
                        t = t - drop
                        key = self.evkey(t, tr)
                        if key not in self.evkeys:
                            self.evkeys.add(key)
                            self.events.append((lab, t, tr))
            elif q1 or q2:
                self.lin.append(("alt", q1, q2))
            if s1 is None and s2 is None:
                self.st = None
                return E
            if s1 is None:
                self.st = s2
                return E if f1 else c | x2
            if s2 is None:
                self.st = s1
                return E if f2 else c | x1
            self.st = self.join(s1, s2)
            return x1 | x2
        if k in ("for", "while", "do", "rfor"):
            return self.loop(n, k)
        if k == "switch":
            c = self.ev(n["cond"])
            st0 = self.st
            self.pc.append(c)
            lin0, self.lin = self.lin, []
            r0, self.rtoks = self.rtoks, E
            self.loops.append({"brk": [], "x": E, "sw": True})
            body = n["body"]
            stmts = body["c"] if body.get("k") == "block" else [body]
            has_def = False
            out = None
            self.st = None
            flat = []
            for s in stmts:
                labs = 0
                while s is not None and s.get("k") in ("case", "default"):
                    has_def |= s["k"] == "default"
                    labs = 1
                    s = s["body"]
                flat.append((labs, s))
            x = E
            alts = []
            cur = []
            for lab, s in flat:
                if lab:
                    if self.lin:
                        alts.append(norm_seq(self.lin))
                    self.lin = []
                    self.st = self.join(self.st, dict(st0))
                if self.st is not None:
                    x |= self._stmt(s)
            if self.lin:
                alts.append(norm_seq(self.lin))
            lp = self.loops.pop()
            for b in lp["brk"]:
                self.st = self.join(self.st, b)
            if not has_def and not n.get("allenum"):
                self.st = self.join(self.st, st0)
            self.pc.pop()
            self.lin = lin0
            if alts:
                self.lin.append(("alt",) + tuple(alts))
            rt, self.rtoks = self.rtoks, self.rtoks | r0
            return rt
        if k in ("case", "default", "label", "attr"):
            return self._stmt(n["body"])
        if k == "ret":
            if "e" in n:
                self.ret = self.ret | self.ev(n["e"]) | self.pct()
            self.rtoks = self.rtoks | self.pct()
            self.retst = self.join(self.retst, self.st)
            self.st = None
            return E
        if k == "break":
            if self.loops:
                self.loops[-1]["brk"].append(self.st)
                self.loops[-1]["x"] = self.loops[-1]["x"] | self.pct_since(self.loops[-1])
            self.st = None
            return E
        if k == "cont":
            for lp in reversed(self.loops):
                if not lp.get("sw"):
                    lp["cont"].append(self.st)
                    break
            self.st = None
            return E
        if k == "try":
            x = self._stmt(n["body"])
            for h in n["h"]:
                st = self.st
                self.st = dict(st) if st is not None else {}
                self._stmt(h["body"])
                self.st = self.join(st, self.st)
            return x
        if k in ("null", "goto"):
            return E
        if k == "other":
            for c in n["c"]:
                if c:
                    self._stmt(c)
            return E
        # expression statement
        self.ev(n)
        if is_fail(self.P, n):
            self.st = None
        return E

    def pct_since(self, lp):
        r = E
        for x in self.pc[lp.get("pcn", 0):]:
            r |= x
        return r

    def loop(self, n, k):
        if k == "for" and "init" in n:
            self._stmt(n["init"])
        rng = E
        if k == "rfor":
            rng = self.ev(n["range"])
            self.st[n["var"]["d"]] = rng
        lin0, self.lin = self.lin, []
        r0, self.rtoks = self.rtoks, E
        exit_toks = E
        entry = self.st
        guard = 0
        while True:
            guard += 1
            self.st = dict(entry)
            lp = {"brk": [], "cont": [], "x": E, "pcn": len(self.pc)}
            self.lin = []
            c = rng
            npush = 0
            if k in ("for", "while"):
                if "cv" in n:
                    self._stmt(n["cv"])
                if "cond" in n:
                    c = c | self.ev(n["cond"])
            self.pc.append(c | exit_toks)
            lp["pcn"] = len(self.pc) - 1
            self.loops.append(lp)
            x = self._stmt(n["body"])
            self.loops.pop()
            for b in lp["cont"]:
                self.st = self.join(self.st, b)
            if self.st is not None:
                if k == "for" and "inc" in n:
                    self.ev(n["inc"])
                if k == "do":
                    c = c | self.ev(n["cond"])
            self.pc.pop()
            nx = exit_toks | lp["x"] | x | c
            back = self.st
            new = self.join(dict(entry), back)
            out = back
            for b in lp["brk"]:
                out = self.join(out, b)
            # values changed by the loop depend on the trip count
            if (nx == exit_toks and new == entry) or guard > 8:
                break
            exit_toks = nx
            entry = new
        res = entry if k != "do" else None
        res = self.join(res, out)
        cc = exit_toks
        if cc:
            res = dict(res)
            for d, t in list(res.items()):
                pass
        self.st = res
        body = norm_seq(self.lin)
        self.lin = lin0
        if body:
            self.lin.append(("loop", body))
        # leaving the function from inside the loop
        rt, self.rtoks = self.rtoks, self.rtoks | r0
        return rt


def norm_seq(l):
    return tuple(l)


def is_fail(P, n):
    n = strip_casts(n)
    if n is None:
        return False
    if n.get("k") == "call" and P.noreturn(n):
        return True
    if n.get("k") == "throw":
        return True
    if n.get("k") == "cond":
        # OMEGA_H_CHECK(false)
        c = strip_casts(n["cond"])
        return c.get("v") == 0 and is_fail(P, n["R"]) if "v" in c else False
    return False


def fails(P, n):
    """Does the statement always end the process?"""
    if n is None:
        return False
    if n.get("k") == "block":
        return any(fails(P, x) for x in n["c"] if x)
    if n.get("k") in ("attr",):
        return fails(P, n["body"])
    return is_fail(P, n)
