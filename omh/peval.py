"""Partial evaluation of a function body under a decision procedure for some of its tests.

`effects` reduces a function to the tree of things it does (calls made for effect, assignments
to storage that outlives a statement, loops, undecided branches, returns) with local variables
replaced by what they hold.  Temporaries, their names, the order of independent local
definitions, switch versus if chains and early exits all disappear."""
from .core import *

ELEM = re.compile(r"(signed char|unsigned char|long long|\bint\b|\blong\b|\bdouble\b|\bI8\b|\bI32\b|\bI64\b|\bReal\b|\bLO\b|\bGO\b|\bchar\b)")
CANON = {"signed char": "I8", "int": "I32", "long": "I64", "double": "F64", "I8": "I8", "I32": "I32", "I64": "I64", "Real": "F64",
         "LO": "I32", "GO": "I64", "long long": "I64", "unsigned char": "U8", "char": "C"}


class Ty(str):
    """Element type named at some position."""
    def __repr__(self):
        return "<%s>" % str.__str__(self)


def toks(s):
    out = []
    for i, x in enumerate(ELEM.split(s)):
        if i % 2:
            out.append(Ty(CANON[x]))
        elif x:
            out.append(x)
    return tuple(out)


class Stop(Exception):
    pass


class PE:
    def __init__(self, P, fn, test, switch=None, call=None):
        self.P, self.fn, self.test, self.switch, self.callhook = P, fn, test, switch, call
        self.decided = []          # tests that were folded
        self.n = 0
        self.loopn = 0

    def run(self):
        env = {}
        out = []
        self.block(self.fn.body, env, out)
        return out

    # ---- expressions
    def sym(self, tag):
        self.n += 1
        return ("var", tag)

    def x(self, n, env):
        n = strip(n)
        k = n.get("k")
        if k == "ref":
            if n["d"] in env:
                return env[n["d"]]
            return ("ref", n["n"])
        if k == "this":
            return ("this",)
        if k == "int":
            return ("int", n.get("en") or n["v"])
        if k == "flt":
            return ("flt", str(n["v"]))
        if k == "str":
            return ("str", n["v"])
        if k == "mem":
            return ("mem", n["n"], self.x(n["b"], env) if n.get("b") else ("this",))
        if k in ("call", "ctor"):
            m = self.P.callee[n["f"]] if "f" in n else None
            nm = toks(n.get("_q", "?"))
            if m and m.get("ta"):
                nm += ("<",) + toks(",".join(m["ta"])) + (">",)
            xs = []
            if "o" in n:
                o = self.x(n["o"], env)
                if n.get("_q", "").startswith("Omega_h::TagBase::"):
                    # what the base class answers does not depend on how the object is viewed
                    while o[0] == "call" and o[1] and str(o[1][0]).startswith("Omega_h::as") and len(o) == 3:
                        o = o[2]
                xs.append(o)
            if "fe" in n:
                xs.append(self.x(n["fe"], env))
            xs += [self.x(a, env) for a in n.get("a", [])]
            return (k, nm) + tuple(xs)
        if k == "bin":
            return ("bin", n["op"], self.x(n["L"], env), self.x(n["R"], env))
        if k == "un":
            return ("un", n["op"], self.x(n["e"], env))
        if k == "sub":
            return ("sub", self.x(n["b"], env), self.x(n["i"], env))
        if k == "cond":
            t = self.truth(n["cond"], env)
            if t is True:
                return self.x(n["L"], env)
            if t is False:
                return self.x(n["R"], env)
            return ("?", self.x(n["cond"], env), self.x(n["L"], env), self.x(n["R"], env))
        if k == "lambda":
            out = []
            e2 = dict(env)
            self.block(n["body"], e2, out)
            return ("lambda", tuple(out))
        return (k,) + tuple(self.x(c, env) for c in kids(n))

    def truth(self, n, env):
        n = strip_casts(n)
        k = n.get("k")
        if k == "un" and n["op"] == "!":
            t = self.truth(n["e"], env)
            return None if t is None else not t
        if k == "bin" and n["op"] in ("&&", "||"):
            a, b = self.truth(n["L"], env), self.truth(n["R"], env)
            if n["op"] == "&&":
                if a is False or b is False:
                    return False
                return True if a and b else None
            if a is True or b is True:
                return True
            return False if a is False and b is False else None
        if k == "int" and n.get("b"):
            return bool(n["v"])
        t = self.test(n, env, self)
        if t is not None:
            self.decided.append(n)
        return t

    # ---- statements
    def assigned(self, n):
        s = set()
        for x in walk(n):
            t = None
            if x.get("k") == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                t = x["L"]
            elif x.get("k") == "un" and x["op"] in ("++", "--", "post++", "post--"):
                t = x["e"]
            elif x.get("k") == "call" and x.get("op", "").endswith("=") and x.get("op") not in ("==", "!=", "<=", ">=") and "o" in x:
                t = x["o"]
            if t is not None:
                t = strip(t)
                if t.get("k") == "ref":
                    s.add((t["d"], t["n"]))
        return s

    def block(self, n, env, out):
        """Append events; return True when control does not reach the end."""
        k = n.get("k")
        if k in ("block", "stmts", None):
            for c in n.get("c", []):
                if self.block(c, env, out):
                    return True
            return False
        if k == "decl":
            for v in n["c"]:
                if v.get("k") == "var":
                    i = v.get("i")
                    if i is None or (i.get("k") == "ctor" and not i["a"]) or i.get("k") == "zero":
                        env[v["d"]] = ("var", v["n"], toks(short(v.get("t", ""))))
                    else:
                        env[v["d"]] = self.x(i, env)
                        if strip(i).get("k") == "lambda":
                            pass
            return False
        if k == "if":
            if n.get("init"):
                self.block(n["init"], env, out)
            if n.get("cv"):
                self.block({"k": "decl", "c": [n["cv"]]}, env, out)
            t = self.truth(n["cond"], env)
            if t is True:
                return self.block(n["then"], env, out)
            if t is False:
                return self.block(n["else"], env, out) if n.get("else") else False
            e1, e2, o1, o2 = dict(env), dict(env), [], []
            c = self.x(n["cond"], env)
            s1 = self.block(n["then"], e1, o1)
            s2 = self.block(n["else"], e2, o2) if n.get("else") else False
            if o1 or o2 or s1 != s2:
                out.append(("if", c, tuple(o1), tuple(o2)))
            if s1 and s2:
                return True
            self.merge(env, [e for e, s in ((e1, s1), (e2, s2)) if not s], c)
            return False
        if k == "switch":
            return self.do_switch(n, env, out)
        if k in ("for", "while", "do", "rfor"):
            self.loopn += 1
            if n.get("init"):
                self.block(n["init"], env, out)
            for d, nm in self.assigned(n):
                if d in env:
                    env[d] = ("phi", nm)
            e = env
            if n.get("var"):
                env[n["var"]["d"]] = ("each", n["var"]["n"])
            body = []
            c = self.x(n["cond"], env) if n.get("cond") else ("true",)
            if k == "rfor":
                c = self.x(n["range"], env)
            self.block(n["body"], e, body)
            out.append(("loop", c, tuple(body)))
            for d, nm in self.assigned(n):
                if d in env:
                    env[d] = ("phi", nm)
            return False
        if k == "ret":
            out.append(("return", self.x(n["e"], env) if n.get("e") else ()))
            return True
        if k in ("break", "cont"):
            if k == "cont":
                out.append((k,))
            return True
        if k in ("case", "default", "label", "attr"):
            return self.block(n["body"], env, out) if n.get("body") else False
        if k == "null":
            return False
        # expression statement
        e = strip_casts(n)
        k = e.get("k")
        if k == "cond":
            a, b = strip_casts(e["L"]), strip_casts(e["R"])
            for arm in (a, b):
                if "f" in arm and self.P.noreturn(arm):
                    t = self.truth(e["cond"], env)
                    if t is not None and (arm is a) == t:
                        out.append(("fail",))
                        return True
                    return False      # an assertion
        if "f" in e and self.P.noreturn(e):
            out.append(("fail",))
            return True
        if k == "bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
            l = strip(e["L"])
            r = self.x(e["R"], env)
            if l.get("k") == "ref" and l["d"] in env:
                env[l["d"]] = r if e["op"] == "=" else ("bin", e["op"], env[l["d"]], r)
            else:
                out.append(("assign", e["op"], self.x(l, env), r))
            return False
        if k == "call" and e.get("op") == "=" and "o" in e and e["a"]:
            l = strip(e["o"])
            r = self.x(e["a"][0], env)
            if l.get("k") == "ref" and l["d"] in env:
                env[l["d"]] = r
            else:
                out.append(("assign", "=", self.x(l, env), r))
            return False
        if k == "un" and e["op"] in ("++", "--"):
            l = strip(e["e"])
            if l.get("k") == "ref" and l["d"] in env:
                env[l["d"]] = ("un", e["op"], env[l["d"]])
                return False
        if k in ("call", "ctor"):
            out.append(("do", self.x(e, env)))
            return False
        if k in ("int", "ref"):
            return False
        if k in ("try", "catch"):
            if n.get("body"):
                return self.block(n["body"], env, out)
            return False
        out.append(("do", self.x(e, env)))
        return False

    def merge(self, env, es, c):
        if not es:
            return
        for d in list(env):
            vs = [e.get(d) for e in es]
            if all(v == vs[0] for v in vs):
                env[d] = vs[0]
            else:
                env[d] = ("?", c) + tuple(vs)

    def do_switch(self, n, env, out):
        arms = []           # (label nodes, statements) in order, with fall-through kept
        for s in n["body"].get("c", []):
            labs = []
            while s is not None and s.get("k") in ("case", "default"):
                labs.append(s)
                s = s.get("body")
            if labs:
                arms.append([labs, []])
            if s is not None and arms:
                arms[-1][1].append(s)
        verdicts = []
        for labs, _ in arms:
            v = False
            for l in labs:
                if l["k"] == "default":
                    t = "default"
                else:
                    t = self.switch(n["cond"], l["val"], env, self) if self.switch else None
                if t == "default":
                    v = v or "default"
                elif t is None:
                    v = None
                    break
                elif t:
                    v = True
                    break
            verdicts.append(v)
            if v is None:
                break
        if None in verdicts:
            es, evs = [], []
            c = self.x(n["cond"], env)
            for i, (labs, _) in enumerate(arms):
                e1, o1 = dict(env), []
                s = False
                for _, ss in arms[i:]:
                    for st in ss:
                        if st.get("k") == "break":
                            s = True
                            break
                        if self.block(st, e1, o1):
                            s = True
                            break
                    if s:
                        break
                evs.append((tuple(self.x(l["val"], env) if l["k"] == "case" else "default" for l in labs), tuple(o1)))
                es.append(e1)
            out.append(("switch", c, tuple(evs)))
            self.merge(env, es + [dict(env)], c)
            return False
        self.decided.append(n)
        start = None
        for i, v in enumerate(verdicts):
            if v is True:
                start = i
                break
        if start is None:
            for i, v in enumerate(verdicts):
                if v == "default":
                    start = i
        if start is None:
            out.append(("nocase",))
            return False
        for _, ss in arms[start:]:
            for st in ss:
                r = self.switch_block(st, env, out)
                if r == "break":
                    return False
                if r:
                    return True
        return False

    def switch_block(self, st, env, out):
        if st.get("k") == "break":
            return "break"
        if st.get("k") == "block":
            for c in st["c"]:
                r = self.switch_block(c, env, out)
                if r:
                    return r
            return False
        return self.block(st, env, out)


def unify(a, b, ta, tb, more=False):
    """None when the two effect trees agree modulo the element type, else the differing pair.
    With more=True the second may choose between the first's value and others."""
    if more and isinstance(b, tuple) and len(b) > 2 and b[0] == "?" and not (isinstance(a, tuple) and a and a[0] == "?"):
        for x in b[2:]:
            if unify(a, x, ta, tb, more) is None:
                return None
        return (a, b)
    if isinstance(a, Ty) or isinstance(b, Ty):
        if type(a) is type(b) and (str(a) == str(b) or (str(a) == ta and str(b) == tb)):
            return None
        return (a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return (a, b)
        for x, y in zip(a, b):
            d = unify(x, y, ta, tb, more)
            if d:
                return d
        return None
    return None if a == b else (a, b)


def text(t, lim=160):
    def r(t):
        if isinstance(t, Ty):
            return str.__str__(t)
        if isinstance(t, tuple):
            if t and t[0] in ("call", "ctor"):
                nm = "".join(str.__str__(x) for x in t[1]).replace("Omega_h::", "")
                return "%s(%s)" % (nm, ", ".join(r(x) for x in t[2:]))
            if t and t[0] in ("ref", "int", "var", "phi", "each", "flt") and len(t) > 1:
                return str(t[1])
            if t and t[0] == "bin":
                return "%s %s %s" % (r(t[2]), t[1], r(t[3]))
            if t and t[0] == "mem":
                return r(t[2]) + "." + t[1]
            if t and t[0] == "do":
                return r(t[1])
            if t == ("nocase",):
                return "nothing (no case)"
            return "(" + " ".join(r(x) for x in t) + ")"
        return str(t)
    s = r(t)
    return s if len(s) <= lim else s[:lim] + "..."
