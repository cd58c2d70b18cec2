"""Terms evaluated at the points of a finite domain (alignment codes, vertex orders, ...)."""
from .core import *
from .kern import *


class Unknown(Exception):
    pass


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


OPS = {"&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b,
       "%": lambda a, b: a - b * cdiv(a, b), "/": cdiv, "-": lambda a, b: a - b}


class Conc:
    """env: values of variables (terms); reads: {array term: function of index}; calls: {name: function}."""

    fields = {"up": 0, "which_down": 1, "is_flipped": 2}      # struct TemplateUp

    def __init__(self, env=None, reads=None, calls=None, loops=()):
        self.loops = loops
        self.env, self.reads, self.calls = env or {}, reads or {}, calls or {}

    def __call__(self, t):
        if t in self.env:
            return self.env[t]
        h = t[0]
        if h == "c":
            return t[1]
        if h == "+":
            return t[1] + sum(k * self(x) for k, x in t[2])
        if h == "*":
            r = 1
            for x in t[1:]:
                r *= self(x)
            return r
        if h == "b":
            if t[1] in ("/", "%") and self(t[3]) == 0:
                raise Unknown("division by zero")
            return OPS[t[1]](int(self(t[2])), int(self(t[3])))
        if h in ("&", "|", "^"):
            r = int(self(t[1]))
            for x in t[2:]:
                r = OPS[h](r, int(self(x)))
            return r
        if h == "ite":
            return self(t[2]) if self(t[1]) else self(t[3])
        if h == "not":
            return not self(t[1])
        if h == "and":
            return all(self(x) for x in t[1:])
        if h == "or":
            return any(self(x) for x in t[1:])
        if h == "<":
            return self(t[1]) < self(t[2])
        if h == "<=":
            return self(t[1]) <= self(t[2])
        if h == "==":
            return self(t[1]) == self(t[2])
        if h in ("min", "max"):
            return (min if h == "min" else max)(self(x) for x in t[1:])
        if h == "ex":
            b = t[1]
            for v in range(self(b[1]), self(b[2])):
                if Conc({**self.env, b: v}, self.reads, self.calls, self.loops)(t[2]):
                    return True
            return False
        if h == "fold":
            L = [x for x in self.loops if t[5] in x[2] and x[0] == t[1]]
            if len(L) != 1:
                raise Unknown("loop")
            b, brk, vs = L[0]
            st = {m: self(i) for m, (i, _) in vs.items()}
            for v in range(self(b[1]), self(b[2])):
                E = Conc({**self.env, **st, b: v}, self.reads, self.calls, self.loops)
                stop = E(brk)
                st = {m: E(s) for m, (_, s) in vs.items()}
                if stop:
                    break
            return st[t[5]]
        if h == "u" and t[1] == "~":
            return ~self(t[2])
        if h == "at" and t[1] in self.reads:
            return self.reads[t[1]](*[self(x) for x in t[2:]])
        if h == "at" and t[1][:1] == ("arr",):
            return self(t[1][1 + self(t[2])])
        if h == "mem" and t[1] in self.fields and t[2][:1] == ("list",):
            return self(t[2][1 + self.fields[t[1]]])
        if h in ("call", "mem") and t[1] in self.calls:
            return self.calls[t[1]](*[self(x) for x in t[2:]])
        if h == "new" and t[1] in self.calls:
            return self.calls[t[1]](*[self(x) for x in t[2:]])
        raise Unknown(tshow(t)[:80])
