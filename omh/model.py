"""Finite models of terms.

Two normal forms that are not written alike may still mean the same.  A difference is reported only if a finite structure
separates them: the terms (never the program) are given values in structures with a few elements, where every symbol the
analysis leaves uninterpreted is a table filled in arbitrarily but equally for both."""
import hashlib
from fractions import Fraction
from .core import *
from .kern import *
from .kern import isc
from .conc import Unknown, cdiv


class Reject(Exception):
    """The structure is not one the function is defined on."""


def h(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=6).digest(), "big")


class Sym:
    """A value known only by name: a number or an array, as it is used."""
    __slots__ = ("m", "key", "kind")

    def __init__(self, m, key, kind=None):
        self.m, self.key, self.kind = m, key, kind

    def num(self):
        return self.m.number(self.key, self.kind)

    def size(self):
        return self.m.sized(self.key, self.kind)

    def get(self, i):
        return self.m.entry(self, i)

    def canon(self):
        return ("sym",) + self.key if isinstance(self.key, tuple) else ("sym", self.key)


class Arr:
    __slots__ = ("n", "d", "init", "key")

    def __init__(self, n, init, key):
        self.n, self.d, self.init, self.key = n, {}, init, key

    def size(self):
        return self.n

    def get(self, i):
        if i in self.d:
            return self.d[i]
        if self.init is not None:
            return self.init
        return ("junk",)

    def canon(self):
        return ("arr", self.n, tuple(val(self.get(i)) for i in range(max(0, min(self.n, 400)))))


class Over(Arr):
    """A given array and what is stored over it."""
    def __init__(self, base):
        self.n, self.d, self.init, self.key = 0, {}, base, None

    def size(self):
        return self.init.size()

    def get(self, i):
        return self.d[i] if i in self.d else self.init.get(i)


def num(v):
    if isinstance(v, Sym):
        return v.num()
    if isinstance(v, (int, Fraction)):
        return v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, tuple) and v[:1] in (("junk",), ("out",)):
        raise Reject("a value that is not set is used")
    raise Unknown("not a number: %s" % (str(v)[:40],))


def val(v):
    """A comparable value."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, Fraction)):
        return v
    if isinstance(v, Sym) and (v.kind in NUMBERS or isinstance(v.key, tuple) and v.key[0] == "at"):
        return v.num()
    if isinstance(v, (Sym, Arr)):
        return v.canon()
    if isinstance(v, tuple):
        return tuple(val(x) for x in v)
    return v


def beyond(a):
    """What is stored outside an array."""
    return {k for k in a.d if not 0 <= k < a.n} if type(a) is Arr else set()


def equal(a, b):
    if isinstance(a, (Arr, Sym)) and isinstance(b, (Arr, Sym)):
        if isinstance(a, Sym) and isinstance(b, Sym):
            return a.key == b.key or val(a) == val(b)
        n = a.size()
        if beyond(a) != beyond(b):
            return False
        return n == b.size() and all(equal(a.get(i), b.get(i)) for i in range(max(0, min(n, 400))))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, Sym) and isinstance(b, (int, Fraction)) or isinstance(b, Sym) and isinstance(a, (int, Fraction)):
        return num(a) == num(b)
    return val(a) == val(b)


NUMBERS = ("int", "bool", "real", "code", "deg")
SKIP = {"write", "read", "deep_copy", "move", "forward"}


class Structure:
    """Tables for the symbols, filled in on demand from the seed."""

    def __init__(self, seed, offsets=(), types={}, limits={}, facts={}):
        self.seed, self.offsets, self.types, self.limits = seed, set(offsets), types, limits
        self.facts = facts       # what holds of the arguments: {("size", array): term, ("num", scalar): term}
        self.cache = {}
        self.neg = seed % 4 == 3
        self.big = seed % 3 == 2

    def r(self, *k):
        return h(self.seed, *k)

    def fact(self, k):
        """A value that the arguments are required to have."""
        if k not in self.facts or ("busy", k) in self.cache:
            return None
        if k not in self.cache:
            self.cache["busy", k] = True
            v = Model(self).int(self.facts[k])
            del self.cache["busy", k]
            if v < 0:
                raise Reject("size")
            self.cache[k] = v
        return self.cache[k]

    def number(self, key, kind):
        v = self.fact(("num", key)) if self.facts else None
        if v is not None:
            return v
        if key[:1] == ("call",) and key[1:2] in (("nroots",), ("nitems",)):
            return self.plan(key)
        x = self.r("n", key)
        if key[:2] == ("call", "rank") and len(key) == 3 and isinstance(key[2], tuple) and key[2][:1] == ("sym",):
            return x % max(1, self.sized(key[2][1:], None))
        if kind == "deg":
            return 1 + x % 4
        if kind == "bool":
            return x % 2
        if kind and kind.startswith("below"):
            return x % int(kind[5:])
        if kind == "code":
            return x % 16
        if kind == "int":
            return x % 4 if self.seed % 5 == 0 else 1 + x % 3
        if kind == "real" or self.neg:
            return x % 7 - 3
        return x % (6 if self.big else 4)

    def plan(self, key):
        """Sizes of what a redistribution plan says."""
        n, d = key[1], key[2] if len(key) > 2 else None
        if n == "nroots":
            return self.sized(("call", "roots2items", d), None) - 1
        if n == "nitems":
            r = ("call", "roots2items", d)
            return self.offset(r, self.sized(r, None) - 1)
        if n in ("items2ranks", "items2msgs", "items2dest_idxs"):
            return self.number(("call", "nitems", d), None)
        if n == "exch" and len(key) == 5 and not isinstance(key[4], tuple):
            d = d[2] if d[:2] == ("call", "invert") else d[3] if d[:3] == ("sym", "call", "invert") else ("sym", "call", "invert", d)
            return self.number(("call", "nitems", d), None) * int(key[4])

    def isoff(self, key):
        return key in self.offsets or isinstance(key, tuple) and key[:2] in (("mem", "a2ab"), ("call", "roots2items"))

    def sized(self, key, kind):
        v = self.fact(("size", key)) if self.facts else None
        if v is not None:
            return v
        if key[:2] == ("call", "get_array") and len(key) > 3:
            return self.number(("call", "nents") + key[2:4], None)
        if key[:2] == ("call", "owned") and len(key) == 4:
            return self.number(("call", "nents") + key[2:4], None)
        if self.isoff(key):
            return 1 + self.r("s", key) % 4
        if key[:2] in (("call", "comm"), ("call", "parent_comm"), ("p", "comm")):
            return 1 + self.r("s", key) % 4        # processes
        if key[:1] == ("call",):
            v = self.plan(key)
            if v is not None:
                return v
        base = key
        if isinstance(key, tuple) and key[0] == "mem" and key[1] in ("ab2b", "codes", "parent_idx", "idxs", "ranks"):
            off = ("mem", "a2ab", key[2])
            if key[1] == "ab2b" or key[1] == "codes" and ("mem", "ab2b", key[2]) in self.cache.get("seen", ()):
                return self.offset(off, self.sized(off, None) - 1) if self.isoff(off) else self.r("s", ("rows", key[2])) % 5
            base = ("rows", key[2])
        x = self.r("s", base)
        return (0, 1, 2, 3, 4, 6, 12, 2)[x % 8]

    def offset(self, key, i):
        if i < 0:
            return -1
        k = ("off", key, i)
        if k not in self.cache:
            self.cache[k] = 0 if i == 0 else self.offset(key, i - 1) + self.r("o", key, i) % 3
        return self.cache[k]

    def entry(self, s, i):
        key = s.key
        if self.isoff(key):
            return self.offset(key, i)
        return Sym(self, ("at", key, i), self.kind(s))

    def kind(self, s):
        key = s.key
        if isinstance(key, tuple) and key[0] == "mem" and key[1] == "codes":
            return "code"
        if key[:2] == ("call", "ask_leaves"):
            return "bool"
        return {"arr:I8": "bool", "arr:code": "code", "arr:Real": "real", "arr:int": "int"}.get(s.kind, None)


class Model:
    """Values of terms.  K: the analysed function whose stores give arrays their contents (None for definitions)."""

    def __init__(self, S, K=None, env=None, interp=None, eqs={}):
        self.S, self.K = S, K
        self.env = dict(env or {})
        self.heap = {}
        self.wholes = {}
        self.interp, self.eqs = COMMON if interp is None else interp, eqs
        self.steps = 0
        self.strict = True
        self.mus = {}
        self.selfs = []
        if K:
            for b, brk, st in K.loops:
                for mu in st:
                    self.mus.setdefault(mu, []).append((b, brk, st))

    # ---- running the recorded stores in order
    def play(self):
        ev = [e for e in self.K.events if e.kind in ("store", "fail")]
        self.block(ev, 0)

    def block(self, ev, depth):
        i = 0
        while i < len(ev):
            e = ev[i]
            if len(e.binders) <= depth:
                self.event(e)
                i += 1
                continue
            b = e.binders[depth]
            j = i
            while j < len(ev) and len(ev[j].binders) > depth and ev[j].binders[depth] == b:
                j += 1
            lo, hi = self.bounds(b)
            old = self.env.get(b)
            for v in range(lo, hi):
                self.env[b] = v
                self.block(ev[i:j], depth + 1)
            if old is None:
                self.env.pop(b, None)
            else:
                self.env[b] = old
            i = j

    def bounds(self, b):
        lo, hi = (0, self.int(b[1])) if b[0] == "i" else (self.int(b[1]), self.int(b[2]))
        if hi - lo > 300:
            raise Reject("large")
        return lo, hi

    def event(self, e):
        self.tick()
        if not all(self.truth(p) for p in e.pc):
            return
        if e.kind == "fail":
            if self.strict:
                raise Reject("checked")
            return
        arr, ix, v = e.data
        A = self.array(arr)
        if ix == ("all",):
            self.whole(A, v)
            return
        v = self(v)
        self.heap.setdefault(id(A) if not isinstance(A, Sym) else A.key, (A, {}))[1][self.int(ix)] = v
        if isinstance(A, Arr):
            A.d[self.int(ix)] = v

    def whole(self, A, v):
        """An operation sets the whole array."""
        if v == ("fill_right",):
            m = None
            for i in range(A.size()):
                x = num(self.get(A, i))
                m = x if m is None or x > m else m
                if isinstance(A, Arr):
                    A.d[i] = m
                else:
                    self.heap.setdefault(A.key, (A, {}))[1][i] = m
            return
        v = self(v)
        if isinstance(v, Arr) or isinstance(v, Sym) and v.key[:1] != ("call",):
            new = {i: self.get(v, i) for i in range(A.size())}
        else:
            # several such operations on one array: the normal forms keep them as a set
            key = id(A) if not isinstance(A, Sym) else A.key
            was, ops, left = self.wholes.get(key, (None, frozenset(), None))
            now = tuple(val(self.get(A, i)) for i in range(A.size()))
            if now != left:
                was, ops = h(now), frozenset()
            ops = ops | {repr(val(v))}
            k = h(was, tuple(sorted(ops)))
            new = {i: Sym(self.S, ("at", ("all", k), i)) for i in range(A.size())}
            self.wholes[key] = (was, ops, tuple(val(x) for x in new.values()))
        if isinstance(A, Arr):
            A.d.update(new)
        else:
            self.heap.setdefault(A.key, (A, {}))[1].update(new)

    def tick(self):
        self.steps += 1
        if self.steps > 60000:
            raise Reject("too long")

    def array(self, t):
        A = self(t)
        if not isinstance(A, (Arr, Sym)):
            raise Unknown("not an array: %s" % tshow(t)[:60])
        return A

    # ---- values
    def int(self, t):
        v = num(self(t))
        return v if isinstance(v, int) else int(v)

    def num(self, t):
        return num(self(t))

    def truth(self, t):
        v = self(t)
        return bool(v) if isinstance(v, bool) else num(v) != 0

    def get(self, A, i):
        if isinstance(A, Sym):
            w = self.heap.get(A.key)
            if w and i in w[1]:
                return w[1][i]
            return A.get(i)
        if isinstance(A, Arr):
            return A.get(i)
        if isinstance(A, tuple) and A[:1] == ("list",):
            if not 0 <= i < len(A) - 1:
                raise Unknown("index of list")
            return A[1 + i]
        raise Unknown("not an array: %s" % (str(A)[:40],))

    def mu(self, t):
        """The value of a loop's variable at the current turn."""
        for b, brk, st in reversed(self.mus[t]):
            if b in self.env:
                break
        else:
            raise Unknown("loop variable outside its loop")
        cur = self.env[b]
        lo, hi = self.bounds(b)
        saved = {m: self.env.get(m) for m in st}
        vals = {m: self(i) for m, (i, s) in st.items()}
        try:
            for v in range(lo, cur):
                self.tick()
                self.env[b] = v
                self.env.update(vals)
                if self.truth(brk):
                    break
                vals = {m: (vals[m] if s is None else self(s)) for m, (i, s) in st.items()}
        finally:
            self.env[b] = cur
            for m, x in saved.items():
                if x is None:
                    self.env.pop(m, None)
                else:
                    self.env[m] = x
        return vals[t]

    def __call__(self, t):
        self.tick()
        if t in self.env:
            return self.env[t]
        if t in self.eqs:
            return self(self.eqs[t])
        k = t[0]
        f = getattr(self, "t_" + NAMES.get(k, k), None)
        if f is None:
            raise Unknown(tshow(t)[:80])
        return f(t)

    def t_c(self, t):
        return t[1]

    def t_f(self, t):
        return Fraction(t[1])

    def t_p(self, t):
        return Sym(self.S, t, self.S.types.get(t[1]))

    def t_this(self, t):
        return Sym(self.S, t)

    def t_s(self, t):
        return ("s", "")

    def t_g(self, t):
        return Sym(self.S, t)

    def t_void(self, t):
        return ("void",)

    def t_mu(self, t):
        if t in self.mus:
            return self.mu(t)
        raise Unknown("loop variable")

    def t_plus(self, t):
        return t[1] + sum(n * self.num(x) for n, x in t[2])

    def t_times(self, t):
        r = 1
        for x in t[1:]:
            r *= self.num(x)
        return r

    def t_va(self, t):
        return self.t_fa(t)

    def t_fa(self, t):
        if t[1] == "+" and any(self(x) == ("s", "") for x in t[2:]):
            return ("s", "")
        xs = [self.num(x) for x in t[2:]]
        if t[1] == "+":
            return sum(xs)
        if t[1] == "-":
            return xs[0] - xs[1] if len(xs) == 2 else -xs[0]
        if t[1] == "*":
            r = 1
            for x in xs:
                r *= x
            return r
        if t[1] == "/":
            return self.div(*xs)
        raise Unknown("operation " + t[1])

    def div(self, a, b):
        if b == 0:
            raise Reject("division")
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            return Fraction(a) / b
        return cdiv(a, b)

    def t_b(self, t):
        a, b = self.num(t[2]), self.num(t[3])
        if t[1] == "/":
            return self.div(a, b)
        if t[1] == "%":
            if b == 0:
                raise Reject("division")
            return a - b * cdiv(a, b)
        if t[1] in ("<<", ">>"):
            if not 0 <= b < 64:
                raise Reject("shift")
            return a << b if t[1] == "<<" else a >> b
        if t[1] == "-":
            return a - b
        if t[1] in ("&", "|", "^"):
            return {"&": a & b, "|": a | b, "^": a ^ b}[t[1]]
        raise Unknown("operation " + t[1])

    def bits(self, t):
        xs = [int(self.num(x)) for x in t[1:]]
        r = xs[0]
        for x in xs[1:]:
            r = {"&": r & x, "|": r | x, "^": r ^ x}[t[0]]
        return r

    t_band = t_bor = t_bxor = bits

    def t_u(self, t):
        if t[1] == "~":
            return ~int(self.num(t[2]))
        if t[1] == "-":
            return -self.num(t[2])
        if t[1] == "!":
            return not self.truth(t[2])
        raise Unknown("operation " + t[1])

    def t_ite(self, t):
        return self(t[2]) if self.truth(t[1]) else self(t[3])

    def t_not(self, t):
        return not self.truth(t[1])

    def t_and(self, t):
        return all(self.truth(x) for x in t[1:])

    def t_or(self, t):
        return any(self.truth(x) for x in t[1:])

    def t_lt(self, t):
        return self.num(t[1]) < self.num(t[2])

    def t_le(self, t):
        return self.num(t[1]) <= self.num(t[2])

    def t_eq(self, t):
        a, b = self(t[1]), self(t[2])
        try:
            return num(a) == num(b)
        except Unknown:
            return val(a) == val(b)

    def t_min(self, t):
        return min(self.num(x) for x in t[1:])

    def t_max(self, t):
        return max(self.num(x) for x in t[1:])

    def over(self, b, body):
        lo, hi = self.bounds(b)
        old = self.env.get(b)
        try:
            for v in range(lo, hi):
                self.env[b] = v
                yield body()
        finally:
            if old is None:
                self.env.pop(b, None)
            else:
                self.env[b] = old

    def t_ex(self, t):
        for x in self.over(t[1], lambda: self.truth(t[2])):
            if x:
                return True
        return False

    def t_wit(self, t):
        for x in self.over(t[1], lambda: (self(t[3]) if self.truth(t[2]) else None,)):
            if x[0] is not None:
                return x[0]
        raise Reject("no witness")

    def t_first(self, t):
        b = t[1]
        lo, hi = self.bounds(b)
        for v in self.over(b, lambda: self.env[b] if self.truth(t[2]) else None):
            if v is not None:
                return v
        return max(lo, hi)

    def t_fold(self, t):
        if len(t) == 6:
            b, init, step, brk, mu = t[1:]
            L = [x for x in (self.K.loops if self.K else []) if x[0] == b and mu in x[2]]
            if len(L) == 1:
                brk, st = L[0][1], L[0][2]
            else:
                st = {mu: (init, step)}
        elif len(t) == 5:
            (lo, hi), init, step, brk = t[1:]
            d = sum(1 for y in subt(step) if y[:1] == ("fold",))
            b, mu = ("fb", d), ("fm", d)
            st = {mu: (init, step)}
            self.bounds(("bv", lo, hi))
        else:
            raise Unknown("fold")
        lo, hi = self.bounds(b if len(t) == 6 else ("bv",) + t[1])
        saved = {m: self.env.get(m) for m in list(st) + [b]}
        vals = {m: self(i) for m, (i, s) in st.items()}
        try:
            for v in range(lo, hi):
                self.env[b] = v
                self.env.update(vals)
                stop = self.truth(brk)
                vals = {m: (vals[m] if s is None else self(s)) for m, (i, s) in st.items()}
                if stop:
                    break
        finally:
            for m, x in saved.items():
                if x is None:
                    self.env.pop(m, None)
                else:
                    self.env[m] = x
        return vals[mu]

    def t_red(self, t):
        _, op, init, lo, hi, e = t[:6]
        b = t[6] if len(t) == 7 else self.red_var(t)
        bb = ("bv", lo, hi)
        r = None if init == ("none",) else self(init)
        lo, hi = self.bounds(bb)
        old = self.env.get(b)
        try:
            for v in range(lo, hi):
                self.env[b] = v
                if op == "any":
                    if self.truth(e):
                        return True
                    continue
                x = self.num(e)
                r = x if r is None else num(r) + x if op == "sum" else min(num(r), x) if op == "min" else max(num(r), x)
        finally:
            if old is None:
                self.env.pop(b, None)
            else:
                self.env[b] = old
        if op == "any":
            return self.truth(init)
        if r is None:
            raise Reject("nothing to reduce")
        return r

    def red_var(self, t):
        n = 0
        for x in subt(t[5]):
            if x[:1] == ("red",) and len(x) == 6:
                n += 1
        return ("r", n)

    # ---- arrays
    def t_A(self, t):
        _, n, init, st = t
        n = self.int(n)
        k = None
        A = Arr(n, None if init == ("none",) else self(init), k)
        self.selfs.append(A)
        try:
            for rs, cond, ix, v in sorted(st, key=lambda s: (s[2] == ("all",), repr(s))):
                self.fill(A, list(rs), 0, cond, ix, v)
        finally:
            self.selfs.pop()
        return A

    def fill(self, A, rs, d, cond, ix, v):
        if d == len(rs):
            self.tick()
            if not self.truth(cond):
                return
            if ix == ("all",):
                self.whole(A, v)
                return
            A.d[self.int(ix)] = self(v)
            return
        x = ("x", d)
        old = self.env.get(x)
        lo, hi = self.bounds(("bv", rs[d][1], rs[d][2]))
        for k in range(lo, hi):
            self.env[x] = k
            self.fill(A, rs, d + 1, cond, ix, v)
        if old is None:
            self.env.pop(x, None)
        else:
            self.env[x] = old

    def stores(self, A, st):
        """What stores on a given array do to it (definitions)."""
        B = Over(A)
        self.selfs.append(B)
        for rs, cond, ix, v in sorted(st, key=lambda s: (s[2] == ("all",), repr(s))):
            self.fill(B, list(rs), 0, cond, ix, v)
        self.selfs.pop()
        return B.d

    def t_self(self, t):
        return self.selfs[-1]

    def t_alloc(self, t):
        if t not in self.heap:
            a = [x for x in (self(y) for y in t[2:]) if x != ("s", "")]
            n = int(num(a[0]))
            if len(a) == 3:
                o, s = num(a[1]), num(a[2])
                A = Arr(n, None, None)
                A.d = {i: o + i * s for i in range(n)}
            else:
                A = Arr(n, a[1] if len(a) > 1 else None, None)
            self.heap[t] = A
        return self.heap[t]

    def t_new(self, t):
        ty = re.sub(r"^const ", "", t[1]).replace("Omega_h::", "")
        if re.search(r"basic_string|std::string", ty):
            return ("s", "")
        a = [x for x in t[2:] if x[:1] != ("s",)]
        if re.match(r"(Host)?(Write|Read|LOs|GOs|Reals|Bytes)\b|std::vector<", ty):
            if not a:
                return ("none",)
            k = ("alloc", t)
            if k in self.heap and re.match("std::vector", ty):
                return self.heap[k]
            a = [x for x in (self(y) for y in a) if x != ("s", "")]
            v = a[0]
            if isinstance(v, (Sym, Arr)) and len(a) == 1 and not (isinstance(v, Sym) and v.kind in NUMBERS):
                return v
            n = int(num(v))
            A = Arr(n, None, None)
            if len(a) == 2:
                A.init = a[1]
            elif len(a) == 3:
                o, s = num(a[1]), num(a[2])
                A.d = {i: o + i * s for i in range(n)}
            self.heap[k] = A
            return A
        if re.match(r"Int128", ty) and len(a) == 1:
            return self(a[0])
        return ("obj", ty.split("<")[0].split("::")[-1]) + tuple(self(x) for x in a)

    def t_undef(self, t):
        if not re.match(r"(Omega_h::)?(Dist|Adj|Mesh|Remotes)$", t[1]):
            raise Unknown(tshow(t)[:80])
        return ("obj", t[1])

    def t_upd(self, t):
        """Entries put into a small array of values."""
        d = {}
        while t[:1] == ("upd",):
            d.setdefault(self.int(t[2]), t[3])
            t = t[1]
        if t != ("none",) and t[:1] != ("undef",) and not (t[:1] == ("new",) and len(t) == 2):
            raise Unknown("upd")
        A = Arr(max(d) + 1, None, None)
        A.d = {k: self(v) for k, v in d.items()}
        return A

    def t_none(self, t):
        return ("none",)

    def t_list(self, t):
        return ("list",) + tuple(self(x) for x in t[1:])

    def t_outs(self, t):
        return ("outs",) + tuple(self(x) for x in t[1:])

    def t_do(self, t):
        return ("do",) + tuple(sorted((x for x in map(self, t[1:]) if x != ("void",)), key=lambda x: repr(val(x))))

    def t_rec(self, t):
        return ("rec",) + tuple((q, self(v)) for q, v in t[1:])

    def t_ptr(self, t):
        return ("ptr", self(t[1]), self.int(t[2]))

    def t_at(self, t):
        A = self(t[1])
        i = self.int(t[2])
        if isinstance(A, tuple) and A[:1] == ("ptr",):
            return self.get(A[1], A[2] + i)
        return self.get(A, i)

    def t_mem(self, t):
        o = self(t[2])
        f = t[1]
        if isinstance(o, tuple) and o[:1] == ("obj",):
            ix = {"a2ab": 0, "ab2b": 1, "codes": 2, "first": 0, "second": 1}.get(f)
            if o[1] in ("Graph", "Adj") and len(o) == 3 and f == "ab2b":
                return o[2]
            if o[1] in ("Graph", "Adj") and len(o) == 4 and f == "codes":
                raise Unknown("codes")
            if o[1] in ("Graph", "Adj", "pair") and ix is not None and ix + 2 < len(o):
                return o[2 + ix]
        if isinstance(o, tuple) and o[:1] == ("rec",):
            for q, v in o[1:]:
                if q == (f,):
                    return v
        if isinstance(o, Sym):
            return Sym(self.S, ("mem", f, o.key))
        raise Unknown("member " + f)

    def t_call(self, t):
        n = t[1].split("<")[0].split("::")[-1]
        a = [x for x in t[2:] if x[:1] != ("s",) and x != ("none",)]
        if n.endswith("_name"):
            return ("s", "")
        if n == "having" and len(t) == 5 and t[3] == ("s", "codes"):
            o = self(t[2])
            if isinstance(o, Arr) or isinstance(o, Sym) and o.key[:2] in (("call", "compound_maps"), ("call", "unmap")):
                try:
                    return ("obj", "Adj", o, self(t[4]))
                except Unknown as e:
                    if str(e) != "member codes":
                        raise
                    return o
        if n == "size" and len(a) == 1:
            v = self(a[0])
            if isinstance(v, tuple) and v[:1] == ("list",):
                return len(v) - 1
            if not isinstance(v, (Sym, Arr)):
                raise Unknown("size of %s: %s" % (tshow(a[0])[:60], str(v)[:80]))
            return v.size()
        if n == "last" and len(a) == 1:
            v = self(a[0])
            return self.get(v, v.size() - 1)
        if n == "first" and len(a) == 1:
            return self.get(self(a[0]), 0)
        if n == "get" and len(a) == 2:
            return self.get(self(a[0]), self.int(a[1]))
        if n == "divide_no_remainder" and len(a) == 2:
            x, y = self.num(a[0]), self.num(a[1])
            if y == 0 or x % y:
                raise Reject("remainder")
            return x // y
        if n == "offset_scan" and a:
            v = self(a[0])
            A = Arr(v.size() + 1, None, None)
            s = 0
            A.d[0] = 0
            for i in range(v.size()):
                s += num(self.get(v, i))
                A.d[i + 1] = s
            return A
        if n in SKIP and len(a) == 1:
            return self(a[0])
        if n in self.interp:
            return self.interp[n](*[self(x) for x in a])
        vs = tuple(v for v in (val(self(x)) for x in a) if v not in (("s", ""), ("none",)))
        return Sym(self.S, ("call", n) + vs, "below%d" % self.S.limits[n] if n in self.S.limits else "deg" if n in ("element_degree", "simplex_degree", "hypercube_degree") else None)


# ---- what array operations mean (P17 decides that the code agrees)
def array(xs):
    xs = list(xs)
    A = Arr(len(xs), None, None)
    A.d = dict(enumerate(xs))
    return A


def items(a):
    n = a.size()
    if n > 400:
        raise Reject("large")
    return [a.get(i) for i in range(max(0, n))]


def nums(a):
    return [num(x) for x in items(a)]


def pick(a, i):
    if not 0 <= i < a.size():
        return ("out", i) if isinstance(a, Arr) else a.get(i)
    return a.get(i)


def c_unmap(m, a, w):
    w = int(num(w))
    return array(pick(a, int(k) * w + j) for k in nums(m) for j in range(w))


def c_degrees(a):
    v = nums(a)
    return array(y - x for x, y in zip(v, v[1:]))


def c_component(a, n, k):
    n, k = int(num(n)), int(num(k))
    if n == 0 or a.size() % n:
        raise Reject("remainder")
    return array(a.get(i * n + k) for i in range(a.size() // n))


def c_injective(m, n):
    out = [-1] * int(num(n))
    for i, k in enumerate(nums(m)):
        if not 0 <= k < len(out):
            raise Reject("index")
        out[int(k)] = i
    return array(out)


def c_zip(f):
    def g(a, b):
        if a.size() != b.size():
            raise Reject("sizes")
        return array(f(x, y) for x, y in zip(nums(a), nums(b)))
    return g


def c_funnel(m, n):
    v, out = nums(m), []
    if v != sorted(v):
        raise Reject("order")
    return array(sum(1 for x in v if x < i) for i in range(int(num(n)) + 1))


def c_sort(a, w=1):
    w, v = int(num(w)), nums(a)
    if w < 1 or len(v) % w:
        raise Reject("width")
    return array(sorted(range(len(v) // w), key=lambda i: v[i * w:i * w + w]))


def c_fan(m, a, w, op):
    v, w, op = nums(m), int(num(w)), num(op)
    f = {0: min, 1: max, 2: sum}.get(op)
    if f is None or not v:
        raise Reject("operation")
    out = []
    for x, y in zip(v, v[1:]):
        for j in range(w):
            xs = [num(pick(a, k * w + j)) for k in range(x, y)]
            if not xs and op != 2:
                raise Reject("nothing to reduce")
            out.append(f(xs))
    return array(out)


COMMON = {
    "sort_by_keys": c_sort, "fan_reduce": c_fan,
    "binary_search": lambda a, v, n: next((i for i, x in enumerate(nums(a)[:int(num(n))]) if x == num(v)), -1),
    "unmap": c_unmap, "get_degrees": c_degrees, "get_component": c_component, "invert_injective_map": c_injective, "invert_funnel": c_funnel,
    "compound_maps": lambda a, b: c_unmap(a, b, 1),
    "collect_marked": lambda a: array(i for i, x in enumerate(nums(a)) if x),
    "invert_marks": lambda a: array(int(not x) for x in nums(a)),
    "multiply_each_by": lambda a, k: array(x * num(k) for x in nums(a)),
    "add_to_each": lambda a, k: array(x + num(k) for x in nums(a)),
    "add_each": c_zip(lambda x, y: x + y), "subtract_each": c_zip(lambda x, y: x - y),
    "land_each": c_zip(lambda x, y: int(bool(x) and bool(y))), "lor_each": c_zip(lambda x, y: int(bool(x) or bool(y))),
    "each_eq_to": lambda a, k: array(int(x == num(k)) for x in nums(a)),
    "each_neq_to": lambda a, k: array(int(x != num(k)) for x in nums(a)),
    "each_geq_to": lambda a, k: array(int(x >= num(k)) for x in nums(a)),
    "each_gt": lambda a, k: array(int(x > num(k)) for x in nums(a)),
    "each_lt": lambda a, k: array(int(x < num(k)) for x in nums(a)),
}


NAMES = {"+": "plus", "*": "times", "&": "band", "|": "bor", "^": "bxor", "<": "lt", "<=": "le", "==": "eq"}


def subt(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)
        elif isinstance(x, frozenset):
            st.extend(x)


def offsets(*terms):
    """Arrays that delimit ranges: x[i] <= k < x[i+1]."""
    out = set()
    for t in terms:
        for x in subt(t):
            if len(x) >= 3 and x[0] in ("range", "bv"):
                lo, hi = x[1], x[2]
            elif x[:1] == ("red",) and len(x) >= 5:
                lo, hi = x[3], x[4]
            else:
                continue
            for y in subt(hi):
                if y[:1] == ("at",) and len(y) == 3 and isinstance(y[2], tuple) and (y[2][:1] == ("+",) and y[2][1] == 1 or y[2] == ("c", 1)):
                    out.add(y[1])
        for x in subt(t):
            if x[:2] == ("mem", "a2ab"):
                out.add(x)
    return {k for k in out if k[0] in ("p", "mem")}


def kinds(f, names):
    """What the parameters of a function are."""
    out = {}
    for p, n in zip(f.params, names):
        t = p["t"].replace("const", "").replace("Omega_h::", "").strip(" &")
        m = re.match(r"(?:Host)?(?:Read|Write)<(.*)>$", t)
        e = m.group(1).strip() if m else {"LOs": "int", "GOs": "long", "Reals": "double", "Bytes": "signed char"}.get(t)
        if e:
            out[n] = "arr:code" if "code" in p["n"] else {"signed char": "arr:I8", "I8": "arr:I8", "Byte": "arr:I8", "double": "arr:Real", "Real": "arr:Real"}.get(e, "arr:int")
        elif re.match(r"(int|long|signed char|LO|GO|Int|I8|I32|I64|size_t|std::size_t)$", t):
            out[n] = "code" if "code" in p["n"] else "int"
        elif t == "bool":
            out[n] = "bool"
        elif t in ("double", "Real"):
            out[n] = "real"
    return out


def separate(code, K, want, offs, types, eqs={}, n=160, interp=None, least=12, limits={}, facts={}):
    """Look for a structure in which the two disagree.  code(M) and want(M) give the values under a model.
    Returns ("same", None), ("differ", seed) or ("unknown", why)."""
    for strict in (True, False):
        ok = 0
        for seed in range(n):
            S = Structure(seed, offs, types, limits, facts)
            try:
                M = Model(S, K, interp=interp, eqs={})
                M.strict = strict
                a = code(M)
                W = Model(S, None, interp=interp)
                b = want(W)
            except Reject:
                continue
            except Unknown as x:
                return "unknown", str(x)
            except RecursionError:
                return "unknown", "depth"
            if not equal(a, b):
                return "differ", (seed, a, b)
            ok += 1
        if ok >= least:
            return "same", None
    return "unknown", "only %d structures" % ok
