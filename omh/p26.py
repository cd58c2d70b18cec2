"""P26: array storage lives exactly as long as something refers to it."""
from .core import *
from .own import *
from .own import Obj, Own, Violation, Failed, Unseen

LEVEL = "proof"
RULE = ("The special members of the shared handle, the allocation record, the pool and the allocation entry points are applied to every abstract "
        "state (who refers to what, which block is in which list, inside or outside a kernel launch): afterwards every count equals the number "
        "of handles, storage without a handle is released once and storage with one is untouched; a block is handed out once, at least as large "
        "as asked for, and given back with the size it was obtained with. The launch flag is cleared before anything but the functor's move runs, "
        "and a functor moved into the launch is not used again.")
ASSUMPTIONS = ["malloc returns null or a new block of at least the size asked for; library containers do what they promise",
               "handles are counted from one thread at a time (the library copies arrays outside kernels only)",
               "SharedAlloc::identity has no caller and is not judged"]
TRUSTED = ["omh/own.py"]

SA, AL, NS = "Omega_h::SharedAlloc", "Omega_h::Alloc", "Omega_h::"


class World:
    def __init__(self, P, fail=0):
        self.P, self.blocks, self.nulls = P, [], fail
        self.g = {"objects": {}, "made": [], "entering_parallel": False, "global_allocs": None, "device_pool": None, "host_pool": None,
                  "FREE_BIT1": 1, "FREE_BIT2": 2, "FREE_BIT3": 4, "FREE_MASK": 7, "IN_PARALLEL": 1, "IS_IDENTITY": 2}
        self.I = Own(P, self.g, self.malloc, self.free)

    def malloc(self, size):
        if self.nulls > 0:
            self.nulls -= 1
            return None
        b = Obj("block", size=size)
        self.blocks.append(b)
        self.g["objects"][b.addr] = b
        return b

    def free(self, b, size):
        if b is None:
            return
        if not isinstance(b, Obj) or b.cls != "block":
            raise Violation("releases something that is not a block of memory")
        if b.dead:
            raise Violation("releases the same memory twice")
        if size is not None and size != b.f["size"]:
            raise Violation("gives back a block of %d bytes as %s bytes" % (b.f["size"], size))
        b.dead = True

    def alloc(self, size, uses):
        a = Obj(AL, size=size, name=("opaque",), ptr=self.malloc(size), use_count=uses, prev=None, next=None)
        self.g["objects"][a.addr] = a
        return a


def member(P, q, n, pred=lambda f: True):
    fs = [f for f in P.fns if f.q == NS + q and f.body is not None and len(f.params) == n and pred(f)]
    if len(fs) != 1:
        raise Broken("%d functions %s%s" % (len(fs), NS, q))
    return fs[0]


def param(i, end):
    return lambda f: f.params[i]["t"].replace(" ", "").endswith(end)


# ------------------------------------------------------------------ handles
def handles(P, R):
    cp = member(P, "SharedAlloc::SharedAlloc", 1, param(0, "SharedAlloc&"))
    mv = member(P, "SharedAlloc::SharedAlloc", 1, param(0, "SharedAlloc&&"))
    ca = member(P, "SharedAlloc::operator=", 1, lambda f: not f.params[0]["t"].endswith("&&"))
    ma = member(P, "SharedAlloc::operator=", 1, param(0, "&&"))
    de = member(P, "SharedAlloc::~SharedAlloc", 0)
    df = member(P, "SharedAlloc::SharedAlloc", 0)
    sz = member(P, "SharedAlloc::size", 0)
    dt = member(P, "SharedAlloc::data", 0)
    ops = {"copy construction": cp, "move construction": mv, "copy assignment": ca, "move assignment": ma, "self copy assignment": ca,
           "self move assignment": ma, "destruction": de}
    R.count("functions analysed", 8)
    for op, f in ops.items():
        two = "construction" in op or op in ("copy assignment", "move assignment")
        for s1 in ("null", "A", "B", "tag"):
            for s2 in (("null", "A", "B", "tag") if two else (None,)):
                for ea in (0, 1):
                    for entering in (False, True):
                        if entering and "self" in op:
                            continue
                        if "construction" in op and s1 != "null":
                            continue
                        for sizes in ((24, 40), (0, 40), (24, 0)):
                          R.count("states")
                          msg = handle(P, op, f, s1, s2, ea, entering, sz, dt, sizes)
                          if msg:
                            R.bad("storage", "storage|handle|%s|%s" % (op, msg.split(":")[0]), "%s:%d" % (f.file, f.line),
                                  "%s of an array handle%s (destination %s, source %s%s): %s" % (op, " while a kernel is launched" if entering else "", s1, s2, ", more handles elsewhere" if ea else "", msg))
    o = Obj(SA)
    w = World(P)
    w.I.call(df, o, [])
    R.count("obligations")
    if o.f.get("alloc", 1) is not None or o.f.get("direct_ptr", 1) is not None:
        R.bad("storage", "storage|handle|default", "%s:%d" % (df.file, df.line), "a default handle refers to something")
    for g in P.fns:
        if g.q == NS + "SharedAlloc::SharedAlloc" and g.body is not None and g.params and "SharedAlloc" not in g.params[0]["t"]:
            for size in (0, 1, 24):
                R.count("obligations")
                w, o = World(P), Obj(SA)
                try:
                    w.I.call(g, o, [size] + [("opaque",)] * (len(g.params) - 1))
                    a = o.f.get("alloc")
                    ok = isinstance(a, Obj) and a.cls == AL and not a.dead and a.f.get("use_count") == 1 and a.f.get("size") == size and o.f.get("direct_ptr") is a.f.get("ptr") \
                        and isinstance(a.f.get("ptr"), Obj) and a.f["ptr"].f["size"] >= size and not a.f["ptr"].dead and w.I.call(sz, o, []) == size and w.I.call(dt, o, []) is a.f["ptr"]
                    msg = None if ok else "the new handle does not hold the only reference to %d new bytes" % size
                except Violation as e:
                    msg = str(e)
                if msg:
                    R.bad("storage", "storage|handle|new|%d" % len(g.params), "%s:%d" % (g.file, g.line), "an array of %d bytes is created: %s" % (size, msg))


def handle(P, op, f, s1, s2, ea, entering, sz, dt, sizes):
    w = World(P)
    A, B = w.alloc(sizes[0], 0), w.alloc(sizes[1], 0)
    mem = {id(a): a.f["ptr"] for a in (A, B)}
    loose = w.malloc(16)

    def mk(s):
        if s == "null":
            return Obj(SA, alloc=None, direct_ptr=None)
        if s == "tag":
            return Obj(SA, alloc=16 << 3 | 1, direct_ptr=loose)
        a = A if s == "A" else B
        a.f["use_count"] += 1
        return Obj(SA, alloc=a, direct_ptr=a.f["ptr"])
    h1 = mk(s1)
    h2 = mk(s2) if s2 else None
    for a in (A, B):
        if a.f["use_count"] == 0:
            a.f["use_count"] = -1  # not part of this state
        else:
            a.f["use_count"] += ea
    used = [a for a in (A, B) if a.f["use_count"] > 0]
    w.g["entering_parallel"] = entering
    src = (h2.f["alloc"], h2.f["direct_ptr"]) if h2 else None
    before = (h1.f["alloc"], h1.f["direct_ptr"])
    live = [h for h in (h1, h2) if h]
    try:
        if "construction" in op:
            h1 = Obj(SA)
            live = [h1, h2]
            w.I.call(f, h1, [h2])
        elif op == "destruction":
            w.I.call(f, h1, [])
            live = []
        elif "self" in op:
            w.I.call(f, h1, [h1])
        else:
            w.I.call(f, h1, [h2])
    except Violation as e:
        return str(e)
    except Failed:
        return "reports an error"
    for a in used:
        refs = ea + sum(1 for h in live if h.f.get("alloc") is a)
        into = entering and "move" in op and src and src[0] is a
        if refs or into:
            if a.dead or mem[id(a)].dead:
                return "releases storage that is still in use"
            if a.f["use_count"] != refs:
                return "counts %s handles instead of %d" % (a.f["use_count"], refs)
        elif not a.dead or not mem[id(a)].dead:
            return "nothing refers to the storage any more but it is not released"
    if loose.dead:
        return "releases storage it does not own"
    if h2:
        want = src
        if entering and isinstance(src[0], Obj):
            want = (src[0].f["size"] << 3 | 1, src[1])
        if h1.f.get("alloc") is not want[0] and h1.f.get("alloc") != want[0] or h1.f.get("direct_ptr") is not want[1]:
            return "the destination does not refer to what the source referred to"
        if "move" in op:
            if h2.f.get("alloc") is not None or h2.f.get("direct_ptr") is not None:
                return "the source still refers to the storage after the move"
        elif (h2.f.get("alloc"), h2.f.get("direct_ptr")) != src:
            return "the source is changed by a copy"
    if op == "self copy assignment" and (h1.f["alloc"], h1.f["direct_ptr"]) != before:
        return "assignment to itself changes the handle"
    for h in live:
        a = h.f.get("alloc")
        if a is not None:
            n = a.f["size"] if isinstance(a, Obj) else 16 if h.f["direct_ptr"] is loose else h.f["direct_ptr"].f["size"]
            try:
                if w.I.call(sz, h, []) != n:
                    return "size: the handle's size is not that of its storage"
                if w.I.call(dt, h, []) is not h.f["direct_ptr"]:
                    return "data: the handle's data is not its storage"
            except Violation as e:
                return "size: " + str(e)
    return None


# ------------------------------------------------------------------ allocation records
def tracked(w, n):
    l = [w.alloc(10 + i, 1) for i in range(n)]
    for a, b in zip(l, l[1:]):
        a.f["next"], b.f["prev"] = b, a
    t = sum(a.f["size"] for a in l)
    ga = Obj(NS + "Allocs", first=l[0] if l else None, last=l[-1] if l else None, total_bytes=t, high_water_bytes=t, high_water_records=[])
    w.g["global_allocs"] = ga
    return ga, l


def linked(ga, want):
    l, a, p = [], ga.f["first"], None
    while a is not None and len(l) < 9:
        if a.f.get("prev") is not p:
            return "an entry of the list of allocations does not point back to the one before it"
        l.append(a)
        p, a = a, a.f.get("next")
    if {id(x) for x in l} != {id(x) for x in want} or len(l) != len(want):
        return "the list of allocations has %d entries instead of the %d that exist" % (len(l), len(want))
    if ga.f["last"] is not (l[-1] if l else None):
        return "the end of the list of allocations is not its last entry"
    if ga.f["total_bytes"] != sum(x.f["size"] for x in want):
        return "the total is not the sum of the allocations"
    if ga.f["high_water_bytes"] < ga.f["total_bytes"]:
        return "the high-water mark is below the total"
    return None


def records(P, R):
    ctors = [f for f in P.fns if f.q == NS + "Alloc::Alloc" and f.body is not None and len(f.params) == 2]
    if not ctors:
        raise Broken("constructor of Omega_h::Alloc")
    de = member(P, "Alloc::~Alloc", 0)
    R.count("functions analysed", len(ctors) + 1)
    for f in ctors:
        for n in (None, 0, 1, 2):
            for size in (0, 24):
                for fail in (0, 9):
                    R.count("states")
                    w = World(P)
                    ga, l = tracked(w, n) if n is not None else (None, [])
                    w.nulls = fail
                    o = Obj(AL)
                    try:
                        w.I.call(f, o, [size, ("opaque",)])
                        msg = None
                        p = o.f.get("ptr")
                        if o.f.get("size") != size or o.f.get("use_count") != 1:
                            msg = "a new allocation does not start with its size and one handle"
                        elif size and (not isinstance(p, Obj) or p.dead or p.f["size"] < size):
                            msg = "a new allocation has no storage of its size"
                        elif ga is not None:
                            msg = linked(ga, l + [o])
                    except Violation as e:
                        msg = str(e)
                    except Failed:
                        msg = None if fail and size else "an allocation that succeeds is reported as failed"
                    if msg:
                        R.bad("storage", "storage|record|new|" + msg, "%s:%d" % (f.file, f.line), "a new allocation%s: %s" % ("" if n is None else " while %d others are tracked" % n, msg))
    for n in (None, 1, 2, 3):
        for k in range(n or 1):
            R.count("states")
            w = World(P)
            ga, l = tracked(w, n) if n is not None else (None, [w.alloc(24, 0)])
            a = l[k]
            mem = {id(x): x.f["ptr"] for x in l}
            try:
                w.I.call(de, a, [])
                msg = None if mem[id(a)].dead else "its storage is not released"
                if any(mem[id(x)].dead for x in l if x is not a):
                    msg = "other storage is released"
                if msg is None and ga is not None:
                    msg = linked(ga, [x for x in l if x is not a])
            except Violation as e:
                msg = str(e)
            except Failed:
                msg = "reports an error"
            if msg:
                R.bad("storage", "storage|record|end|" + msg, "%s:%d" % (de.file, de.line), "the end of an allocation%s: %s" % ("" if n is None else " (number %d of %d tracked)" % (k + 1, n), msg))


# ------------------------------------------------------------------ the pool
def pool(P, R):
    al = member(P, "allocate", 2, lambda f: "Pool" in f.params[0]["t"])
    da = member(P, "deallocate", 3, lambda f: "Pool" in f.params[0]["t"])
    de = member(P, "Pool::~Pool", 0)
    ct = member(P, "Pool::Pool", 2)
    R.count("functions analysed", 4)
    where = lambda f: "%s:%d" % (f.file, f.line)

    def make(w):
        o = Obj(NS + "Pool", used_blocks=[[] for _ in range(64)], free_blocks=[[] for _ in range(64)])
        given = []

        def free(b, size):
            if not isinstance(size, int):
                raise Violation("gives back a block with no size")
            w.free(b, size)
        w.I.call(ct, o, [w.malloc, free])
        return o

    # the size of the blocks kept at each place of the lists, from what the end of the pool gives back
    cap = []
    for i in range(64):
        got = set()
        for li in ("used_blocks", "free_blocks"):
            w = World(P)
            seen = []
            o = Obj(NS + "Pool", used_blocks=[[] for _ in range(64)], free_blocks=[[] for _ in range(64)])
            w.I.call(ct, o, [w.malloc, lambda b, s: seen.append((b, s))])
            b = Obj("block", size=None)
            o.f[li][i].append(b)
            R.count("states")
            try:
                w.I.call(de, o, [])
            except Violation as e:
                R.bad("storage", "storage|pool|end|" + str(e), where(de), "the end of a pool: %s" % e)
                return
            if len(seen) != 1 or seen[0][0] is not b:
                R.bad("storage", "storage|pool|end|" + li, where(de), "the end of a pool gives back %d blocks of a list (%s, place %d) holding one" % (len(seen), li, i))
                return
            got.add(seen[0][1])
        if len(got) != 1:
            R.bad("storage", "storage|pool|end|sizes", where(de), "blocks in use and free blocks of place %d are given back with different sizes" % i)
            return
        cap.append(got.pop())

    def state(w, free, used):
        o = make(w)
        for i in range(64):
            if cap[i] is None or cap[i] > 1 << 62:
                continue
            for li, n in (("free_blocks", free), ("used_blocks", used)):
                for _ in range(n(i) if callable(n) else n):
                    o.f[li][i].append(w.malloc(cap[i]))
        return o

    def judge(o, w, handed, what, f):
        places = {}
        for li in ("used_blocks", "free_blocks"):
            for i in range(64):
                for b in o.f[li][i]:
                    if not isinstance(b, Obj):
                        return "a list holds something that is not a block"
                    if id(b) in places:
                        return "a block is in two lists"
                    places[id(b)] = li
                    if b.dead:
                        return "a list holds a block that was given back"
                    if b.f["size"] != cap[i]:
                        return "a block of %d bytes is kept with those of %d bytes" % (b.f["size"], cap[i])
        for b in w.blocks:
            if not b.dead and id(b) not in places:
                return "a block is lost"
            if not b.dead and (places[id(b)] == "used_blocks") != (id(b) in handed):
                return "a block that was handed out is kept as free" if id(b) in handed else "a free block is kept as in use"
            if b.dead and id(b) in handed:
                return "a block that is in use is given back"
        return None

    sizes = sorted({s for k in list(range(0, 7)) + [20, 31, 32, 40] for s in ((1 << k) - 1, 1 << k, (1 << k) + 1)})
    for size in sizes:
        home = min((i for i in range(63) if cap[i] >= size), key=lambda i: cap[i])
        for free in (0, 1, 2) + tuple((lambda j: lambda i: 3 * (i == j))(home + k) for k in (-2, -1, 1, 2)):
            for used in (0, 2):
                for nulls in (0, 1, 9):
                    R.count("states")
                    w = World(P)
                    o = state(w, free, used)
                    w.nulls = nulls
                    handed = {id(b) for l in o.f["used_blocks"] for b in l}
                    try:
                        b = w.I.call(al, None, [o, size])
                        msg = None
                        if not isinstance(b, Obj) or b.dead:
                            msg = "what is handed out is not a block"
                        elif b.f["size"] < size:
                            msg = "the block handed out has %d bytes, %d were asked for" % (b.f["size"], size)
                        elif id(b) in handed:
                            msg = "a block that is in use is handed out again"
                        else:
                            msg = judge(o, w, handed | {id(b)}, "allocate", al)
                    except Violation as e:
                        msg = str(e)
                    except Failed:
                        msg = None if nulls > 1 else "fails although there is memory"
                    if msg:
                        R.bad("storage", "storage|pool|allocate|" + re.sub(r"\d+", "N", msg), where(al), "%d bytes from a pool (%s free and %d used blocks of every size): %s" % (size, "some" if callable(free) else free, used, msg))
        for used in (1, 3):
            i = min((i for i in range(63) if cap[i] >= size), key=lambda i: cap[i])
            for k in range(used):
                R.count("states")
                w = World(P)
                o = state(w, 1, used)
                b = o.f["used_blocks"][i][k]
                handed = {id(x) for l in o.f["used_blocks"] for x in l}
                try:
                    w.I.call(da, None, [o, b, size])
                    msg = "gives back a block that is in use" if b.dead else judge(o, w, handed - {id(b)}, "deallocate", da)
                except Violation as e:
                    msg = str(e)
                except Failed:
                    msg = "a block that was handed out is not found"
                if msg:
                    R.bad("storage", "storage|pool|deallocate|" + re.sub(r"\d+", "N", msg), where(da), "a block of %d bytes comes back to a pool: %s" % (size, msg))
        R.count("states")
        w = World(P)
        o = state(w, 1, 1)
        x = Obj("block", size=size)
        try:
            w.I.call(da, None, [o, x, size])
            R.bad("storage", "storage|pool|deallocate|foreign", where(da), "memory that the pool never handed out is accepted back")
        except Failed:
            pass
        except Violation as e:
            R.bad("storage", "storage|pool|deallocate|foreign", where(da), "memory that the pool never handed out: %s" % e)


# ------------------------------------------------------------------ entry points
def entries(P, R):
    en, di = member(P, "enable_pooling", 0), member(P, "disable_pooling", 0)
    for kind in ("device", "host"):
        m, f = member(P, "maybe_pooled_%s_malloc" % kind, 1), member(P, "maybe_pooled_%s_free" % kind, 2)
        R.count("functions analysed", 2)
        for pooled in (False, True):
            for size in (0, 1, 3, 24, 1000):
                R.count("states")
                w = World(P)
                msg = None
                try:
                    if pooled:
                        w.I.call(en, None, [])
                    a, b = w.I.call(m, None, [size]), w.I.call(m, None, [size])
                    if not isinstance(a, Obj) or not isinstance(b, Obj) or a is b or a.dead or b.dead or min(a.f["size"], b.f["size"]) < size:
                        msg = "two requests for %d bytes do not yield two blocks of that size" % size
                    else:
                        w.I.call(f, None, [a, size])
                        if b.dead:
                            msg = "a block in use is given back"
                        elif not pooled and not a.dead:
                            msg = "a block is not given back"
                        c = w.I.call(m, None, [size])
                        if not msg and (c is b or not isinstance(c, Obj) or c.dead or c.f["size"] < size):
                            msg = "a later request does not yield a free block"
                        w.I.call(f, None, [b, size])
                        w.I.call(f, None, [c, size])
                        if pooled:
                            w.I.call(di, None, [])
                            if w.g["device_pool"] is not None or w.g["host_pool"] is not None:
                                msg = msg or "a pool that has ended is still referred to"
                        if not msg and not all(x.dead for x in w.blocks):
                            msg = "memory is never given back"
                except Violation as e:
                    msg = str(e)
                except Failed:
                    msg = "reports an error"
                if msg:
                    R.bad("storage", "storage|entry|%s|%s" % (kind, re.sub(r"\d+", "N", msg)), "%s:%d" % (m.file, m.line), "%s memory%s: %s" % (kind, " from a pool" if pooled else "", msg))


# ------------------------------------------------------------------ arrays
BYTES = {"I8": 1, "I32": 4, "I64": 8, "Real": 8}


def arrays(P, R):
    """The storage of an array is its length times the size of its values, held by the array alone."""
    def inst(name, n, pred=lambda f: True):
        r = {}
        for f in P.fns:
            if f.cls == NS + "Write" and f.name == name and f.body is not None and len(f.params) == n and pred(f):
                t = f.d.get("clst", "").split("<")[-1].rstrip(">")
                if t in BYTES:
                    r[t] = f
        return r
    ct = inst("Write", 2, lambda f: f.params[0]["t"] == "int" and "string" in f.params[1]["t"])
    sz = inst("size", 0)
    if not ct or not sz:
        raise Broken("constructor or size of Omega_h::Write")
    for t, f in sorted(ct.items()):
        R.count("functions analysed")
        for n in (0, 1, 7, 1 << 29, (1 << 31) - 1):
            R.count("states")
            w, o = World(P), Obj(NS + "Write", shared_alloc_=Obj(SA, alloc=None, direct_ptr=None))
            msg = None
            try:
                w.I.call(f, o, [n, ("opaque",)])
                h = o.f["shared_alloc_"]
                a = h.f["alloc"]
                if not isinstance(a, Obj) or a.f["use_count"] != 1 or a.dead or a.f["ptr"].dead or h.f["direct_ptr"] is not a.f["ptr"]:
                    msg = "it does not hold the only reference to its storage"
                elif a.f["size"] != n * BYTES[t] or a.f["ptr"].f["size"] < n * BYTES[t]:
                    msg = "its storage has %d bytes" % min(a.f["size"], a.f["ptr"].f["size"])
                else:
                    for s in [sz[t]] if t in sz else []:
                        if w.I.call(s, o, []) != n:
                            msg = "its size is %s" % w.I.call(s, o, [])
            except Violation as e:
                msg = str(e)
            except Failed:
                msg = "reports an error"
            if msg:
                R.bad("storage", "storage|array|" + re.sub(r"\d+", "N", msg), "%s:%d" % (f.file, f.line), "a new array of %d values of %d bytes: %s" % (n, BYTES[t], msg))


FLAG = NS + "entering_parallel"


def mentions(f):
    return f.body is not None and any(n.get("k") == "ref" and n.get("g") == FLAG for n in f.nodes())


class Launch:
    """Which values the launch flag can have at every statement, through the functions that set it."""
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.fns = {f.fid: f for f in P.fns if mentions(f)}
        self.by_cls = {}
        for f in self.fns.values():
            if f.cls and f.name.startswith("~"):
                self.by_cls[f.cls] = f
        self.sum = {}
        self.found = []

    def summary(self, f, args, flag, depth=0):
        """Flag values at the end, the parameters moved from, and what is wrong inside."""
        if depth > 6:
            return frozenset(flag), frozenset(), []
        s = Scan(self, f, dict(zip([p["d"] for p in f.params], args)), depth)
        end = s.block(f.body, frozenset(flag))
        out = frozenset().union(*s.exits, end if end is not None else frozenset())
        return out, frozenset(i for i, p in enumerate(f.params) if p["d"] in s.moved), s.bad


class Scan:
    def __init__(self, L, f, args, depth):
        self.L, self.f, self.args, self.depth = L, f, args, depth
        self.alias, self.moved, self.bad, self.exits = set(), {}, [], []

    def isflag(self, n):
        n = strip_casts(n)
        while n["k"] in ("paren", "expr"):
            n = strip_casts(n["e"])
        return n["k"] == "ref" and (n.get("g") == FLAG or n.get("d") in self.alias and not n.get("g"))

    def val(self, n):
        n = strip_casts(n)
        if "v" in n and n["k"] in ("bool", "int"):
            return frozenset([bool(n["v"])])
        if n["k"] == "ref" and n.get("d") in self.args and self.args[n["d"]] is not None:
            return self.args[n["d"]]
        return frozenset([True, False])

    def say(self, what, msg):
        self.bad.append((what, "%s %s" % (self.f.q, msg)))

    def block(self, n, flag):
        """Flag values after the statement; None when it does not continue."""
        k = n["k"]
        if k == "block":
            own = []
            for s in n["c"]:
                if flag is None:
                    return None
                if s["k"] == "decl":
                    own += [self.L.by_cls[v["t"].split("<")[0]] for v in s["c"] if v["k"] == "var" and v["t"].split("<")[0] in self.L.by_cls]
                flag = self.block(s, flag)
            for d in reversed(own):
                if flag is not None:
                    flag = self.call(d, [], flag)
            return flag
        if k == "if":
            flag = self.expr(n["cond"], flag)
            a = self.block(n["then"], flag)
            b = self.block(n["else"], flag) if n.get("else") else flag
            return b if a is None else a if b is None else a | b
        if k in ("for", "while", "do", "rfor"):
            for x in ("init", "cond", "range"):
                if n.get(x):
                    flag = self.block(n[x], flag) or flag
            before = flag
            b = self.block(n["body"], flag) if n.get("body") else flag
            return before | (b or frozenset())
        if k == "ret":
            if n.get("e"):
                flag = self.expr(n["e"], flag)
            self.exits.append(flag)
            return None
        if k == "decl":
            for v in n["c"]:
                if v["k"] == "var" and v.get("i"):
                    if v["t"].rstrip().endswith("&") and self.isflag(v["i"]):
                        self.alias.add(v["d"])
                    else:
                        flag = self.expr(v["i"], flag)
            return flag
        if k in ("break", "cont", "null"):
            return flag
        return self.expr(n, flag)

    def call(self, g, args, flag):
        out, moved, bad = self.L.summary(g, args, flag, self.depth + 1)
        self.bad += bad
        return out

    def expr(self, n, flag):
        k = n.get("k")
        if k == "lambda":
            return flag
        if k == "bin" and n["op"] == "=" and self.isflag(n["L"]):
            return self.val(n["R"])
        if k == "ref" and not n.get("g") and n.get("d") in self.moved:
            self.say("moved", "uses %s after it was moved into the kernel: its arrays are gone" % self.moved[n["d"]])
        if k in ("call", "ctor"):
            if n.get("_q") in ("std::move", "std::forward") and k == "call":
                x = strip_casts(n["a"][0])
                flag = self.expr(x, flag)
                if x["k"] == "ref" and n["_q"] == "std::move" and True in flag:
                    self.moved[x["d"]] = x.get("n")
                return flag
            g = self.L.fns.get(n.get("f"))
            if g is not None:
                for x in n.get("a", []):
                    flag = self.expr(x, flag)
                args = [self.val(x) if strip_casts(x)["k"] in ("bool", "int", "ref") else None for x in n.get("a", [])]
                out, moved, bad = self.L.summary(g, args, flag, self.depth + 1)
                self.bad += bad
                for i in moved:
                    x = strip_casts(n["a"][i])
                    if x["k"] == "call" and x.get("_q") in ("std::move", "std::forward"):
                        x = strip_casts(x["a"][0])
                    if x["k"] == "ref":
                        self.moved[x["d"]] = x.get("n")
                return out
            if k == "call" and True in flag:
                self.say("call", "runs %s while arrays are copied as if into a kernel: handles made there are not counted" % n.get("_q"))
        for x in kids(n):
            flag = self.expr(x, flag)
        return flag


def launches(P, R):
    L = Launch(P, R)
    if not L.fns:
        raise Broken("no kernel launch sets entering_parallel")
    # functions that leave the flag changed are judged where they are used
    todo, seen = list(L.fns.values()), set()
    while todo:
        f = todo.pop()
        if (f.file, f.line) in seen:
            continue
        seen.add((f.file, f.line))
        out, moved, bad = L.summary(f, [frozenset([True, False]) if "bool" in p["t"] else None for p in f.params], [False])
        R.count("launches")
        where = "%s:%d" % (f.file, f.line)
        if True in out:
            users = [g for g in P.fns if g.body is not None and g.fid != f.fid and any(n.get("f") == f.fid for n in g.nodes() if n.get("k") in ("call", "ctor"))]
            if users and len(seen) < 60 and not any(u.fid in L.fns and (u.file, u.line) in seen and True in L.summary(u, [None] * len(u.params), [False])[0] for u in users) and small(f):
                for u in users:
                    L.fns.setdefault(u.fid, u)
                    todo.append(u)
                continue
            R.bad("storage", "storage|launch|%s|left" % key(f), where, "%s leaves arrays being copied as if into a kernel: handles made later are not counted" % f.q)
        for what, msg in bad:
            R.bad("storage", "storage|launch|%s|%s" % (key(f), what), where, msg)


def small(f):
    """A function that only sets the flag (or a guard's constructor): its users are judged instead."""
    return sum(1 for n in f.nodes() if n.get("k") in ("call", "lambda", "for", "while")) <= 1


def key(f):
    return re.sub(r"<.*", "", f.q)


def check(P):
    R = Result()
    try:
        handles(P, R)
        records(P, R)
        pool(P, R)
        entries(P, R)
        arrays(P, R)
    except Unseen as e:
        raise Broken("ownership analysis: %s" % e)
    launches(P, R)
    return R
