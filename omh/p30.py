"""Command lines: what a program asks of its command line is what it declared."""
from .core import *
from .absint import *

LEVEL = "other"
RULE = ("Every program is partially evaluated from main: each option or argument it queries must have been declared, under that name and with that "
        "type, on the same command line and before it is parsed; each declared one must be consulted; names are unique; a failed parse ends the program with a non-zero status before the mesh work starts.")
ASSUMPTIONS = ["the CmdLine class finds an item by its exact name"]


def ty(P, n):
    t = (P.callee[n["f"]].get("ta") or ["?"])[0]
    return short(t)


# options consulted only in configurations that are not compiled here
ELSEWHERE = {"--osh-mpi-ranks-per-node": "selects a GPU per process in CUDA builds", "--model": "only with EGADS"}


class W:
    def __init__(self, P):
        self.P = P
        self.n = 0

    def hook(self, I, n, nm, q, o, a):
        if o is not None and q.startswith("Omega_h::CmdLine::"):
            o = ("cl",)         # every program has one
            if nm == "add_flag":
                I.event("flag", o, a[0], n)
                return ("flag", o, a[0])
            if nm == "add_arg":
                I.event("arg", o, None, a[0], ty(self.P, n), n)
                return ("void",)
            if nm == "get":
                if len(a) == 2:
                    I.event("get", o, a[0], a[1], ty(self.P, n), n)
                else:
                    I.event("get", o, None, a[0], ty(self.P, n), n)
                return ("got", o) + tuple(a)
            if nm == "parsed":
                I.event("parsed", o, a[0], a[1] if len(a) > 1 else None, n)
                return ("parsed", o) + tuple(a)
            if nm in ("parse", "parse_final"):
                I.event("parse", o, nm, n)
                return ("parsedok", o)
            if nm == "check_empty":
                return ("empty", o)
            return ("f", nm, o)
        if o is not None and o[0] == "flag" and nm == "add_arg":
            I.event("arg", o[1], o[2], a[0], ty(self.P, n), n)
            return ("void",)
        return None


def takes_cmdline(P, f):
    return any("CmdLine" in p["t"] for p in f.params)


def check(P):
    R = Result()
    mains = [f for f in P.fns if f.body and any("f" in n and n.get("_q", "").startswith("Omega_h::CmdLine::") and n.get("_q", "").endswith(("add_flag", "add_arg", "CmdLine")) for n in f.nodes())
             and not takes_cmdline(P, f) and not f.q.startswith("Omega_h::CmdLine")]
    for f in mains:
        w = W(P)
        I = Absint(P, w.hook, lambda g: takes_cmdline(P, g) and not g.q.startswith("Omega_h::CmdLine"))
        ev = I.run(f, [("v", p["n"]) for p in f.params])
        evs = [e for e in events(ev) if e[1] in ("flag", "arg", "get", "parsed", "parse")]
        if not evs:
            continue
        R.count("command lines examined")
        R.samples.append("%s: %d declarations and queries" % (f.file, len(evs)))
        prog = f.file
        flags, args, used = {}, {}, set()
        parsed = None

        def bad(k, n, m):
            R.bad("cmdline", "%s|%s" % (prog, k), f.where(n), m)
        for i, e in enumerate(evs):
            if e[1] == "parse":
                parsed = i
                continue
            if e[1] == "flag":
                R.count("options declared")
                k = (e[2], e[3])
                if k in flags:
                    bad("twice|%s" % tstr(e[3]), e[-1], "option %s is declared twice" % tstr(e[3]))
                flags[k] = {}
            elif e[1] == "arg":
                R.count("arguments declared")
                d = args if e[3] is None else flags.setdefault((e[2], e[3]), {})
                k = (e[2], e[4]) if e[3] is None else e[4]
                if k in d:
                    bad("twice|%s" % tstr(e[4]), e[-1], "argument %s is declared twice" % tstr(e[4]))
                d[k] = (e[5], e[-1])
            elif e[1] == "get":
                R.count("queries matched")
                fl, an, t = e[3], e[4], e[5]
                if fl is not None:
                    d = flags.get((e[2], fl))
                    if d is None:
                        bad("undeclared|%s" % tstr(fl), e[-1], "option %s is queried but never declared" % tstr(fl))
                        continue
                    got = d.get(an)
                    used.add((e[2], fl))
                    used.add((e[2], fl, an))
                else:
                    got = args.get((e[2], an))
                    used.add((e[2], an))
                what = "%s%s" % (tstr(fl) + " " if fl is not None else "", tstr(an))
                if got is None:
                    bad("undeclared|%s" % what, e[-1], "argument %s is queried but never declared" % what)
                elif got[0] != t:
                    bad("type|%s" % what, e[-1], "argument %s is declared as %s and read as %s" % (what, got[0], t))
                if parsed is None:
                    bad("early|%s" % what, e[-1], "argument %s is read before the command line is parsed" % what)
            elif e[1] == "parsed":
                if e[3][0] == "s" or e[3][0] == "g":
                    R.count("queries matched")
                    if (e[2], e[3]) not in flags:
                        bad("undeclared|%s" % tstr(e[3]), e[-1], "option %s is queried but never declared" % tstr(e[3]))
                    used.add((e[2], e[3]))
                    if e[4] is not None:
                        used.update((e[2], e[3], an) for an in flags.get((e[2], e[3]), {}))
                    if parsed is None:
                        bad("early|%s" % tstr(e[3]), e[-1], "option %s is queried before the command line is parsed" % tstr(e[3]))
                elif e[3][0] == "c":
                    used.update((e[2], an[1]) for an in args)
        for k, d in flags.items():
            if k[1][0] == "s" and k[1][1] in ELSEWHERE:
                continue
            if k not in used:
                bad("ignored|%s" % tstr(k[1]), None, "option %s is declared and never consulted" % tstr(k[1]))
                continue
            for an, (t, n) in d.items():
                if k + (an,) not in used:
                    bad("ignored|%s %s" % (tstr(k[1]), tstr(an)), n, "the value %s of option %s is never read" % (tstr(an), tstr(k[1])))
        for k, (t, n) in args.items():
            if k not in used:
                bad("ignored|%s" % tstr(k[1]), n, "argument %s is declared and never read" % tstr(k[1]))
        for fl, n, conds in guarded(ev, ()):
            if conds and fl not in conds:
                bad("guard|%s" % tstr(fl), n, "the value of option %s is read when %s was given" % (tstr(fl), " and ".join(tstr(c) for c in conds)))
        if parsed is None:
            bad("parse", None, "the command line is never parsed")
        else:
            failed_parse(P, R, f, ev, prog)
    R.need("command lines examined", 6)
    R.need("queries matched", 30)
    return R


def guarded(ev, conds):
    """Reads of an option's value with the options they are conditional on."""
    for e in ev:
        if e[0] == "ev" and e[1] == "get" and e[3] is not None:
            yield e[3], e[-1], conds
        elif e[0] == "if":
            c = conds + tuple(t[2] for t in find(e[1], lambda t: len(t) > 2 and t[0] == "parsed"))
            yield from guarded(e[2], c)
            yield from guarded(e[3], c)
        elif e[0] == "loop":
            yield from guarded(e[3], conds)
        elif e[0] == "switch":
            for a in e[2]:
                yield from guarded(a, conds)


class Failing(W):
    """The command line is wrong: what happens then?"""
    started = False

    def hook(self, I, n, nm, q, o, a):
        r = super().hook(I, n, nm, q, o, a)
        if r is not None and r[0] == "parsedok":
            self.started = True
            return ("c", 0)
        if r is None and self.started and q.startswith("Omega_h::") and "CmdLine" not in q and self.work(n, q):
            I.event("work", q, n)
        return r

    def work(self, n, q):
        return any(x in short(self.P.callee[n["f"]].get("rt", "")) for x in ("Mesh", "Read<", "Reals")) or any(
            "Mesh" in strip_casts(x).get("t", "") for x in n.get("a", []) if isinstance(x, dict))


def failed_parse(P, R, f, ev, prog):
    w = Failing(P)
    I = Absint(P, w.hook, lambda g: takes_cmdline(P, g) and not g.q.startswith("Omega_h::CmdLine"))
    ev = I.run(f, [("v", p["n"]) for p in f.params])
    R.count("programs evaluated with a wrong command line")
    for e in events(ev):
        if e[1] == "work":
            R.bad("refuse", "%s|work" % prog, f.where(e[-1]), "after a command line that cannot be parsed the program goes on to %s" % last(e[2]))
            return
    if ev and ev[-1] == ("fail",):
        return
    if f.q == "main" and I.ret is not None and I.val(I.ret) == 0:
        R.bad("refuse", "%s|status" % prog, f.where(), "a command line that cannot be parsed ends the program with status 0")
