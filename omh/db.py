"""Fact database: builds the clang extractor, runs it over every translation
unit of the library, merges the facts and caches them by content hash."""
import concurrent.futures, glob, hashlib, json, marshal, os, re, subprocess, sys, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OMH_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"


class Broken(Exception):
    """The analysis itself cannot give an answer (vanished anchor, parse error)."""


def cache_dir():
    for d in (os.path.join(VERIF, ".cache"), os.path.join(tempfile.gettempdir(), "omh-cache-%d" % os.getuid())):
        try:
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, ".w%d" % os.getpid())
            open(t, "w").close()
            os.unlink(t)
            return d
        except OSError:
            continue
    raise Broken("no writable cache directory")


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tool():
    src = os.path.join(VERIF, "tool", "omx.cpp")
    key = _sha(open(src, "rb").read())
    out = os.path.join(cache_dir(), "omx-" + key)
    if os.path.exists(out):
        return out
    tmp = out + ".%d" % os.getpid()
    cmd = ["g++", "-O1", "-std=c++17", "-fno-rtti", "-fno-exceptions", "-I" + LLVM + "/include", src, "-o", tmp,
           "-L" + LLVM + "/lib", "-Wl,-rpath," + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("cannot build the extractor:\n" + r.stdout[-3000:])
    os.rename(tmp, out)
    return out


def config_dir():
    """Directory with the configuration header of the real build; when the tree
    has not been configured, the committed copy is used."""
    d = os.path.join(REPO, "_build", "src")
    if os.path.exists(os.path.join(d, "Omega_h_config.h")):
        return d
    return os.path.join(VERIF, "config")


def mpi_flags():
    try:
        r = subprocess.run(["mpicxx", "--showme:compile"], stdout=subprocess.PIPE, text=True, stderr=subprocess.DEVNULL)
        if r.returncode == 0:
            return r.stdout.split()
    except OSError:
        pass
    return ["-I/usr/lib/x86_64-linux-gnu/openmpi/include"]


# Sources of the tree that this build configuration leaves out (they need
# third-party packages that are not installed) and the generated-dispatch tests.
NOT_BUILT = {"Omega_h_meshb.cpp", "Omega_h_egads.cpp", "Omega_h_exodus.cpp", "Omega_h_stk.cpp",
             "Omega_h_dolfin.cpp", "Omega_h_for.cpp"}


# configurations analysed in addition by the thorough tier
VARIANTS = [("config:no-OMEGA_H_USE_MPI", "config:no-OMEGA_H_USE_ZLIB"), ("-DOMEGA_H_THROW=1", "-DOMEGA_H_CHECK_BOUNDS=1")]


TOOLS = {"msh2osh", "ascii_vtk2osh", "osh2vtk", "osh_adapt", "osh_box", "osh_calc", "osh_eval_implied",
         "osh_filesystem", "osh_fix", "osh_part", "osh_reorder", "osh_scale", "oshdiff", "vtkdiff"}


def units():
    """Translation units: the library sources and the command line tools of src/."""
    src = os.path.join(REPO, "src")
    cm = open(os.path.join(src, "CMakeLists.txt")).read()
    out = []
    for p in sorted(glob.glob(os.path.join(src, "*.cpp"))):
        b = os.path.basename(p)
        if b in NOT_BUILT or b.startswith("PyOmega") or b.startswith("ugawg"):
            continue
        if b.startswith("Omega_h_"):
            if b not in cm:
                continue
            out.append(p)
        elif b[:-4] in TOOLS:
            out.append(p)
    return out


def variant_config(extra):
    """Configuration header directory for a variant that switches features off."""
    off = [x[10:] for x in extra if x.startswith("config:no-")]
    base = config_dir()
    if not off:
        return base
    text = open(os.path.join(base, "Omega_h_config.h")).read()
    for o in off:
        text = re.sub(r"(?m)^#define %s\b.*$" % o, "", text)
    d = os.path.join(cache_dir(), "config-" + _sha(text))
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "Omega_h_config.h")
    if not os.path.exists(p):
        with open(p + ".%d" % os.getpid(), "w") as f:
            f.write(text)
        os.rename(p + ".%d" % os.getpid(), p)
    return d


def base_flags(extra=()):
    cfg = variant_config(extra)
    extra = [x for x in extra if not x.startswith("config:")]
    return (["-std=c++14", "-Wno-everything", "-I" + os.path.join(REPO, "src"), "-I" + cfg, "-I" + os.path.join(REPO, "tpl")]
            + mpi_flags() + ["-resource-dir", LLVM + "/lib/clang/18"] + list(extra))


def tree_key(extra=()):
    h = hashlib.sha256()
    for pat in ("src/*.cpp", "src/*.hpp", "src/*.h", "src/CMakeLists.txt", "tpl/**/*.h*"):
        for p in sorted(glob.glob(os.path.join(REPO, pat), recursive=True)):
            h.update(p.encode()); h.update(open(p, "rb").read()); h.update(b"\0")
    cfg = os.path.join(config_dir(), "Omega_h_config.h")
    # version strings with the commit id do not matter to the analysis
    h.update(b"\n".join(l for l in open(cfg, "rb").read().splitlines() if b"SEMVER" not in l and b"COMMIT" not in l))
    h.update(open(os.path.join(VERIF, "tool", "omx.cpp"), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    h.update(repr(sorted(extra)).encode())
    return h.hexdigest()[:24]


def _kept(src, flags):
    """Where the facts of one unit are kept between runs (development only: OMH_UNITS names a directory)."""
    h = hashlib.sha256(repr((src, flags)).encode())
    for p in [src] + sorted(glob.glob(os.path.join(REPO, "src", "*.h*"))):
        h.update(open(p, "rb").read())
    return os.path.join(os.environ["OMH_UNITS"], h.hexdigest()[:24] + ".json")


def _extract(args):
    tool_path, src, out, flags = args
    if "OMH_UNITS" in os.environ:
        out = _kept(src, flags)
        if os.path.exists(out):
            return src, out, ""
    roots = ",".join([os.path.join(REPO, "src"), config_dir(), os.path.join(REPO, "tpl")])
    r = subprocess.run([tool_path, out, roots, src, "--"] + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(out):
        return src, None, r.stdout[-2000:]
    return src, out, ""


class DB:
    pass


def load(extra=()):
    """Return merged facts: dict(defs, fns, types, files, recs, enums, vars, units)."""
    key = tree_key(extra)
    cdir = cache_dir()
    pk = os.path.join(cdir, "db-%s.mar" % key)
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as f:
                return marshal.load(f)
        except (ValueError, EOFError, TypeError):
            pass
    t = tool()
    us = units()
    if len(us) < 90:
        raise Broken("only %d translation units found" % len(us))
    work = tempfile.mkdtemp(prefix="omh")
    try:
        flags = base_flags(extra)
        jobs = [(t, u, os.path.join(work, "%d.json" % i), flags) for i, u in enumerate(us)]
        with concurrent.futures.ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 2)) as ex:
            res = list(ex.map(_extract, jobs))
        bad = [(s, m) for s, o, m in res if o is None]
        if bad:
            raise Broken("cannot parse %s:\n%s" % (bad[0][0], bad[0][1]))
        db = merge([o for _, o, _ in res])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    db["units"] = us
    tmp = pk + ".%d" % os.getpid()
    with open(tmp, "wb") as f:
        marshal.dump(db, f)
    os.rename(tmp, pk)
    # keep the cache small
    old = sorted(glob.glob(os.path.join(cdir, "db-*.mar")), key=os.path.getmtime)
    for p in old[:-6]:
        try:
            os.unlink(p)
        except OSError:
            pass
    return db


def rel(p):
    p = os.path.normpath(p)
    return os.path.relpath(p, REPO) if p.startswith(REPO + "/") else p


def merge(outs):
    fns, fn_ix = [], {}
    files, file_ix = [], {}
    recs, enums, gvars = {}, {}, {}
    defs = {}

    def fileix(p):
        p = rel(p)
        if p not in file_ix:
            file_ix[p] = len(files)
            files.append(p)
        return file_ix[p]

    for tu, path in enumerate(outs):
        with open(path) as f:
            d = json.load(f)
        T = d["types"]
        fm = [fileix(p) for p in d["files"]]
        off = (tu + 1) * 10000000
        local_fn = []
        main = rel(d["main"])
        program = not os.path.basename(main).startswith("Omega_h")

        def cv(t):
            return T[t] if isinstance(t, int) and 0 <= t < len(T) else ""

        for m in d["fns"]:
            u = m["usr"]
            m["file"] = fm[m["file"]]
            m["rt"] = cv(m["rt"])
            if "clst" in m:
                m["clst"] = cv(m["clst"])
            if m.get("lam"):
                u = "lam:%d:%d" % (tu, m["ld"])
                m["ld"] += off
                m["usr"] = u
            elif program and files[m["file"]] == main:
                u = m["usr"] = u + "@" + main       # every program has its own main and helpers
            if u not in fn_ix:
                fn_ix[u] = len(fns)
                fns.append(m)
            local_fn.append(fn_ix[u])

        def walk(n):
            st = [n]
            while st:
                n = st.pop()
                if isinstance(n, dict):
                    if "t" in n:
                        n["t"] = cv(n["t"])
                    for k in ("lt", "rt", "at"):
                        if isinstance(n.get(k), int):
                            n[k] = cv(n[k])
                    if isinstance(n.get("d"), int):
                        n["d"] += off
                    if isinstance(n.get("f"), int):
                        n["f"] = local_fn[n["f"]]
                    if "fl" in n:
                        n["fl"] = fm[n["fl"]]
                    for v in n.values():
                        if isinstance(v, (dict, list)):
                            st.append(v)
                elif isinstance(n, list):
                    st.extend(x for x in n if isinstance(x, (dict, list)))

        for x in d["defs"]:
            u = x["usr"]
            if program and files[fm[x["file"]]] == main and not u.startswith("lam:"):
                u = x["usr"] = u + "@" + main
            if u in defs:
                continue
            x["file"] = fm[x["file"]]
            x["bfile"] = fm[x["bfile"]]
            x["fid"] = local_fn[x["fid"]]
            x["rt"] = cv(x["rt"])
            if "clst" in x:
                x["clst"] = cv(x["clst"])
            for k in ("ps", "inits", "body"):
                if k in x:
                    walk(x[k])
            for i in x.get("inits", ()):
                if "base" in i:
                    i["base"] = cv(i["base"])
            x["tu"] = tu
            defs[u] = x
        for r in d["recs"]:
            if r["usr"] in recs:
                continue
            r["t"] = cv(r["t"])
            r["file"] = fm[r["file"]]
            r["bases"] = [cv(b) for b in r["bases"]]
            for f in r["fields"]:
                f["t"] = cv(f["t"])
            for m in r["methods"]:
                m["t"] = cv(m["t"])
                m["rt"] = cv(m["rt"])
            recs[r["usr"]] = r
        for e in d["enums"]:
            e["file"] = fm[e["file"]]
            enums.setdefault((e["q"] + "@" + str(e["line"])), e)
        for v in d["vars"]:
            k = v["q"] + "@%s:%d" % (files[fm[v["file"]]], v["line"])
            if k in gvars and ("i" in gvars[k] or "i" not in v):
                continue
            v["t"] = cv(v["t"])
            v["file"] = fm[v["file"]]
            if "i" in v:
                walk(v["i"])
            if isinstance(v.get("d"), int):
                v["d"] += off
            gvars[k] = v
    return {"fns": fns, "files": files, "defs": defs, "recs": recs, "enums": enums, "vars": gvars}


if __name__ == "__main__":
    import time
    t0 = time.time()
    d = load()
    print(len(d["units"]), "units", len(d["defs"]), "functions", len(d["fns"]), "callees", "%.1fs" % (time.time() - t0))
