"""Collectives are reached by all processes or by none."""
from .core import *
from . import flow
from .flow import E, mkL, hasL, origins, base_var

COMM_OPS = {"allreduce", "reduce_or", "reduce_and", "add_int128", "exscan", "bcast", "bcast_string", "allgather", "alltoall",
            "alltoallv", "ialltoallv", "barrier", "dup", "split", "graph", "graph_adjacent", "graph_inverse"}
MPI_OPS = {"MPI_" + x for x in (
    "Allreduce Reduce Bcast Exscan Scan Barrier Ibarrier Allgather Allgatherv Gather Gatherv Scatter Alltoall Alltoallv "
    "Neighbor_allgather Neighbor_alltoall Neighbor_alltoallv Ineighbor_alltoallv Comm_dup Comm_split Dist_graph_create_adjacent "
    "Reduce_scatter Iallreduce Ibcast Finalize").split()}
# Comm operations whose result is the same on every process
UNIFORM_RESULT = {"allreduce", "reduce_or", "reduce_and", "add_int128", "size", "dup", "split", "graph", "graph_adjacent",
                  "graph_inverse", "library", "get_impl", "barrier", "bcast", "bcast_string"}
LOCAL_RESULT = {"rank", "exscan", "sources", "destinations", "alltoall", "alltoallv", "allgather", "ialltoallv"}
ARRAY = ("Omega_h::Read<", "Omega_h::Write<", "Omega_h::HostRead<", "Omega_h::HostWrite<")
SEED_FIELDS = [("Omega_h::Mesh", "nents_")]
HANDLE_METHODS = {"exists", "name", "use_count", "write"}


# Functions computed from process-local sizes whose result is nevertheless the same everywhere.
UNIFORM_FNS = {
    "Omega_h::Mesh::has_ents": "whether the entity arrays were set, which set_ents does on every process; the count itself differs",
    "Omega_h::get_metrics_dim": "number of components per metric, a ratio of two local sizes",
}
# Sparse-exchange algorithm: each process leaves the loop only after the barrier every process joins.
PROTOCOL_FNS = {"Omega_h::sources_from_destinations"}

# reductions and scans over a process's own data
LOCAL_ALGOS = {"Omega_h::transform_reduce", "Omega_h::parallel_reduce", "Omega_h::parallel_scan", "Omega_h::reduce"}


SCALAR = re.compile(r"^(const )?(unsigned |signed )?(int|long|long long|short|char|bool|double|float|Omega_h_\w+|Omega_h::(Verbosity|\w*Type|\w*Kind))(\[\d+\])*$")


class Cfg:
    # classes whose fields are tracked across functions (configuration and collective state)
    FIELD_CLASSES = {"Omega_h::Mesh", "Omega_h::Dist", "Omega_h::AdaptOpts", "Omega_h::Library", "Omega_h::vtk::Writer",
                     "Omega_h::vtk::FullWriter", "Omega_h::MetricInput", "Omega_h::TransferOpts", "Omega_h::VarCompareOpts"}

    _sf = None

    def scalar_field(self, P, key):
        if self._sf is None:
            self._sf = set()
            for c in self.FIELD_CLASSES:
                for r in P.rec_by_q.get(c, ()):
                    for f in r["fields"]:
                        if SCALAR.match(f["t"]):
                            self._sf.add((c, f["n"]))
        return key in self._sf

    def lambda_matters(self, n, P):
        return any(self.interesting(x, P) or any(t.fid in self.reach for t in P.targets(x)) for x in walk(n["body"]) if "f" in x)

    def interesting(self, n, P):
        q = n.get("_q", "")
        if q in MPI_OPS:
            if n["a"] and any(x.get("g") == "ompi_mpi_comm_self" for x in walk(n["a"][0])):
                return None
            return q
        if q.startswith("Omega_h::Comm::") and q[15:] in COMM_OPS:
            return q[9:]
        return None

    def field(self, n):
        return None

    def narrow(self, run, n):
        """Is the expression a communicator (or a mesh on one) that only this process, or a
        freshly split group, belongs to?"""
        n = strip(n)
        k = n.get("k")
        if k == "call":
            q = n.get("_q", "")
            if q in ("Omega_h::Library::self", "Omega_h::Comm::split"):
                return True
            if q.startswith("std::shared_ptr") or q.startswith("std::__shared_ptr") or n.get("op") in ("->", "*"):
                return "o" in n and self.narrow(run, n["o"])
            return False
        if k == "un":
            return self.narrow(run, n["e"])
        if k == "ctor" and n["a"]:
            return self.narrow(run, n["a"][0])
        v = base_var(n)
        if v is not None and v.get("k") == "ref" and run.st is not None:
            return ("narrow", v["d"]) in run.st
        return False

    def skip_events(self, run, n):
        if "o" in n and self.narrow(run, n["o"]):
            return True
        return any(self.narrow(run, a) for a in n["a"])

    def track(self, run, n):
        """Maintain which local variables hold meshes/communicators of a narrow group."""
        q = n.get("_q", "")
        if q == "Omega_h::Mesh::set_comm" and "o" in n:
            v = base_var(n["o"])
            if v is not None and v.get("k") == "ref":
                if self.narrow(run, n["a"][0]):
                    run.st[("narrow", v["d"])] = E
                else:
                    run.st.pop(("narrow", v["d"]), None)

    def declared(self, run, v):
        i = v.get("i")
        if i is None:
            return
        i = strip(i)
        run.st.pop(("narrow", v["d"]), None)
        if i.get("k") == "ctor" and i.get("_q", "") == "Omega_h::Mesh::Mesh" and i["a"]:
            run.st[("narrow", v["d"])] = E      # a mesh without a communicator yet
        elif "Comm" in v.get("t", "") and self.narrow(run, i):
            run.st[("narrow", v["d"])] = E

    def source(self, n, P, run, obj, args):
        q = n.get("_q", "")
        self.track(run, n)
        org = "%s %s" % (run.f.where(n), show(n)[:60])
        if q in ("Omega_h::binary::read_value", "Omega_h::binary::read_array", "Omega_h::binary::read") and len(n["a"]) >= 2:
            if q != "Omega_h::binary::read" or "basic_string" in (P.meta(n)["usr"]):
                run.assign(n["a"][1], E, strong=True)
                return E
        if n["k"] == "ctor":
            t = n.get("t", "")
            if t.startswith(ARRAY):
                return E           # a handle; its contents are local, the handle is not
        if not q:
            return None
        m = P.meta(n)
        if q in UNIFORM_FNS:
            return E
        if q == "Omega_h::divide_no_remainder" and len(args) == 2 and hasL(args[1]):
            return E           # components per entity: (local count * ncomps) / local count
        if q in LOCAL_ALGOS:
            return mkL(org)
        if q.startswith("Omega_h::CmdLine::"):
            return E           # every process is given the same command line
        if q.startswith("Omega_h::Comm::"):
            op = q[15:]
            if op in ("bcast", "bcast_string") and n["a"]:
                run.assign(n["a"][0], E, strong=True)
                return E
            if op in UNIFORM_RESULT:
                return E
            if op in LOCAL_RESULT:
                return mkL(org)
        ct = m.get("clst", "") if m else ""
        if ct.startswith(ARRAY):
            nm = q.split("::")[-1]
            if nm in HANDLE_METHODS or nm.startswith("operator="):
                return E
            return mkL(org)
        if q in ("MPI_Comm_rank",):
            return None
        return None


def check(P):
    return run(P)[0]


def run(P):
    R = Result()
    cfg = Cfg()
    eng = flow.Engine(P, cfg)
    # functions from which a collective can be reached
    reach = collectives(P, cfg)
    cfg.reach = reach
    R.counts["functions reaching a collective"] = len(reach)
    todo = [f for f in P.fns if f.fid in reach or needs_field(P, f)]
    for fl in SEED_FIELDS:
        eng.fields[fl] = mkL("%s::%s" % fl)
    it = eng.run(todo)
    R.counts["functions analysed"] = len(eng.sum)
    R.counts["rounds"] = it + 1
    sites = 0
    for f in P.fns:
        for n in f.nodes():
            if "f" in n and cfg.interesting(n, P):
                sites += 1
    R.counts["collective call sites"] = sites
    for f in todo:
        s = eng.sum.get(f.fid)
        if not s:
            continue
        for lab, toks, tr in s.events:
            if hasL(toks) and f.q not in PROTOCOL_FNS:
                R.bad("local-branch", "%s|%s" % (f.q, lab), tr[0],
                      "%s: whether %s runs depends on a value that can differ between processes (%s)" % (f.sig(), lab, "; ".join(origins(toks))), tr[1:])
    return R, eng


def collectives(P, cfg):
    callers = {}
    seed = set()
    for f in P.fns:
        for n in f.nodes():
            if "f" in n:
                if cfg.interesting(n, P):
                    seed.add(f.fid)
                for t in P.targets(n):
                    callers.setdefault(t.fid, set()).add(f.fid)
    work = list(seed)
    while work:
        x = work.pop()
        for c in callers.get(x, ()):
            if c not in seed:
                seed.add(c)
                work.append(c)
    return seed


def needs_field(P, f):
    return any(n.get("k") == "mem" and n.get("cls") in Cfg.FIELD_CLASSES for n in f.nodes(lambdas=False))
