"""P24: redistribution plans send every item where it is said to go."""
from .core import *
from .kern import *
from .kern import Kern, Event, isc, add, mul, ite
from .spec import Spec, Norm, Canon, Eval, OPAQUE, NONE, deep, sh, truth, brief, same, checked
from .p17 import SPECS as ARRAYS, pre
from .p21 import c

LEVEL = "other"
RULE = ("Each function that makes or applies a redistribution plan (Omega_h_dist.cpp, remotes, owners, migrate, ghost, bipart, unmap_mesh, reorder, globals) is reduced to a normal "
        "form of what it returns and of what it does to its meshes and plans, and compared with its definition.")
ASSUMPTIONS = ["array operations compute what their names state (P17), adjacencies are right (P18), collectives do what MPI says",
               "a neighborhood communicator lists its messages in the order its parts were given"]
TRUSTED = ["omh/kern.py: kernels run serially in index order", "the definitions in omh/p24.py"]
FILES = re.compile(r"Omega_h_(dist|remotes|owners|migrate|ghost|bipart|unmap_mesh|reorder|globals)\.cpp$")
SETTERS = {"set_parent_comm", "set_dest_ranks", "set_dest_idxs", "set_dest_globals", "set_roots2items", "change_comm"}
FIELDS = ("parent_comm_", "roots2items_", "items2content_", "msgs2content_", "comm_")
OUTS = {"sort_small_range": (1, 2, 3), "map_into": (2,)}
QUIET = {"print_migrate_stats", "begin_code", "end_code", "parallel_for", "push", "push_down"}

SPECS = """
# ---- plans
~out0           | d w               | expand(d, this().roots2items_[0], w) if exists(this().roots2items_[0]) else d
~packed         | d w               | permute(out0(d,w), this().items2content_[0], w) if exists(this().items2content_[0]) else out0(d,w)
~unpacked       | d w               | unmap(this().items2content_[1], d, w) if exists(this().items2content_[1]) else d
exch            | this.Dist data:Read w | unpacked(alltoallv(this().comm_[0], packed(data,w), this().msgs2content_[0], this().msgs2content_[1], w), w)
iexch           | this.Dist data w  | then(ialltoallv(this().comm_[0], packed(data,w), this().msgs2content_[0], this().msgs2content_[1], w), unpacked(received(),w))
exch            | this.Dist data:Remotes w | Remotes(exch(this(),data.ranks,w), exch(this(),data.idxs,w))
exch_reduce     | this.Dist data w op | fan_reduce(this().roots2items_[1], exch(this(),data,w), w, op)
parent_comm     | this.Dist         | this().parent_comm_
comm            | this.Dist         | this().comm_[0]
msgs2content    | this.Dist         | this().msgs2content_[0]
content2msgs    | this.Dist         | invert_fan(this().msgs2content_[0])
items2content   | this.Dist         | this().items2content_[0]
items2msgs      | this.Dist         | unmap(this().items2content_[0], content2msgs(this()), 1)
roots2items     | this.Dist         | this().roots2items_[0]
msgs2ranks      | this.Dist         | destinations(this().comm_[0])
items2ranks     | this.Dist         | compound_maps(items2msgs(this()), msgs2ranks(this()))
items2dest_idxs | this.Dist         | exch(invert(this()), linear(ndests(this()),0,1), 1)
items2dests     | this.Dist         | Remotes(items2ranks(this()), items2dest_idxs(this()))
nitems          | this.Dist         | last(this().msgs2content_[0])
nroots          | this.Dist         | size(this().roots2items_[0])-1
nsrcs           | this.Dist         | nroots(this()) if exists(this().roots2items_[0]) else nitems(this())
ndests          | this.Dist         | nsrcs(invert(this()))
create_dist_for_variable_sized | u d | Dist(parent_comm(u), Remotes(expand(items2ranks(u),d,1), I), last(d)) where A = new(size(d)-1,0), I = new(last(d)) | i<size(d)-1 | A @ i = d[i] ; a<nitems(u), d[a]<=k<d[a+1] | I @ k = exch(invert(u),A,1)[a]+k-d[a]
# ---- remotes
expand          | r:Remotes f       | Remotes(expand(r.ranks,f,1), expand(r.idxs,f,1))
unmap           | m r:Remotes       | Remotes(unmap(m,r.ranks,1), unmap(m,r.idxs,1))
identity_remotes | comm n           | Remotes(new(n,rank(comm)), linear(n,0,1))
rescan_globals  | mesh n            | new(size(n)) | i<size(n) | i = offset_scan(n)[i] + exscan(comm(mesh), last(offset_scan(n)), 2)
# ---- ownership
owners_from_globals | comm g r      | update_ownership(copies_to_linear_owners(comm,g), r)
reduce_data_to_owners | d u w       | new(nroots(invert(u))*w) | o<nroots(invert(u)), j<w | o*w+j = exch(u,d,w)[roots2items(invert(u))[o]*w+j]
globals_from_owners | mesh d        | sync_array(mesh, d, rescan_globals(mesh, owned(mesh,d)), 1) if could_be_shared(mesh,d) else linear(nents(mesh,d), exscan(comm(mesh),nents(mesh,d),2), 1)
~client         | u s               | msgs2ranks(invert(u))[items2msgs(invert(u))[s]]
~load           | u s               | allgather(comm(u), nitems(u))[items2msgs(invert(u))[s]]
~better         | u s t             | load(u,s) < load(u,t) or load(u,s) == load(u,t) and client(u,s) < client(u,t)
~copy_idx       | u s               | exch(u, linear(nitems(u),0,1), 1)[s]
~fans           | u o               | roots2items(invert(u))[o]
update_ownership | u r              | Remotes(r, exch(invert(u),A,1)) if exists(r) else Remotes(exch(invert(u),R,1), exch(invert(u),I,1)) where A = new(nroots(invert(u)),-1), R = new(nroots(invert(u)),-1), I = new(nroots(invert(u)),-1) | o<nroots(invert(u)), fans(u,o)<=s<fans(u,o+1) if exch(u,r,1)[s] == client(u,s) and not any(exch(u,r,1)[t] == client(u,t) for t in range(fans(u,o),s)) | A @ o = copy_idx(u,s) ; o<nroots(invert(u)), fans(u,o)<=s<fans(u,o+1) if not any(better(u,t,s) for t in range(fans(u,o),fans(u,o+1))) and not any(not better(u,s,t) for t in range(fans(u,o),s)) | R @ o = client(u,s) ; o<nroots(invert(u)), fans(u,o)<=s<fans(u,o+1) if not any(better(u,t,s) for t in range(fans(u,o),fans(u,o+1))) and not any(not better(u,s,t) for t in range(fans(u,o),s)) | I @ o = copy_idx(u,s)
# ---- migration
form_down_use_owners | mesh h l     | unmap(ask_down(mesh,h,l).ab2b, ask_owners(mesh,l))
get_old_owners2uniq_uses | u        | set_roots2items(set_dest_ranks(set_parent_comm(undef(Dist), parent_comm(u)), unmap(collect_marked(K), items2ranks(invert(u)), 1)), offset_scan(D)) where K = new(nitems(invert(u)), 1), D = new(nroots(invert(u))) | o<nroots(invert(u)), fans(u,o)<=k<fans(u,o+1) if any(items2ranks(invert(u))[j] == items2ranks(invert(u))[k] for j in range(fans(u,o),k)) | K @ k = 0 ; o<nroots(invert(u)) | D @ o = sum((0 if any(items2ranks(invert(u))[j] == items2ranks(invert(u))[k] for j in range(fans(u,o),k)) else 1) for k in range(fans(u,o),fans(u,o+1)))
get_new_copies2old_owners | u g     | invert(set_dest_globals(get_old_owners2uniq_uses(u), g))
~fit            | n v s e           | items2ranks(invert(n))[e] == items2ranks(v)[s]
form_new_conn   | n v               | exch(set_roots2items(v, none()), X, 1) where E = roots2items(invert(n)), U = roots2items(v), X = new(nitems(v)) | o<nroots(invert(n)), U[o]<=s<U[o+1] | X @ s = -1 ; o<nroots(invert(n)), U[o]<=s<U[o+1], E[o]<=e<E[o+1] if fit(n,v,s,e) and not any(fit(n,v,s,b) for b in range(E[o],e)) | X @ s = copy_idx(n,e)
push_down       | m h l o x d       | do(becomes("new_ents2new_lows", having(x, "ab2b", form_new_conn(N, invert(U)), "codes", exch(o, C, W) if exists(C) else x.codes)), becomes("old_low_owners2new_lows", invert(N))) where W = element_degree(family(m),h,l), U = Dist(comm(m), exch(o, form_down_use_owners(m,h,l), W), nents(m,l)), N = get_new_copies2old_owners(U, globals(m,l)), C = ask_down(m,h,l).codes
push_ents       | m n d u o mode    | do(push_tags(m,n,d,o), set_owners(n, d, update_ownership(u, exch(o, ask_owners(m,d).ranks, 1) if mode == 1 or mode == 2 and d == 0 else none())))
~moved          | m u d             | invert(u) if d == dim(m) else out(5, push_down(m, d+1, d, moved(m,u,d+1), undef(Adj), undef(Dist)))
~move_lows      | m u mode d        | list(set_ents(copy_meta(m), d, out(4, push_down(m, d, d-1, moved(m,u,d), undef(Adj), undef(Dist)))), push_ents(m, copy_meta(m), d, invert(moved(m,u,d)), moved(m,u,d), mode))
migrate_mesh    | m u mode v        | do(move_lows(m,u,mode,1), move_lows(m,u,mode,2) if 1 < dim(m) else nothing(), move_lows(m,u,mode,3) if 2 < dim(m) else nothing(), set_verts(copy_meta(m), nitems(invert(moved(m,u,0)))), push_ents(m, copy_meta(m), 0, invert(moved(m,u,0)), moved(m,u,0), mode), becomes("mesh", copy_meta(m)))
# ---- ghosting and parting
get_local_elem_uses2own_verts | mesh | Dist(comm(mesh), expand(ask_owners(mesh,0), ask_up(mesh,0,dim(mesh)).a2ab), nverts(mesh))
get_local_elem_uses2own_elems | mesh | unmap(ask_up(mesh,0,dim(mesh)).ab2b, ask_owners(mesh,dim(mesh)))
~get_own_verts2own_elems | mesh      | RemoteGraph(roots2items(invert(get_local_elem_uses2own_verts(mesh))), exch(get_local_elem_uses2own_verts(mesh), get_local_elem_uses2own_elems(mesh), 1))
push_elem_uses  | g u               | exch(Dist(parent_comm(u), Remotes(VR, VI), nitems(invert(u))), Remotes(ER, EI), 1) where F = multiply_fans(g.locals2edges, roots2items(u)), V = roots2items(u), G = g.locals2edges, ER = new(last(F)), EI = new(last(F)), VR = new(last(F)), VI = new(last(F)) | o<nroots(u), V[o]<=s<V[o+1], G[o]<=e<G[o+1] | ER @ F[o]+(s-V[o])*(G[o+1]-G[o])+e-G[o] = g.edges2remotes.ranks[e] ; o<nroots(u), V[o]<=s<V[o+1], G[o]<=e<G[o+1] | EI @ F[o]+(s-V[o])*(G[o+1]-G[o])+e-G[o] = g.edges2remotes.idxs[e] ; o<nroots(u), V[o]<=s<V[o+1], G[o]<=e<G[o+1] | VR @ F[o]+(s-V[o])*(G[o+1]-G[o])+e-G[o] = items2dests(u).ranks[s] ; o<nroots(u), V[o]<=s<V[o+1], G[o]<=e<G[o+1] | VI @ F[o]+(s-V[o])*(G[o+1]-G[o])+e-G[o] = items2dests(u).idxs[s]
~close_up        | mesh g v          | get_new_copies2old_owners(Dist(comm(mesh), push_elem_uses(g, invert(v)), nelems(mesh)), globals(mesh,dim(mesh)))
~close_down      | mesh v e          | get_new_copies2old_owners(Dist(comm(mesh), exch(invert(e), v, element_degree(family(mesh),dim(mesh),0)), nents(mesh,0)), globals(mesh,0))
~first_uses     | mesh n            | form_down_use_owners(mesh, dim(mesh), 0) if 1 < n - nghost_layers(mesh) else undef(Remotes)
ghost_mesh      | mesh n v          | do(migrate_mesh(mesh, through(i, 1, n-nghost_layers(mesh), close_up(mesh, get_own_verts2own_elems(mesh), ask_dist(mesh,0)), x, close_up(mesh, get_own_verts2own_elems(mesh), close_down(mesh, first_uses(mesh,n), x))), 1, v))
partition_by_verts | mesh v         | do(migrate_mesh(mesh, get_new_copies2old_owners(Dist(comm(mesh), get_own_verts2own_elems(mesh).edges2remotes, nelems(mesh)), globals(mesh,dim(mesh))), 2, v))
partition_by_elems | mesh v         | do(migrate_mesh(mesh, Dist(comm(mesh), unmap(collect_marked(owned(mesh,dim(mesh))), ask_owners(mesh,dim(mesh))), nelems(mesh)), 0, v))
~fewer          | k m               | collect_marked(invert_marks(m) if k == 0 else invert_marks(invert_marks(m)))
~half_owners    | comm k m          | globals_to_linear_owners(linear(size(fewer(k,m)), exscan(comm,size(fewer(k,m)),2), 1), allreduce(comm,size(fewer(k,m)),2), ratio(size(comm),2))
bi_partition    | comm m            | Dist(comm, Remotes(R, I), linear_partition_size(allreduce(comm,size(fewer(1,m)),2), ratio(size(comm),2), rank(comm)-ratio(size(comm),2)) if ratio(size(comm),2) <= rank(comm) and rank(comm) < 2*ratio(size(comm),2) else linear_partition_size(allreduce(comm,size(fewer(0,m)),2), ratio(size(comm),2), rank(comm)) if 0 <= rank(comm) and rank(comm) < ratio(size(comm),2) else -1) where R = new(size(m)), I = new(size(m)) | | R @ all = map_into(add_to_each(half_owners(comm,0,m).ranks,0), fewer(0,m), 1) ; | R @ all = map_into(add_to_each(half_owners(comm,1,m).ranks,ratio(size(comm),2)), fewer(1,m), 1) ; | I @ all = map_into(half_owners(comm,0,m).idxs, fewer(0,m), 1) ; | I @ all = map_into(half_owners(comm,1,m).idxs, fewer(1,m), 1)
# ---- renumbering
unmap_down      | o n d n2o l       | do(set_ents(n, d, having(X, "codes", unmap(n2o, C, W) if exists(C) else X.codes))) where W = element_degree(family(o),d,d-1), C = ask_down(o,d,d-1).codes, X = compound_maps(unmap(n2o, ask_down(o,d,d-1).ab2b, W), l)
unmap_owners    | o d n2o o2n       | Remotes(unmap(n2o, ask_owners(o,d).ranks, 1), unmap(n2o, exch(invert(ask_dist(o,d)), o2n, 1), 1))
unmap_owners    | o n d n2o o2n     | do(set_owners(n, d, unmap_owners(o,d,n2o,o2n)) if not (size(comm(o)) == 1) else nothing())
~reparented     | o n a b d         | list(set_parents(n, d, Parents(I, C))) where I = new(size(a[d]),-1), C = new(size(a[d]),0) | i<size(a[d]) if ask_parents(o,d).parent_idx[a[d][i]] > -1 | I @ i = b[code_parent_dim(ask_parents(o,d).codes[a[d][i]])][ask_parents(o,d).parent_idx[a[d][i]]] ; i<size(a[d]) if ask_parents(o,d).parent_idx[a[d][i]] > -1 and b[code_parent_dim(ask_parents(o,d).codes[a[d][i]])][ask_parents(o,d).parent_idx[a[d][i]]] > -1 | C @ i = ask_parents(o,d).codes[a[d][i]]
unmap_parents   | o n a b           | do(reparented(o,n,a,b,1), reparented(o,n,a,b,2) if 1 < dim(n) else nothing(), reparented(o,n,a,b,3) if 2 < dim(n) else nothing())
~leaves         | n d               | list(set_tag(n, d, "leaf", L, False)) where L = new(nents(n,d)) | i<nents(n,d) | L @ i = 1 if ask_children(n,d,d).a2ab[i+1] - ask_children(n,d,d).a2ab[i] == 0 and not ask_leaves(n,d)[i] else ask_leaves(n,d)[i]
unmap_leaves    | n                 | do(leaves(n,1), leaves(n,2) if 1 < dim(n) else nothing(), leaves(n,3) if 2 < dim(n) else nothing())
~find_entities_of_first_vertices | mesh d | invert_map_by_sorting(get_component(ask_verts_of(mesh,d), element_degree(family(mesh),d,0), 0), nverts(mesh))
~ent_order_from_vert_order | mesh d v | unmap_graph(v, find_entities_of_first_vertices(mesh,d)).ab2b
~inverses       | m a d             | place(inverses(m,a,d-1) if d else none(), d, invert_injective_map(a[d], nents(m,d)))
~lowered        | m a d             | list(unmap_down(m, copy_meta(m), d, a[d], invert_injective_map(a[d-1], nents(m,d-1))), unmap_tags(m, copy_meta(m), d, a[d]), unmap_owners(m, copy_meta(m), d, a[d], invert_injective_map(a[d], nents(m,d))))
unmap_mesh      | m a               | do(set_verts(copy_meta(m), size(a[0]) if exists(a[0]) else nverts(m)), unmap_tags(m, copy_meta(m), 0, a[0]), unmap_owners(m, copy_meta(m), 0, a[0], invert_injective_map(a[0], nents(m,0))), lowered(m,a,1), lowered(m,a,2) if 1 < dim(m) else nothing(), lowered(m,a,3) if 2 < dim(m) else nothing(), unmap_parents(m, copy_meta(m), a, inverses(m,a,dim(m))) if has_any_parents(m) else nothing(), unmap_leaves(copy_meta(m)) if has_any_parents(m) else nothing(), becomes("mesh", copy_meta(m)))
~orders         | m v d             | place(orders(m,v,d-1), d, ent_order_from_vert_order(m,d,v)) if d else place(none(), 0, v)
~by_globals     | m d               | place(by_globals(m,d-1) if d else none(), d, sort_by_keys(globals(m,d),1))
~renumbered     | m d               | list(remove_tag(m,d,"global"), add_tag(m,d,"global",1,linear(nents(m,d),0,1),False))
~reorder_mesh_by_verts | m v         | do(unmap_mesh(m, orders(m,v,dim(m))))
reorder_by_globals | m              | do(unmap_mesh(m, by_globals(m,dim(m))))
reorder_by_hilbert | m              | do(reorder_mesh_by_verts(m, sort_coords(coords(m),dim(m))), renumbered(m,0), renumbered(m,1), renumbered(m,2) if 1 < dim(m) else nothing(), renumbered(m,3) if 2 < dim(m) else nothing())
"""
# what a Dist holds afterwards; the rest stays
HOLDS = """
set_parent_comm | m                 | parent_comm_ = m
set_dest_ranks  | r                 | items2content_[0] = out(1,sort_small_range(r)) ; msgs2content_[0] = out(2,sort_small_range(r)) ; comm_[0] = to_ranks(r) ; comm_[1] = graph_inverse(to_ranks(r)) ; msgs2content_[1] = offset_scan(alltoall(to_ranks(r), get_degrees(out(2,sort_small_range(r)))))
set_dest_idxs   | d n               | roots2items_[1] = invert_map_by_atomics(exch(this(),d,1),n).a2ab ; items2content_[1] = invert_map_by_atomics(exch(this(),d,1),n).ab2b
set_dest_globals | d                | items2content_[1] = sort_by_keys(exch(this(),d,1),1) ; roots2items_[1] = none()
set_roots2items | f                 | roots2items_[0] = f
change_comm     | m                 | comm_[0] = moved_to(m) ; comm_[1] = graph_inverse(moved_to(m)) ; parent_comm_ = m
copy            | o                 | parent_comm_ = o.parent_comm_ ; roots2items_[0] = o.roots2items_[0] ; roots2items_[1] = o.roots2items_[1] ; items2content_[0] = o.items2content_[0] ; items2content_[1] = o.items2content_[1] ; msgs2content_[0] = o.msgs2content_[0] ; msgs2content_[1] = o.msgs2content_[1] ; comm_[0] = o.comm_[0] ; comm_[1] = o.comm_[1]
invert          |                   | parent_comm_ = this().parent_comm_ ; roots2items_[0] = this().roots2items_[1] ; roots2items_[1] = this().roots2items_[0] ; items2content_[0] = this().items2content_[1] ; items2content_[1] = this().items2content_[0] ; msgs2content_[0] = this().msgs2content_[1] ; msgs2content_[1] = this().msgs2content_[0] ; comm_[0] = this().comm_[1] ; comm_[1] = this().comm_[0]
"""
HELP = """
~to_ranks       | r                 | graph(this().parent_comm_, out(3,sort_small_range(r)))
~moved_to       | m                 | graph_adjacent(m, allgather(this().comm_[0], rank(m)), allgather(this().comm_[1], rank(m)))
"""
# what has to be done before what
ORDER = {"reorder_by_hilbert": [("reorder_mesh_by_verts", "remove_tag"), ("unmap_mesh", "remove_tag"), ("remove_tag", "add_tag")],
         "unmap_mesh": [("unmap_down", "unmap_leaves"), ("unmap_parents", "unmap_leaves"), ("set_verts", "unmap_down"), ("set_verts", "unmap_tags")],
         "unmap_leaves": [], "push_ents": []}
# functions that go through the dimensions of a mesh: one by one
DIMS = {n: (1, 2, 3) for n in ("migrate_mesh", "unmap_parents", "unmap_leaves", "unmap_mesh", "reorder_mesh_by_verts", "reorder_by_hilbert", "reorder_by_globals")}

# both plans start from the same entities
GIVEN = {"form_new_conn": {("size", ("call", "roots2items", ("sym", "p", "v"))): ("call", "size", ("call", "roots2items", ("call", "invert", ("p", "n"))))}}


class DistKern(Kern):
    def assign(self, n, v, at):
        super().assign(n, v, at)
        p = self.path(strip_casts(n))
        if p and len(p) == 1 and "Mesh" in (self.ty.get(p[0]) or "") or p and any(p == (x["d"],) and "Mesh" in x["t"] for x in self.fn.params):
            self.events.append(Event("becomes", (p, v), list(self.pc), list(self.binders), at, self.fn))

    """Fields of a Dist are small arrays it owns; out-arguments may be their entries."""
    def local(self, b):
        p = self.path(b)
        if p and p[0] == "this" and p[-1] in FIELDS:
            return True
        return super().local(b)

    def effects(self, n, nm, t):
        f = self.P.by_fid.get(n.get("f"))
        keep = {}
        for i, a in enumerate(n.get("a", [])):
            if f and i < len(f.params) and "Mesh" in f.params[i]["t"]:
                p = self.path(a)
                if p:
                    keep.update({q: v for q, v in self.env.items() if q[0] == p[0]})
        super().effects(n, nm, t)
        self.env.update(keep)
        if f is not None and re.match(r"^void\b", self.P.callee[n["f"]].get("rt", "")) and nm not in QUIET and nm not in OUTS:
            self.events.append(Event("effect", (t,), list(self.pc), list(self.binders), n, self.fn))


class DistNorm(Norm):
    dim = None

    def run(self, f, args):
        K = DistKern(self.P, inline=lambda g: bool(self.files.search(g.file)) and g.name not in self.opaque, hook=self.hook)
        r = K.run(f, args)
        items = []
        for e in K.events:
            if e.kind == "effect":
                t = e.data[0]
                if e.binders:
                    raise Broken("%s: an effect in a loop" % f.name)
                items.append(ite(truth(conj(*e.pc)), t, ("void",)))
        late = []
        for p, a in zip(f.params, args):
            v = K.load((p["d"],))
            if v is not None and v != a and re.search(r"[&*]$", p["t"].rstrip()) and "const" not in p["t"]:
                items.append(("call", "becomes", ("s", p["n"]), v))
        if items:
            r = ("do",) + tuple(items) + ((r,) if r != ("void",) else ())
        K.result = r
        return K, r

    def normal(self, f, args):
        K, r = self.run(f, args)
        fx = {}
        C = Canon(K)
        for e in K.events:
            if e.kind == "store" and e.data[0][:1] == ("p",):
                fx.setdefault(e.data[0], C.stores(e.data[0]))
        return K, ordered(self.tidy(C(r))), fx

    def tidy(self, t):
        return tidy(t)

    def hook(self, K, n, nm, q, o, a):
        if nm == "dim" and self.dim is not None and not a:
            return c(self.dim)
        if nm in SETTERS and "Dist::" in q and o is not None:
            p = K.path(n["o"])
            if p is None:
                raise Broken("%s of a plan that is not a variable" % nm)
            for x in [x for x in K.env if x[:len(p)] == p]:
                del K.env[x]
            K.store(p, ("call", nm, o) + tuple(a))
            return ("void",)
        if nm == "add_callback" and o is not None:
            m = strip_casts(n["a"][0])
            while m.get("k") == "ctor" and m.get("a") or m.get("k") == "call" and last(m.get("_q", "")) in ("move", "forward"):
                m = strip_casts(m["a"][0])
            lam = m if m.get("k") == "lambda" else K.lam.get(K.path(m), (None,))[0]
            p = K.path(n["o"])
            if lam is None or p is None:
                raise Broken("what is done to data received is not known")
            K.store(p, ("call", "then", o, K.lambda_call(lam, [("call", "received")], n)))
            return ("void",)
        if nm in OUTS:
            out = OUTS[nm]
            t = ("call", nm) + tuple(x for j, x in enumerate(a) if j not in out and x[:1] != ("s",))
            for i in out:
                if nm == "map_into":
                    K.events.append(Event("store", (a[i], ("all",), t), list(K.pc), list(K.binders), n, K.fn))
                else:
                    K.assign(strip_casts(n["a"][i])["e"], ("out", i, t), n)
            return ("void",)
        return super().hook(K, n, nm, q, o, a)


def ordered(t):
    if t[:1] != ("do",):
        return t
    out = []

    def flat(x):
        for y in x:
            if y[:1] in (("list",), ("do",)):
                flat(y[1:])
            elif y[:1] == ("ite",) and y[3] == ("void",) and y[2][:1] in (("list",), ("do",)):
                flat([ite(y[1], z, y[3]) for z in y[2][1:]])
            elif y != ("void",):
                out.append(y)
    flat(t[1:])
    return ("do",) + tuple(sorted(out, key=repr))


def tidy(t):
    def go(x):
        if x[:1] == ("rec",):
            d = dict(x[1:])
            if () in d:
                out = ("call", "having", d[()])
                for q in sorted(k for k in d if k):
                    out += (("s", q[0]), d[q])
                return out
        if x[:2] == ("new", "RemoteGraph"):
            return ("list",) + x[2:]
        if x[:1] == ("undef",) and re.search(r"Read<|LOs", x[1]):
            return NONE
        return None
    return deep(t, go)


def orders(R, s, f, K):
    """Effects in an order that matters; nothing is done to a mesh that has been copied away."""
    ev = [(i, e.data[0][1] if e.kind == "effect" else "", e) for i, e in enumerate(K.events) if e.kind in ("effect", "becomes")]
    where = "%s:%d" % (f.file, f.line)
    for a, b in ORDER.get(s.name, ()):
        R.count("obligations")
        for i, x, e in ev:
            for j, y, g in ev:
                if (x, y) == (a, b) and j < i and (a != "remove_tag" or e.data[0][2:4] == g.data[0][2:4]):
                    R.bad("plan", "%s|order|%s|%s" % (s.name, a, b), where, "%s calls %s before %s" % (f.name, b, a))
                    break
    for i, x, e in ev:
        if e.kind == "becomes":
            R.count("obligations")
            for j, y, g in ev:
                if j > i and g.kind == "effect" and e.data[1] in g.data[0][2:]:
                    R.bad("plan", "%s|late|%s" % (s.name, y), where, "%s calls %s on the new mesh after it has been copied" % (f.name, y))


def moved(P, R):
    """Every field goes along, each entity with its own values."""
    for nm, how in (("push_tags", lambda a, w: [("call", "exch", ("p", "P"), a, w)]), ("unmap_tags", lambda a, w: [("call", "unmap", ("p", "P"), a, w)])):
        fs = [f for f in P.fns if f.name == nm and f.body and len(f.params) == 4 and FILES.search(f.file)]
        if not fs:
            raise Broken("no function " + nm)
        for f in fs:
            K = DistKern(P, inline=lambda g: bool(FILES.search(g.file)) and g.name not in ("exch", "unmap"), hook=None)
            names = [p["n"] for p in f.params]
            what = [p["t"] for p in f.params]
            plan = next(i for i, t in enumerate(what) if "Dist" in t or "LOs" in t or "Read<" in t)
            dim = next(i for i, t in enumerate(what) if t.replace("const", "").strip().split("::")[-1] in ("int", "Int"))
            a = [("p", n) for n in names]
            a[plan], a[dim] = ("p", "P"), ("p", "D")
            try:
                K.run(f, a)
            except Broken:
                R.count("not seen through")
                continue
            where = "%s:%d" % (f.file, f.line)
            es = [e for e in K.events if e.kind == "effect" and e.data[0][1] == "add_tag"]
            if not es:
                R.count("not seen through")
            for e in es:
                R.count("obligations")
                t = e.data[0]
                bs = [b for b in e.binders if b[1] == ("c", 0) and b[2][:2] == ("call", "ntags") and b[2][3:] == (("p", "D"),)]
                T = ("call", "get_tag", bs[0][2][2], ("p", "D"), bs[0]) if len(bs) == 1 == len(e.binders) else None
                if T is None:
                    R.bad("plan", "%s|every" % nm, where, "%s does not take every field of the dimension" % nm)
                    continue
                w = ("call", "ncomps", T)
                arr = ("call", "array", ("call", "as", T))
                if len(t) < 7 or t[3:6] != (("p", "D"), ("call", "name", T), w):
                    R.bad("plan", "%s|as" % nm, where, "%s does not add the field under its name, dimension and width: %s" % (nm, tshow(t)[:300]))
                elif t[6] not in how(arr, w):
                    R.bad("plan", "%s|values" % nm, where, "%s: values of a field are %s, not those the plan brings" % (nm, tshow(t[6])[:300]))
                for x in e.pc:
                    while x[:1] == ("not",):
                        x = x[1]
                    if x[:2] != ("call", "is") or x[2:3] != (T,):
                        R.bad("plan", "%s|when" % nm, where, "%s leaves out fields depending on %s" % (nm, tshow(x)[:200]))


def holds(P, N, R):
    """What each operation on a plan leaves in it."""
    H = Plans(HELP, N.opaque | {"exch"})
    H.by["exch"] = []
    for l in HOLDS.strip().split("\n"):
        nm, ps, body = [x.strip() for x in re.split(r"\s\|\s", l)]
        fs = [f for f in P.fns if f.name == nm and (f.cls or "").split("::")[-1] == "Dist" and f.body and FILES.search(f.file)]
        if not fs:
            raise Broken("no Dist::" + nm)
        for f in fs:
            R.count("functions analysed")
            ps = ps.split()
            args = [("p", p) for p in ps]
            K, r = N.run(f, args)
            if r[:1] == ("do",):
                r = r[-1]
            E = Eval(H, dict(zip(ps, args)), None)
            C = Canon(K)
            base = r if nm == "invert" else ("this",)
            want = {}
            for x in body.split(" ; "):
                a, v = x.split(" = ", 1)
                want[a] = tidy(E(v))
            for fl in FIELDS:
                for i in (0, 1) if fl != "parent_comm_" else (None,):
                    R.count("obligations")
                    key = fl if i is None else "%s[%d]" % (fl, i)
                    got = K.mem(r, fl) if nm == "invert" else K.load(("this", fl)) or ("mem", fl, ("this",))
                    was = ("mem", fl, ("this",))
                    if i is not None:
                        got, was = K.sel(got, c(i)), ("at", was, c(i))
                    got = tidy(C(got))
                    now = want.get(key, C(was))
                    if got != now and not samechoice(got, now):
                        R.bad("plan", "holds|%s|%s" % (nm, key), "%s:%d" % (f.file, f.line), "after %s, %s is %s, not %s" % (nm, key, sh(got)[:200], sh(now)[:200]))
    # a plan made from destinations
    fs = [f for f in P.fns if f.name == "Dist" and f.body and len(f.params) == 3 and FILES.search(f.file)]
    if not fs:
        raise Broken("no constructor of plans from destinations")
    for f in fs:
        K, r = N.run(f, [("p", "m"), ("p", "r"), ("p", "n")])
        R.count("functions analysed")
        R.count("obligations")
        got = K.env.get(("this",))
        t = ("call", "set_parent_comm", ("this",), ("p", "m"))
        t = ("call", "set_dest_ranks", t, ("mem", "ranks", ("p", "r")))
        t = ("call", "set_dest_idxs", t, ("mem", "idxs", ("p", "r")), ("p", "n"))
        if got != t:
            R.bad("plan", "holds|Dist", "%s:%d" % (f.file, f.line), "a plan made from destinations is %s, not %s" % (tshow(got or ("this",)), tshow(t)))
    for f in [f for f in P.fns if (f.cls or "").split("::")[-1] == "Dist" and f.body and (f.name == "operator=" or f.name == "Dist" and len(f.params) == 1) and FILES.search(f.file)]:
        K, r = N.run(f, [("p", "o")])
        R.count("functions analysed")
        R.count("obligations")
        if not [e for e in K.events if e.kind == "effect" and e.data[0][1] == "copy" and ("p", "o") in e.data[0][2:] and not e.pc]:
            R.bad("plan", "holds|copy|%s" % f.name, "%s:%d" % (f.file, f.line), "%s of a plan does not copy it" % ("assignment" if f.name == "operator=" else "construction"))


class Plans(Spec):
    def apply(self, s, args, lim=None):
        r, fx = super().apply(s, args, lim)
        return ordered(tidy(r)), fx


def check(P):
    R = Result()
    S = Plans(SPECS, OPAQUE)
    names = {s.name for s in S.all if not s.helper} | {"push_tags", "unmap_tags", "linear_partition_size", "globals_to_linear_owners", "copies_to_linear_owners", "invert", "copy"}
    S.opaque = OPAQUE | names
    N = DistNorm(P, S, FILES, S.opaque)
    N.given = GIVEN
    for s in S.all:
        if s.helper:
            continue
        fs = N.find(s)
        if not fs:
            raise Broken("no function %s(%s)" % (s.name, " ".join(s.params)))
        for f in fs:
            R.count("functions analysed")
            for d in DIMS.get(s.name, (None,)):
                N.dim = S.dim = d
                N.compare(R, s, f, "plan")
                if s.ret.startswith("do("):
                    orders(R, s, f, N.run(f, [("p", p["n"]) for p in f.params])[0])
    N.dim = S.dim = None
    holds(P, N, R)
    moved(P, R)
    return R
