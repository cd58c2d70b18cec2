"""P17: array, map, graph and mark combinators compute what their names state."""
import ast
import itertools
from .core import *
from .kern import *
from .kern import Kern, isc, add, mul, lin, unlin
from . import p21
from .p21 import c, at, call, mem, rebuild, subterms, tshow, MESH
from .spec import Spec, Norm, Canon, FILES
from .conc import Conc, Unknown

LEVEL = "other"
RULE = ("Every combinator is reduced to a normal form (size and initial value of the array it returns, and for every store its range, condition, "
        "index and value; loops over ranges as sums, extrema and quantifiers; helpers inlined) and compared with the normal form of its "
        "definition, written here in one line each.")
ASSUMPTIONS = ["std::stable_sort sorts stably by the given order", "arguments satisfy the checks at the head of each combinator"]
TRUSTED = ["omh/kern.py: kernels run serially in index order", "the definitions in omh/p17.py"]

# name, parameters (name:type pattern), result, stores "ranges [if cond] | [target @] index = value"
SPECS = """
# ---- Omega_h_array.cpp
fill            | a val             | void                  | i<size(a) | a @ i = val
fill_linear     | a offset stride   | void                  | i<size(a) | a @ i = offset+stride*i
copy_into       | a b               | void                  | i<size(a) | b @ i = a[i]
deep_copy       | a _               | a
# ---- scans
offset_scan     | a _               | new(size(a)+1)        | k<size(a)+1 | k = sum(a[r] for r in range(0,k))
fill_right      | a                 | void                  | k<size(a) | a @ k = redmax((a[r] for r in range(0,k+1)), EMPTY)
number_same_values | a v out        | out[size(out)-1]      | k<size(a)+1 | out @ k = sum((1 if a[r] == v else 0) for r in range(0,k))
combine_perms   | a v pos perm n    | void                  | | pos @ 0 = 0 ; i<size(a) if a[i] == v | perm @ i = pos[i]+n
# ---- maps
map_into_range  | a_data begin end b_data width | void      | i<end-begin, j<width | b_data @ (i+begin)*width+j = a_data[i*width+j]
add_into        | a_data:Read a2b b_data width | void       | a<size(a2b), j<width | b_data @ a2b[a]*width+j = b_data[a2b[a]*width+j] + a_data[a*width+j]
map_into        | a_data:Read a2b:Read b_data width | void  | a<size(a2b), j<width | b_data @ a2b[a]*width+j = a_data[a*width+j]
map_value_into  | v a2b b_data      | void                  | a<size(a2b) | b_data @ a2b[a] = v
map_onto        | a_data a2b:Read nb v width | new(nb*width, v) | a<size(a2b), j<width | a2b[a]*width+j = a_data[a*width+j]
unmap           | a2b b_data width  | new(size(a2b)*width)  | a<size(a2b), j<width | a*width+j = b_data[a2b[a]*width+j]
unmap_range     | begin end b_data width | new((end-begin)*width) | a<end-begin, j<width | a*width+j = b_data[(a+begin)*width+j]
expand_into     | a_data a2b b_data width | void            | a<size(a2b)-1, a2b[a]<=b<a2b[a+1], j<width | b_data @ b*width+j = a_data[a*width+j]
expand          | a_data a2b width  | new(last(a2b)*width)  | a<size(a2b)-1, a2b[a]<=b<a2b[a+1], j<width | b*width+j = a_data[a*width+j]
permute         | a_data a2b width  | new(size(a2b)*width)  | a<size(a2b), j<width | a2b[a]*width+j = a_data[a*width+j]
multiply_fans   | a2b a2c           | offset_scan(multiply_each(get_degrees(a2b), get_degrees(a2c)))
compound_maps   | a2b b2c           | new(size(a2b))        | a<size(a2b) | a = b2c[a2b[a]]
invert_permutation | a2b            | new(size(a2b))        | a<size(a2b) | a2b[a] = a
invert_marks    | m                 | new(size(m))          | i<size(m) | i = not m[i]
collect_marked  | m                 | new(last(offset_scan(m))) | i<size(m) if m[i] | offset_scan(m)[i] = i
mark_image      | a2b nb            | new(nb, 0)            | a<size(a2b) | a2b[a] = 1
inject_map      | a2b b2a           | void                  | a<size(a2b) | b2a @ a2b[a] = a
invert_injective_map | a2b nb       | new(nb, -1)           | a<size(a2b) | a2b[a] = a
invert_funnel   | ab2a na           | new(na+1, -1)         | | 0 = 0 ; i<max(0,size(ab2a)-1) if ab2a[i] != ab2a[i+1] | ab2a[i]+1 = i+1 ; if size(ab2a) != 0 | ab2a[size(ab2a)-1]+1 = size(ab2a) ; | all = fill_right
get_degrees     | a _               | new(size(a)-1)        | i<size(a)-1 | i = a[i+1]-a[i]
invert_fan      | a2b               | new(last(a2b), -1)    | a<size(a2b)-1 if a2b[a] != a2b[a+1] | a2b[a] = a ; | all = fill_right
mark_fan_preimage | a2b             | new(size(a2b)-1)      | i<size(a2b)-1 | i = (a2b[i] != a2b[i+1])
invert_map_by_sorting | a2b nb      | Graph(invert_funnel(unmap(sort_by_keys(a2b,1), a2b, 1), nb), sort_by_keys(a2b,1))
~fan_min        | a2b b w           | new((size(a2b)-1)*w)  | a<size(a2b)-1, j<w | a*w+j = redmin(b[k*w+j] for k in range(a2b[a],a2b[a+1]))
~fan_max        | a2b b w           | new((size(a2b)-1)*w)  | a<size(a2b)-1, j<w | a*w+j = redmax(b[k*w+j] for k in range(a2b[a],a2b[a+1]))
~fan_sum        | a2b b w           | new((size(a2b)-1)*w)  | a<size(a2b)-1, j<w | a*w+j = sum(b[k*w+j] for k in range(a2b[a],a2b[a+1]))
fan_reduce      | a2b b w op        | fan_min(a2b,b,w) if op == 0 else (fan_max(a2b,b,w) if op == 1 else fan_sum(a2b,b,w))
invert_map_by_atomics | a2b nb _ _  | Graph(S, E) where D = new(nb, 0), S = offset_scan(D), E = new(last(S)) | a<size(a2b) | D @ a2b[a] = D[a2b[a]]+1 ; a<size(a2b) | E @ S[a2b[a]]+sum((1 if a2b[r] == a2b[a] else 0) for r in range(0,a)) = a
# ---- reductions
repro_sum       | a:Read            | fixed(a, max_exponent(a)) if size(a) else 0.0
repro_sum       | comm a            | fixed_all(comm, a, allreduce(comm, max_exponent(a), 1))
~fixed          | a e               | 0.0 if e == leasti else to_double(int128_sum(a, exp2(e-52)), exp2(e-52))
~fixed_all      | comm a e          | 0.0 if e == leasti else to_double(add_int128(comm, int128_sum(a, exp2(e-52))), exp2(e-52))
get_sum         | a:Read            | sum(a[i] for i in range(0,size(a)))
get_min         | a:Read            | redmin(a[i] for i in range(0,size(a)))
get_max         | a:Read            | redmax(a[i] for i in range(0,size(a)))
get_sum         | comm a            | allreduce(comm, get_sum(a), 2)
get_min         | comm a            | allreduce(comm, get_min(a), 0)
get_max         | comm a            | allreduce(comm, get_max(a), 1)
get_minmax      | comm a            | list(get_min(comm,a), get_max(comm,a))
operator==      | a:Read b          | all(a[i] == b[i] for i in range(0,size(a)))
are_close_abs   | a b tol           | all(abs(a[i]-b[i]) <= tol for i in range(0,size(a)))
are_close       | a:Read b tol floor | all((0.0 if abs(a[i]) <= floor and abs(b[i]) <= floor else abs(b[i]-a[i])/max(abs(a[i]),abs(b[i]))) <= tol for i in range(0,size(a)))
find_last       | a v               | redmax(((i if a[i] == v else -1) for i in range(0,size(a))), -1)
is_sorted       | a                 | True if size(a) < 2 else all(a[i] <= a[i+1] for i in range(0,size(a)-1))
max_exponent    | a                 | redmax(((leasti if a[i] == 0.0 else out(1, frexp(a[i], undef))) for i in range(0,size(a))), leasti)
int128_sum      | a unit            | sum(from_double(a[i],unit) for i in range(0,size(a)))
next_smallest_value | a v           | redmin((a[i] if v < a[i] else greatest) for i in range(0,size(a)))
# ---- elementwise
multiply_each   | a b _             | new(size(a))          | i<size(b), j<ratio(size(a),size(b)) | i*ratio(size(a),size(b))+j = a[i*ratio(size(a),size(b))+j]*b[i]
multiply_each_by | a b              | new(size(a))          | i<size(a) | i = a[i]*b
divide_each     | a b _             | new(size(a))          | i<size(b), j<ratio(size(a),size(b)) | i*ratio(size(a),size(b))+j = a[i*ratio(size(a),size(b))+j]/b[i]
divide_each_maybe_zero | a b        | a if size(b) == 0 else new(size(a)) | i<size(b), j<ratio(size(a),size(b)) | i*ratio(size(a),size(b))+j = 0.0 if b[i] == 0.0 else a[i*ratio(size(a),size(b))+j]/b[i]
pow_each        | a b               | new(size(a))          | i<size(a) | i = pow(a[i],b[i])
divide_each_by  | a b               | new(size(a))          | i<size(a) | i = a[i]/b
add_each        | a b _             | new(size(a))          | i<size(a) | i = a[i]+b[i]
subtract_each   | a b               | new(size(a))          | i<size(a) | i = a[i]-b[i]
add_to_each     | a b               | new(size(a))          | i<size(a) | i = a[i]+b
subtract_from_each | a b            | new(size(a))          | i<size(a) | i = a[i]-b
each_geq_to     | a b               | new(size(a))          | i<size(a) | i = (a[i] >= b)
each_leq_to     | a b               | new(size(a))          | i<size(a) | i = (a[i] <= b)
each_gt         | a b               | new(size(a))          | i<size(a) | i = (a[i] > b)
each_lt         | a b               | new(size(a))          | i<size(a) | i = (a[i] < b)
each_eq_to      | a b               | new(size(a))          | i<size(a) | i = (a[i] == b)
each_neq_to     | a b               | new(size(a))          | i<size(a) | i = (a[i] != b)
gt_each         | a b               | new(size(a))          | i<size(a) | i = (a[i] > b[i])
lt_each         | a b               | new(size(a))          | i<size(a) | i = (a[i] < b[i])
eq_each         | a b               | new(size(a))          | i<size(a) | i = (a[i] == b[i])
each_eq         | a b               | new(size(a))          | i<size(a) | i = (a[i] == b[i])
neq_each        | a b               | new(size(a))          | i<size(a) | i = (a[i] != b[i])
min_each        | a b               | new(size(a))          | i<size(a) | i = min(a[i],b[i])
max_each        | a b               | new(size(a))          | i<size(a) | i = max(a[i],b[i])
each_max_with   | a b               | new(size(a))          | i<size(a) | i = max(a[i],b)
ternary_each    | k a b             | new(size(a))          | i<size(a) | i = a[i] if k[i//ratio(size(a),size(k))] else b[i]
land_each       | a b               | new(size(a))          | i<size(a) | i = a[i] and b[i]
lor_each        | a b               | new(size(a))          | i<size(a) | i = a[i] or b[i]
bit_or_each     | a b               | new(size(a))          | i<size(a) | i = a[i] | b[i]
bit_neg_each    | a                 | new(size(a))          | i<size(a) | i = ~a[i]
fabs_each       | a                 | new(size(a))          | i<size(a) | i = abs(a[i])
invert_each     | a                 | new(size(a))          | i<size(a) | i = 1.0/a[i]
interpolate_between | a b t         | new(size(a))          | i<size(a) | i = a[i]*(1.0-t) + b[i]*t
array_cast      | a                 | new(size(a))          | i<size(a) | i = a[i]
get_component   | a n k             | new(ratio(size(a),n)) | i<ratio(size(a),n) | i = a[i*n+k]
set_component   | out a n k         | void                  | i<size(a) | out @ i*n+k = a[i]
interleave      | v                 | none(v) if empty(v) else new(size(v)*size(front(v))) | k<size(v), j<size(front(v)) | j*size(v)+k = v[k][j]
coalesce        | v                 | none(v) if empty(v) else new(sum(size(v[r]) for r in range(0,size(v)))) | k<size(v), j<size(v[k]) | sum(size(v[r]) for r in range(0,k))+j = v[k][j]
# ---- graphs
nnodes          | this.Graph        | size(this().a2ab)-1
nedges          | this.Graph        | size(this().ab2b)
add_edges       | g h               | Graph(offset_scan(add_each(get_degrees(g.a2ab),get_degrees(h.a2ab))), E) where E = new(last(offset_scan(add_each(get_degrees(g.a2ab),get_degrees(h.a2ab))))) | i<size(g.a2ab)-1, g.a2ab[i]<=k<g.a2ab[i+1] | offset_scan(add_each(get_degrees(g.a2ab),get_degrees(h.a2ab)))[i]+k-g.a2ab[i] = g.ab2b[k] ; i<size(g.a2ab)-1, h.a2ab[i]<=k<h.a2ab[i+1] | offset_scan(add_each(get_degrees(g.a2ab),get_degrees(h.a2ab)))[i]+g.a2ab[i+1]-g.a2ab[i]+k-h.a2ab[i] = h.ab2b[k]
unmap_graph     | a2b g             | Graph(S, E) where S = offset_scan(unmap(a2b,get_degrees(g.a2ab),1)), E = new(last(S)) | a<size(a2b), S[a]<=k<S[a+1] | k = g.ab2b[g.a2ab[a2b[a]]+k-S[a]]
identity_graph  | n                 | Graph(linear(n+1,0,1), linear(n,0,1))
add_self_edges  | g                 | add_edges(identity_graph(size(g.a2ab)-1), g)
operator==      | a:Graph b         | a.a2ab == b.a2ab and a.ab2b == b.ab2b
graph_weighted_average_arc_data | g w d width | divide_each(fan_reduce(g.a2ab, multiply_each(d,w), width, 2), fan_reduce(g.a2ab,w,1,2))
graph_weighted_average | g w d width | graph_weighted_average_arc_data(g, w, unmap(g.ab2b, d, width), width)
graph_reduce    | g d width op      | fan_reduce(g.a2ab, unmap(g.ab2b, d, width), width, op)
filter_graph_edges | g k            | Graph(offset_scan(fan_reduce(g.a2ab,k,1,2)), unmap(collect_marked(k), g.ab2b, 1))
map_into        | a_data g:Graph b_data width | void        | b<size(g.ab2b), j<width | b_data @ g.ab2b[b]*width+j = expand(a_data,g.a2ab,width)[b*width+j]
map_onto        | a_data g:Graph nb v width | new(nb*width, v) | b<size(g.ab2b), j<width | g.ab2b[b]*width+j = expand(a_data,g.a2ab,width)[b*width+j]
~degree_in      | g k               | new(size(g.a2ab)-1)   | i<size(g.a2ab)-1 | i = sum((1 if k[g.ab2b[e]] else 0) for e in range(g.a2ab[i],g.a2ab[i+1]))
filter_graph_nodes | g k            | Graph(S, E) where K = collect_marked(k), S = offset_scan(unmap(K, degree_in(g,k), 1)), E = new(last(S)) | n<size(K), g.a2ab[K[n]]<=e<g.a2ab[K[n]+1] if k[g.ab2b[e]] | S[n]+sum((1 if k[g.ab2b[r]] else 0) for r in range(g.a2ab[K[n]],e)) = invert_injective_map(K,size(g.a2ab)-1)[g.ab2b[e]]
# ---- marks
mark_dual_layers | mesh m n         | after(n, m, x, sync_array(mesh, dim(mesh), graph_reduce(ask_dual(mesh), x, 1, 1), 1))



mark_exposed_sides | mesh           | new(nents(mesh,dim(mesh)-1)) | s<nents(mesh,dim(mesh)-1) | s = (ask_up(mesh,dim(mesh)-1,dim(mesh)).a2ab[s+1] - ask_up(mesh,dim(mesh)-1,dim(mesh)).a2ab[s] < 2)
mark_down       | g m               | new(size(g.a2ab)-1)   | l<size(g.a2ab)-1 | l = any(m[g.ab2b[k]] for k in range(g.a2ab[l],g.a2ab[l+1]))
mark_down       | mesh hi lo m      | m if hi == lo else sync_array(mesh, lo, D if owners_have_all_upward(mesh,lo) else reduce_array(mesh,lo,D,1,1), 1) where D = mark_down(ask_up(mesh,lo,hi),m)
mark_up         | mesh lo hi m      | new(nents(mesh,hi))   | h<nents(mesh,hi) | h = any(m[ask_down(mesh,hi,lo).ab2b[h*element_degree(family(mesh),hi,lo)+k]] for k in range(0,element_degree(family(mesh),hi,lo)))
mark_up_all     | mesh lo hi m      | new(nents(mesh,hi))   | h<nents(mesh,hi) | h = all(m[ask_down(mesh,hi,lo).ab2b[h*element_degree(family(mesh),hi,lo)+k]] for k in range(0,element_degree(family(mesh),hi,lo)))
mark_adj        | mesh f t m        | m if f == t else (mark_up(mesh,f,t,m) if f < t else mark_down(mesh,f,t,m))
mark_by_class_dim | mesh d k        | each_eq_to(get_array(mesh,d,'class_dim'), k)
mark_by_class   | mesh d k id       | land_each(each_eq_to(get_array(mesh,d,'class_id'), id), mark_by_class_dim(mesh,d,k))
get_eq_marks    | mesh k ids        | new(nents(mesh,k))    | i<nents(mesh,k) | i = get_array(mesh,k,'class_dim')[i] == k and binary_search(ids, get_array(mesh,k,'class_id')[i], size(ids)) != -1
mark_class_closures | mesh d k ids  | mark_down(mesh, k, d, get_eq_marks(mesh,k,ids))
mark_class_closures | mesh k ids g:Graph | mark_down(g, get_eq_marks(mesh,k,ids))
mark_class_closures | mesh d v:ClassPair | through(k, d, dim(mesh)+1, new(nents(mesh,d),0), x, x if empty(get_dim_class_ids(k,v)) else lor_each(x, mark_class_closures(mesh, d, k, get_dim_class_ids(k,v))))
mark_class_closures | mesh v:ClassPair gs | through(k, 0, dim(mesh)+1, new(size(gs[dim(mesh)].a2ab)-1,0), x, x if empty(get_dim_class_ids(k,v)) else lor_each(x, mark_class_closures(mesh, k, get_dim_class_ids(k,v), gs[k])))
mark_class_closure | mesh d k id    | M if d == k else mark_down(mesh,k,d,M) where M = mark_by_class(mesh,k,k,id)
count_owned_marks | mesh d m        | get_sum(comm(mesh), land_each(m, owned(mesh,d)) if could_be_shared(mesh,d) else m)
mark_sliver_layers | mesh q n       | mark_dual_layers(mesh, each_lt(ask_qualities(mesh), q), n)
"""

# what callers see to: array of offsets, size of an array, value of a number, range of a number
PRE = """
multiply_fans: off a2b, off a2c, size a2c = size(a2b)
expand_into: off a2b, size a_data = (size(a2b)-1)*width
expand: off a2b, size a_data = (size(a2b)-1)*width
map_into: size a_data = size(a2b)*width
add_into: size a_data = size(a2b)*width
map_onto: size a_data = size(a2b)*width
permute: size a_data = size(a2b)*width
invert_fan: off a2b
mark_fan_preimage: off a2b
fan_reduce: off a2b, size b = last(a2b)*w, below op 3
invert_funnel: off ab2a, num na = ab2a[size(ab2a)-1]+2 if size(ab2a) else 2
invert_map_by_sorting: num nb = redmax((a2b[r] for r in range(0,size(a2b))), 0)+2
filter_graph_edges: size k = size(g.ab2b)
filter_graph_nodes: size k = size(g.a2ab)-1
graph_weighted_average_arc_data: size w = last(g.a2ab), size d = last(g.a2ab)*width
graph_weighted_average: size w = last(g.a2ab)
graph_reduce: below op 3
set_component: size out = size(a)*n
"""


def pre(text):
    out = {}
    for l in text.strip().split("\n"):
        n, r = l.split(": ", 1)
        for x in re.split(r", (?=off |size |below |num )", r):
            w = x.split(" ", 2)
            out.setdefault(n, []).append((w[0], w[1], w[2].lstrip("= ") if len(w) > 2 else ""))
    return out


def keysets(P, R):
    """Sorting by sets of keys is lexicographic, and stable from the identity."""
    for f in P.fns:
        m = re.search(r"(\w+)<.*, (\d+)>::operator\(\)$", f.q)
        if m and f.body and f.file.endswith("sort.cpp") and len(f.params) == 2:
            w = int(m.group(2))
            r = Kern(P, inline=lambda g: True).run(f, [c(0), c(1)])
            arrs = {t[1] for t in subterms(r) if t[:1] == ("at",)}
            R.count("functions analysed")
            bad = None
            for x in itertools.product((0, 1), repeat=2 * w):
                try:
                    v = Conc(reads={a: x.__getitem__ for a in arrs})(r)
                except (Unknown, IndexError):
                    bad = "reads keys outside the two sets"
                    break
                R.count("obligations")
                if bool(v) != (x[:w] < x[w:]):
                    bad = "orders %s and %s wrongly" % (x[:w], x[w:])
                    break
            if bad:
                R.bad("combinator", "keysets|%d" % w, "%s:%d" % (f.file, f.line), "comparison of sets of %d keys %s" % (w, bad))
    for f in P.fns:
        if f.name == "sort_by_keys_tmpl" and f.body:
            m = re.search(r"<(\d+)", f.q) or re.search(r"CompareKeySets<[^>]*?(\d+)>", repr(f.body))
            K = Kern(P, inline=lambda g: g.name == "parallel_sort", hook=Norm(P, Spec("")).hook)
            r = K.run(f, [("p", "keys")])
            C = Canon(K)
            st = [e for e in K.events if e.kind == "call" and e.data[0] == "stable_sort"]
            w = None
            ok = len(st) == 1 and not st[0].pc
            if ok:
                t = st[0].data[1]
                b, e, cmp = t[2:5]
                m = re.search(r", (\d+)>", cmp[1]) if cmp[0] == "new" else None
                w = int(m.group(1)) if m else None
                n = ("call", "divide_no_remainder", ("call", "size", ("p", "keys")), c(w or 0))
                ok = b[:1] == ("ptr",) and e[:1] == ("ptr",) and b[1] == e[1] == r and b[2] == c(0) and C(e[2]) == n and w
                ok = ok and C(r)[0] == "A" and C(r) == Canon().filled(None, [n, c(0), c(1)], frozenset())
                ok = ok and ("ptr", ("p", "keys"), c(0)) in subterms(cmp)
            R.count("functions analysed")
            R.count("obligations")
            if not ok:
                R.bad("combinator", "sort_by_keys|%s" % f.q.split("::")[-1], "%s:%d" % (f.file, f.line), "sort_by_keys does not sort the numbers 0..n-1 by the keys")
    for f in P.fns:
        if f.name == "sort_by_keys" and f.body and len(f.params) == 2:
            for w in (1, 2, 3, 4):
                K = Kern(P, inline=lambda g: g.name in ("sort_by_keys_tmpl", "parallel_sort"), hook=Norm(P, Spec("")).hook)
                K.run(f, [("p", "keys"), c(w)])
                st = [e.data[1][4] for e in K.events if e.kind == "call" and e.data[0] == "stable_sort"]
                R.count("obligations")
                if len(st) != 1 or not re.search(r", %d>" % w, st[0][1]):
                    R.bad("combinator", "sort_by_keys|width %d" % w, "%s:%d" % (f.file, f.line), "sort_by_keys of width %d does not compare %d keys" % (w, w))


def ids(P, R):
    """The ids of one dimension are those of the pairs of that dimension."""
    for f in P.fns:
        if f.name == "get_dim_class_ids" and f.body and len(f.params) == 2:
            K = Kern(P, inline=lambda g: g.file.endswith("Omega_h_mark.cpp"), hook=Norm(P, Spec("")).hook)
            K.run(f, [("p", "k"), ("p", "v")])
            ps = [e for e in K.events if e.kind == "call" and e.data[0] in ("push_back", "emplace_back")]
            R.count("functions analysed")
            if len(ps) != 1:
                R.count("not decided")
                continue
            e = ps[0]
            R.count("obligations")
            b = e.binders[-1] if e.binders else None
            x = at(("p", "v"), b)
            ok = b is not None and b[1:3] == (c(0), ("call", "size", ("p", "v"))) and conj(*e.pc) in (("==", mem("dim", x), ("p", "k")), ("==", ("p", "k"), mem("dim", x)))
            if not ok or e.data[1][-1] != mem("id", x):
                R.bad("combinator", "get_dim_class_ids", "%s:%d" % (f.file, f.line), "the ids collected are not those of the pairs of the dimension")
        if f.name == "get_eq_marks" and f.body:
            K = Kern(P, inline=lambda g: g.file.endswith("Omega_h_mark.cpp"), hook=Norm(P, Spec("")).hook)
            K.run(f, [("p", p["n"]) for p in f.params])
            R.count("obligations")
            srt = [i for i, e in enumerate(K.events) if e.kind == "call" and e.data[0] in ("sort", "stable_sort") and not e.pc]
            use = [i for i, e in enumerate(K.events) if e.kind == "store"]
            if not srt or use and srt[0] > use[0]:
                R.bad("combinator", "get_eq_marks|order", "%s:%d" % (f.file, f.line), "the ids are searched by bisection without having been sorted")


def check(P):
    R = Result()
    S = Spec(SPECS)
    N = Norm(P, S)
    N.pre = pre(PRE)
    for s in S.all:
        if s.helper:
            continue
        fs = N.find(s)
        if not fs:
            raise Broken("no function %s(%s)" % (s.name, " ".join(s.params)))
        for f in fs:
            R.count("functions analysed")
            N.compare(R, s, f)
    keysets(P, R)
    ids(P, R)
    return R
