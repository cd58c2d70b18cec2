prop("P01", "Collective steps are joined by every process or by none",
     "In a parallel run every process performs the same sequence of collective communication steps: whether a collective is reached, and how often, never depends on data that may differ between processes (rank, local entity counts, local array contents, the local outcome of a scan of local data) unless that data was first made equal everywhere by a reduction, broadcast or other collective. Hence no operation on a distributed mesh can leave one process waiting in a collective that another never enters.",
     ["programs", "schedules", "inputs"], "every call path from a public operation to a collective, for all meshes, partitions and process counts",
     "The stable tests run on one process or on two to four with a handful of meshes; a divergent branch needs a partition on which the local data differ, and shows as a hang, not as a failed assertion.",
     ["src/Omega_h_comm.cpp", "src/Omega_h_dist.cpp", "src/Omega_h_mesh.cpp", "src/Omega_h_adapt.cpp", "src/Omega_h_migrate.cpp", "src/Omega_h_ghost.cpp", "src/Omega_h_balance.cpp"],
     [("collective wrappers", "src/Omega_h_comm.cpp"), ("reduce before branching", "get_max/get_sum/reduce_or on comm()")],
     "interprocedural taint analysis of control dependence (process-local data guarding collectives)", "other",
     "Flow- and context-sensitive over every compiled function; scalars only; trusts the lists of collective operations, uniform results and the two named exceptions in omh/p01.py.",
     observe=["a process blocked in an MPI collective"])

prop("P04", "Fields of all four element types are treated alike",
     "A mesh field holds 8-, 32- or 64-bit integers or reals. Every operation that looks at a field's element type at run time (synchronising, reducing, migrating, broadcasting, transferring during adaptation, writing and reading files) handles all four types and does the same thing with each: same entities, same number of components, same name, same array. The type codes, file type names and message data types used for a type identify that type, at the writing and at the reading end.",
     ["inputs", "programs"], "every run-time dispatch on element type, all four types",
     "Tests attach mostly real and a few 32-bit fields; the 8-bit and 64-bit arms of most dispatches are never executed.",
     ["src/Omega_h_mesh.cpp", "src/Omega_h_transfer.cpp", "src/Omega_h_migrate.cpp", "src/Omega_h_bcast.cpp", "src/Omega_h_file.cpp", "src/Omega_h_vtk.cpp", "src/Omega_h_amr_transfer.cpp", "src/Omega_h_unmap_mesh.cpp", "src/Omega_h_tag.cpp", "src/Omega_h_comm.hpp"],
     [("switch over the type code / is<T> chains", "sync_tag, reduce_tag, push_tags, transfer_*, read_tag, write_tag"), ("trait tables", "TagTraits, MpiTraits, vtk::Traits, mpi_op")],
     "specialisation of each dispatching function to each type and structural comparison of the resulting effect trees", "other",
     "Exact up to the effect abstraction of omh/peval.py (calls, stores, loops, undecided branches); an error made identically in all four arms is outside the rule.")

prop("P05", "Files in .osh format are read exactly as they were written",
     "What the .osh writer puts in the stream of each process, the reader takes out in the same order with the same widths, counts, loops and conditions, for every element type, dimension, compression setting and either byte order: dimension, family, partition mode, ghost layers, bisection hints, adjacencies with their codes, all tags of all dimensions, owners, classification sets and parents each come back as what they were, on the entities they were on. Every multi-byte value is stored little-endian on every machine, array contents included. Files of every earlier format version (1 to 9) are still read with the layout they were written with, and the file names inside the directory agree on both sides.",
     ["inputs", "histories", "environments"], "all meshes, tag types, versions, compressed or not, little- or big-endian machine",
     "Tests write and read back a few meshes on one little-endian machine with the newest version; nothing reads an old file or a foreign byte order, and compensating errors in writer and reader go unseen.",
     ["src/Omega_h_file.cpp", "src/Omega_h_file.hpp"],
     [("stream writer", "binary::write(std::ostream&, Mesh*), write_meta, write_tag, write_array"), ("stream reader", "binary::read(std::istream&, Mesh*, I32), read_meta, read_tag, read_array"), ("version gates", "if (version >= n)"), ("byte order", "needs_swapping, swap_bytes, SwapBytes")],
     "partial evaluation of writer and reader to a token-level stream layout, compared with each other and with the recorded layout of each published version", "other",
     "Exact token comparison for the compiled configuration (zlib on) for both compression settings of the reader; trusts zlib, the stream classes and the recorded layouts in witness/osh_layouts.json.")

prop("P06", "Entity arrays are matched and indexed by the set they are over",
     "Every array in the library is over one set of things: the entities of one dimension of one mesh (in one parting), the entities marked by some criterion, the cavities of an operator, the entries of an adjacency, the copies in a communication plan. Arrays are combined entry by entry only when they are over the same set; an array is only indexed by members of its own set; maps are composed only end to start; counts size arrays of the set they count; a field, owner list or connectivity is put on a mesh, or given to a function expecting one, only for the mesh and dimension it is over. In particular entities of the old and the new mesh, of two dimensions, of all and of selected entities, or of a mesh before and after it is redistributed or rebuilt are never confused, for any mesh, dimension and partition.",
     ["programs", "inputs"], "every call of a map, graph, mark or communication primitive, every kernel and every subscript of compiled code, for all meshes",
     "The type system sees only arrays of integers. Index confusions are invisible whenever the two sets happen to be numbered alike (one cavity, one process, all entities selected), as in most tests.",
     ["src/Omega_h_modify.cpp", "src/Omega_h_transfer.cpp", "src/Omega_h_refine_topology.cpp", "src/Omega_h_coarsen.cpp", "src/Omega_h_swap2d.cpp", "src/Omega_h_swap3d.cpp", "src/Omega_h_migrate.cpp", "src/Omega_h_map.cpp", "src/Omega_h_graph.cpp", "src/Omega_h_adj.cpp", "src/Omega_h_mark.cpp", "src/Omega_h_conserve.cpp"],
     [("map and graph primitives", "unmap, map_into, map_onto, expand, compound_maps, invert_map_by_*, fan_reduce"), ("naming convention a2b", "keys2edges, prods2new_ents, same_ents2old_ents, a2ab/ab2b"), ("kernels", "parallel_for over nents(d), subscripts")],
     "index-set type inference (unification with definite sets, one summary per function, instantiated per call)", "other",
     "Reports only conflicts between two definite sets; multiplicities (width times index) are P02's; trusts the declared signatures of primitives whose bodies are not inferable.")

prop("P10", "Local topology tables describe the reference elements",
     "For simplices and hypercubes of dimension 1 to 3, the tables giving the vertices of each lower-dimensional sub-entity, the sub-entities above a sub-entity, the opposite sub-entity of a simplex, the numbers of sub-entities, and the corner and interior children of a uniformly split line, quadrilateral or hexahedron agree with reference geometry: each entry exists, none repeats, sides are consistently outward oriented, upward entries invert downward ones including the local direction, and opposites are complementary.",
     ["inputs"], "every argument of every table function: family, dimensions, sub-entity, vertex",
     "Tests look at a handful of entries; a wrong entry for one edge or child shows only on meshes using that entry, as wrong adjacency or inverted elements.",
     ["src/Omega_h_simplex.hpp", "src/Omega_h_hypercube.hpp", "src/Omega_h_element.hpp", "src/Omega_h_refine_topology.hpp"],
     [("constexpr-able table functions", "simplex_down_template, simplex_up_template, simplex_opposite_template, hypercube_*_template, hypercube_split_template")],
     "compile-fail witnesses: one static_assert per table entry against reference geometry", "proof",
     "Complete over the finite domain of each table; trusts g++'s constant evaluation and the reference geometry in witness/p10.hpp.")

prop("P11", "Alignment codes form one consistent permutation algebra",
     "The code stored with each downward adjacency says how the lower entity's vertex order relates to the order the higher entity uses. For entities of two, three and four vertices, packing and unpacking a code, applying it to vertex lists, vertex indices and edge indices, inverting it, composing two codes, and recognising the code from two vertex lists are mutually consistent and describe the same permutation. Likewise a refinement code and an edge-collapse code give back exactly the parts they were made from.",
     ["inputs"], "every code value, vertex count and index; every pair of codes for composition",
     "Tests check a few codes; the remaining flip/rotation combinations occur only on particular tetrahedra and partitions.",
     ["src/Omega_h_align.hpp", "src/Omega_h_adj.cpp", "src/Omega_h_amr.hpp", "src/Omega_h_collapse.hpp"],
     [("bit fields", "make_code, code_is_flipped, code_rotation, code_which_down"), ("application", "align_vert_index, align_edge_index, align_adj, compound_alignments, invert_alignment"), ("recognition", "IsMatch, IsFlipped")],
     "compile-fail witnesses: one static_assert per code and index", "proof",
     "Complete over all codes; trusts g++'s constant evaluation and the permutation algebra in witness/p11.hpp.")

prop("P12", "Edge-swap tables list every triangulation of the edge's polygon",
     "Swapping an edge of a tetrahedral mesh replaces it by one of the listed triangulations of the polygon around it. For polygons of 3 to 7 sides, the listed triangles run in the polygon's direction and are each listed once; every listed configuration tiles the polygon without overlap, no configuration is missing or repeated, and its interior edges are exactly the diagonals its triangles share.",
     ["inputs"], "every triangle, configuration and interior edge of every polygon size",
     "Which configuration is used depends on element quality; tests exercise a few of the 42 configurations of the seven-sided polygon.",
     ["src/Omega_h_swap3d_tables.hpp"],
     [("hard-coded tables", "swap3d tables: triangles, meshes, unique edges")],
     "compile-fail witnesses: one static_assert per table entry", "proof",
     "Complete over the tables; trusts g++'s constant evaluation and the combinatorics in witness/p12.hpp.")

prop("P17", "Array, map, graph and mark combinators compute what their names say",
     "Everything the library does is put together from a few dozen combinators, and each gives exactly the array its name states, for every input, empty arrays included: elementwise arithmetic and comparisons; sums, extrema, bit-reproducible sums and tests over whole arrays and over all ranks; prefix sums, degrees and offsets; gathering, scattering and expanding data of any width through maps, fans and graphs; inverting permutations, injections, fans and maps; reducing over the edges of a graph; adding, mapping and filtering graphs; concatenating arrays and interleaving components; and marking entities by their classification or by the marks of adjacent entities, above, below or in layers. Each value lands at its stated index, no other entry is written, and the result has the stated length.",
     ["inputs"], "every array length, map, offset array, width and value; every instantiated element type",
     "Tests run a few combinators on arrays of three or four entries of one component; the others are reached only through meshes whose numbering hides an offset or a width.",
     ["src/Omega_h_array_ops.cpp", "src/Omega_h_map.cpp", "src/Omega_h_graph.cpp", "src/Omega_h_mark.cpp", "src/Omega_h_int_scan.cpp", "src/Omega_h_scan.hpp", "src/Omega_h_reduce.hpp", "src/Omega_h_array.cpp", "src/Omega_h_sort.cpp"],
     [("maps", "map_into, map_onto, unmap, expand, permute, invert_map_by_sorting, invert_fan, fan_reduce"), ("arrays", "multiply_each, divide_each, get_sum, repro_sum, coalesce, interleave, find_last, ..."), ("graphs and marks", "add_edges, unmap_graph, filter_graph_nodes, mark_down, mark_up, mark_dual_layers, mark_class_closure")],
     "functional normal forms of each combinator's kernels, helpers inlined, compared with the normal form of its one-line definition", "other",
     "No bounds: lengths, widths and loops are symbolic. Float addition is taken as exact addition; std::stable_sort, atomic counters and reductions over ranks are trusted; sort_small_range, get_eq_marks and the multi-class closures are not decided.")

prop("P18", "Derived adjacencies and alignment codes describe the mesh",
     "Every adjacency and code the library derives describes the mesh it was derived from. Inverting a downward adjacency lists, for each entity, exactly the uses of it, in increasing order of the using entity, each with the code (flip, rotation, which-down) of that use. Composing two downward adjacencies gives each entity's lower entities in template order, for every combination of face codes. Entities derived from vertex lists are each distinct vertex set once, and finding matches gives each list the entity with the same vertices and the code under which the template order maps onto it, however the vertices are ordered. Stars hold exactly the neighbours across the given entities (vertices across edges, edges across triangles and, in tetrahedra, the opposite edge, elements across unexposed sides), for every entity; unmapping an adjacency keeps each entry with its code. The mesh answers each ask_down, ask_up, ask_star, ask_dual and ask_verts_of with that adjacency. AMR parent and child lists are inverses of each other.",
     ["inputs"], "every mesh of simplices or hypercubes (edge stars: simplices), every vertex order, every code, every pair of dimensions",
     "Tests look at one or two elements with a fixed vertex order, so most codes never occur; a wrong rotation or which-down shows only for particular relative orders of neighbouring elements.",
     ["src/Omega_h_adj.cpp", "src/Omega_h_align.cpp", "src/Omega_h_align.hpp", "src/Omega_h_mesh.cpp"],
     [("derivations", "invert_adj, transit, reflect_down, find_unique, form_uses, find_matches, *_across_*, unmap_adjacency"), ("codes", "align_ev2v, get_codes_to_canonical, make_code, code_rotation"), ("mesh queries", "Mesh::derive_adj, Mesh::ask_adj, ask_*")],
     "functional normal forms of each derivation compared with its definition; exhaustive evaluation of the normal forms over all codes, vertex orders and template entries", "other",
     "Sizes and numbers of entities are symbolic. Element templates (P10) and array combinators (P17) are assumed. sort_by_high_index is decided when it sorts by selecting minima.")

prop("P20", "Adaptation carries every field that has a transfer rule",
     "Refinement, coarsening, swapping and hierarchical (AMR) refinement rebuild the mesh dimension by dimension. On every path, each field with a transfer rule (coordinates, classification, metric, length, quality, size, face flux, and fields the user marked for inheritance, interpolation, conservation, density, momentum or pointwise transfer) is put on the new mesh exactly once for each dimension it lives on, under its own name, type and number of components; entities that survive keep their value, taken through the map that belongs to that dimension; new entities get their value from the source the rule names. A user's transfer object is called once per dimension, and the new mesh replaces the old one when all dimensions are done.",
     ["inputs", "histories"], "every adaptation operation, mesh dimension 1 to 3, entity dimension, and kind of field",
     "Tests adapt a few meshes with mostly real fields on one operation each; a field dropped by one operation, in one dimension, or for one element type shows only when that combination is used.",
     ["src/Omega_h_transfer.cpp", "src/Omega_h_conserve.cpp", "src/Omega_h_amr_transfer.cpp", "src/Omega_h_refine.cpp", "src/Omega_h_coarsen.cpp", "src/Omega_h_swap2d.cpp", "src/Omega_h_swap3d.cpp", "src/Omega_h_amr.cpp"],
     [("per-field transfer", "transfer_refine, transfer_coarsen, transfer_swap, transfer_copy, amr::transfer_*"), ("drivers", "refine_element_based, coarsen_element_based2, swap2d_element_based, swap3d_element_based, amr::refine_elem_based"), ("entity maps", "modify_ents_adapt, modify_ents_amr")],
     "partial evaluation of transfer and driver functions for each operation, dimension and field kind; counting and provenance of the fields put on the new mesh", "other",
     "Decides presence, identity, size and provenance of transferred fields and the wiring of maps; the arithmetic of the averaging, measuring and projecting kernels is not judged.")

prop("P21", "Adaptation changes only what passed every one of its criteria",
     "Refinement, coarsening and edge swapping modify an entity only if it met every criterion of the operation. Refinement splits only edges longer than the desired maximum and all of whose halves reach the minimum allowed quality. Coarsening collapses a vertex onto another only along an edge of the vertex's own classification dimension (so no boundary vertex leaves its model entity, and no new element would expose a side that was not on the boundary), if no edge of the moved elements becomes longer than the limit (desired for size, allowed for slivers), if no boundary side flips when that is to be prevented, if all moved elements reach the minimum allowed quality, and, for slivers, if the worst quality of the cavity rises; of the edges along which a vertex may collapse the shortest (then best) is followed. Swapping touches only interior edges near slivers, and only if the worst new quality exceeds the worst old one, with (in 3D) the very loop and triangulation that was judged and no edge beyond the allowed length. Of all candidates that share elements, the one of best quality (ties by global number) is modified, never two, and the verdicts used for copies of an entity are those of its owner.",
     ["inputs", "schedules"], "refine_by_size, coarsen_by_size, coarsen_slivers, swap_edges_2d and swap_edges_3d in every dimension, every criterion kernel, all meshes and fields",
     "Tests adapt a few meshes to good metrics, where a criterion that is skipped, evaluated for the wrong end of an edge, or filtered out of step with its list rarely matters and only degrades quality.",
     ["src/Omega_h_refine.cpp", "src/Omega_h_coarsen.cpp", "src/Omega_h_check_collapse.cpp", "src/Omega_h_collapse_rail.cpp", "src/Omega_h_coarsen_overshoot.cpp", "src/Omega_h_coarsen_flip.cpp", "src/Omega_h_refine_qualities.cpp", "src/Omega_h_coarsen_qualities.cpp", "src/Omega_h_swap2d.cpp", "src/Omega_h_swap2d_qualities.cpp", "src/Omega_h_swap3d_qualities.cpp", "src/Omega_h_swap3d_choice.hpp", "src/Omega_h_indset.cpp", "src/Omega_h_indset_inline.hpp", "src/Omega_h_refine_qualities.hpp"],
     [("criteria", "check_collapse_class, check_collapse_exposure, prevent_coarsen_overshoot, prevent_coarsen_flip, coarsen_qualities, refine_qualities, swap2d_qualities, swap3d_qualities, filter_*"), ("selection", "choose_rails, find_rails, find_indset"), ("drivers", "refine_by_size, coarsen_by_size, coarsen_slivers, swap_edges_2d, swap_edges_3d")],
     "functional normal forms of the criterion kernels compared with their meaning; symbolic execution of the drivers with facts about marks and lists", "other",
     "All loops are folds or quantifiers, no bounds; dispatch and drivers are run per dimension. Array combinators and measures are assumed (P14 decides the latter).")

prop("P22", "Adaptation builds exactly the cavity it judged",
     "The entities an operation creates fill the cavity it empties. A split edge becomes two edges, and every entity around it two halves (the moved end replaced by the midpoint, all else and the orientation kept) with one entity between them. A swap in 2D makes two triangles with the boundary of the old two and the edge between the opposite vertices; in 3D the vertices around the edge are put in the order in which the tetrahedra curl around it, and the edges, triangles and tetrahedra of the chosen triangulation are made, each tetrahedron oriented as judged, in exactly the number of slots reserved. A collapse turns every entity around the vertex, except those around the rail and those they degenerate onto, into one in which the vertex collapsed onto takes its place. All dimensions are rebuilt in order from the same keys, and the fields are transferred for exactly the entities that were built.",
     ["inputs"], "every place and rotation of an edge or vertex in an entity, every number of entities around it, dimensions 1 to 3",
     "A wrong vertex in one of the many cases (place of the edge, rotation, dimension) yields a mesh that is still accepted and only inverted or overlapping where that case occurs.",
     ["src/Omega_h_refine_topology.cpp", "src/Omega_h_refine_topology.hpp", "src/Omega_h_swap2d_topology.cpp", "src/Omega_h_swap3d_topology.cpp", "src/Omega_h_swap3d_loop.hpp", "src/Omega_h_coarsen_topology.cpp", "src/Omega_h_refine.cpp", "src/Omega_h_coarsen.cpp", "src/Omega_h_swap2d.cpp", "src/Omega_h_swap3d.cpp"],
     [("cavities", "refine_domains_to_pairs, refine_domains_to_cuts, combine_pairs_and_cuts, swap2d_topology, swap3d_topology, find_loop, coarsen_topology, mark_dead_ents, find_coarsen_domains"), ("drivers", "refine_element_based, coarsen_element_based2, swap2d_element_based, swap3d_element_based")],
     "stores of the topology kernels in closed form, compared case by case with the old entity; symbolic execution of the drivers", "other",
     "No bounds: loops are folds with symbolic counts. Adjacencies, codes and tables are decided by P06, P10, P11 and P12; array combinators are assumed.")

prop("P23", "Modified meshes are numbered one to one and all copies agree",
     "When a mesh is modified, every entity of the new mesh gets exactly one local number and one global number. An entity that stays and each product keep the order of the old mesh: a product is numbered after its representative if that stays, after the products of modified entities before it, and within its own by its rank, so that the local numbers are a permutation of 0 to n-1 and no two entities get the same. Global numbers follow the same order over the owners of all ranks, are exchanged to the copies, and are the same for every partition. Connectivity of products is translated into the new numbers of their sides, entities that stay keep theirs, and the owner of every entity (old or new) is a rank and local index that is indeed that entity. Distributing n things over ranks by blocks gives every thing one rank and index.",
     ["inputs", "schedules"], "all entity dimensions, every number of modified entities and products, all ranks and partitions, refinement, coarsening, swaps and AMR",
     "Tests adapt a few meshes on up to two ranks; a number that is wrong for shared entities, or for several products of one representative, shows only as a later inconsistency.",
     ["src/Omega_h_modify.cpp", "src/Omega_h_globals.cpp", "src/Omega_h_linpart.cpp", "src/Omega_h_owners.cpp", "src/Omega_h_unmap_mesh.cpp", "src/Omega_h_amr.cpp"],
     [("numbering", "get_mods2reps, get_rep_counts, get_rep2md_order, assign_new_numbering, modify_globals, rescan_globals, globals_from_owners"), ("ownership", "modify_owners, unmap_owners, globals_to_linear_owners, copies_to_linear_owners"), ("drivers", "modify_ents, modify_ents_adapt, modify_conn, amr::derefine")],
     "functional normal forms of the counting and numbering kernels compared with their meaning; symbolic execution of the drivers", "other",
     "No bounds: counts and loops are symbolic. Array combinators and exchanges are assumed. One known finding: parallel AMR de-refinement lets a copy outlive its owner.")

prop("P24", "Redistribution sends every item where it is said to go, and only there",
     "A redistribution plan made from a destination rank and index per item delivers each item's data, whatever its type and width, exactly there; its inverse delivers back; sizes, ranks and indices it reports are those it uses; moving it to another communicator keeps who talks to whom. Built on that: migration brings, for every requested element, exactly one copy of it and of each entity on its boundary to the new rank, with connectivity and alignment renumbered to the new copies and tags from the old owners; each entity gets exactly one owner among its copies, the one that had it where ghosting or a vertex partition demands it, otherwise the rank with fewest copies (lowest rank on ties); ghosting to n layers brings all elements within n layers of vertex neighbors, for simplices and hypercubes alike; bisection sends marked and unmarked halves to the two halves of the ranks; and renumbering a mesh carries its connectivity, tags, owners and parents to the new numbers.",
     ["inputs", "schedules"], "all plans, item types, widths, ranks and partitions; meshes of both families and all dimensions",
     "Tests run on one or two ranks and a few layouts, where most mistakes in a plan (own rank first, one message, width one, one layer) cannot be seen.",
     ["src/Omega_h_dist.cpp", "src/Omega_h_remotes.cpp", "src/Omega_h_owners.cpp", "src/Omega_h_migrate.cpp", "src/Omega_h_ghost.cpp", "src/Omega_h_bipart.cpp", "src/Omega_h_unmap_mesh.cpp", "src/Omega_h_reorder.cpp", "src/Omega_h_globals.cpp"],
     [("plans", "Dist::exch, iexch, exch_reduce, invert, set_dest_ranks, set_dest_idxs, set_dest_globals, change_comm, items2dests, create_dist_for_variable_sized"), ("migration", "get_old_owners2uniq_uses, get_new_copies2old_owners, form_new_conn, push_down, push_ents, migrate_mesh, update_ownership"), ("ghosting", "push_elem_uses, ghost_mesh, partition_by_verts, partition_by_elems, bi_partition"), ("renumbering", "unmap_mesh, unmap_down, unmap_parents, unmap_leaves, reorder_by_hilbert, reorder_by_globals")],
     "functional normal forms of results and of effects on meshes and plans, compared with their definitions", "other",
     "No bounds: items, ranks and fans are symbolic; drivers that go through the dimensions are looked at for each dimension. The collectives below Comm and array combinators are assumed. push_tags and unmap_tags are P01/P02.")

prop("P08", "What a mesh answers is about its present contents",
     "A mesh keeps answers it has derived. After its coordinates, metric, owners, parents or communicator are changed through its interface, every later answer (lengths, qualities, sizes, adjacencies in any pair of dimensions, children, exchange plans, owners, parents) is the one its present contents give, and asking twice gives the same. Each is derived from the adjacencies, owners and parents of exactly the dimensions asked about. Fields are found by exact dimension and name: adding replaces, removing and looking up touch that one only, an array of the wrong length, an index or a dimension out of range is refused. Asking for a partition leaves the mesh in it with the number of ghost layers asked for, redistributed from the element-based partition when old ghosts would be wrong, and untouched if it already is; a copy of a mesh's settings has all its settings and none of its contents.",
     ["histories", "inputs"], "every changing operation after every answer was asked for, dimensions 1 to 3, both families, all pairs of partitions",
     "Tests follow a few orders of operations; a stale answer needs one particular question before and after one particular change.",
     ["src/Omega_h_mesh.cpp", "src/Omega_h_mesh.hpp", "src/Omega_h_tag.cpp"],
     [("caches", "Mesh::adjs_, children_, dists_, length/quality/size tags; ask_*"), ("changes", "add_tag, set_tag, react_to_set_tag, set_owners, set_parents, set_comm, set_coords"), ("tags", "tag_iter, has_tag, get_tagbase, remove_tag"), ("partition", "set_parting, could_be_shared, have_all_upward, copy_meta")],
     "typestate: abstract interpretation of Mesh's members over meshes with every answer cached or none, answers compared as terms over the contents", "other",
     "Contents are names; the functions that derive answers are assumed to compute what they name (P06, P10, P18, P24). Changes marked internal are exempt, as the library documents.")

prop("P26", "Array storage lives exactly as long as something refers to it",
     "Arrays are shared handles to storage. However handles are made, copied, moved, assigned (also to themselves) and destroyed, the storage stays valid and unchanged in place while any handle refers to it, is released exactly once when the last one goes, and every handle reports the size and data of its storage; a moved-from handle is empty. Copies carried into a kernel are not counted but keep size and data, and the flag that says so is never left set when anything else runs. A new array of n values has storage for n values of its type. With pooling, a block is handed to one user at a time, is at least as large as asked for, is found again when returned, and goes back to the system once with the size it was obtained with; when memory is short the free blocks, and only they, are given back first. When allocations are tracked, the record lists exactly those that exist and their total.",
     ["histories", "inputs"], "all histories of handle operations, inside and outside kernel launches; all pool contents and request sizes; all tracked lists",
     "Tests pass unless a premature release or a lost count corrupts something visible; leaks, stale reuse and list corruption depend on histories no test arranges, and nothing tests the pool or tracking.",
     ["src/Omega_h_shared_alloc.hpp", "src/Omega_h_shared_alloc.cpp", "src/Omega_h_pool.cpp", "src/Omega_h_malloc.cpp", "src/Omega_h_array.cpp", "src/Omega_h_array.hpp", "src/Omega_h_for.hpp", "src/Omega_h_reduce.hpp", "src/Omega_h_scan.hpp"],
     [("handles", "SharedAlloc special members, copy, move, clear, size"), ("records", "Alloc::init, ~Alloc, global_allocs"), ("pool", "allocate, deallocate, ~Pool, maybe_pooled_*"), ("launch flag", "entering_parallel in for_each, transform_reduce, scans")],
     "typestate: transfer functions of the special members and pool operations over all abstract heap states; flow analysis of the launch flag", "proof",
     "Inductive over single operations, so all histories follow. Lists are taken with up to three entries per place, requests at every power of two to 2^40. One thread counts at a time. SharedAlloc::identity (unused) is outside.")

prop("P30", "Every command-line option does what its declaration says",
     "Each program of the library (and the library itself, which reads its own --osh options) gets from the command line exactly what it declared: every option or argument it asks for was declared under that name and with that type, every declared one is consulted somewhere, the value of an option is read only where that option (not another) was given or as its default, names are unique, and nothing is asked before the line was parsed. When the command line cannot be parsed the program reports it and ends with a non-zero status before touching a mesh.",
     ["inputs"], "every declared option and argument of every compiled program, every query",
     "Queries are matched to declarations by string and type at run time, and a mismatch aborts only when that option is given; most options of most programs appear in no test.",
     ["src/Omega_h_cmdline.cpp", "src/Omega_h_library.cpp", "src/Omega_h_compare.cpp", "src/vtkdiff.cpp", "src/osh_box.cpp", "src/osh_adapt.cpp", "src/osh_fix.cpp", "src/osh_scale.cpp"],
     [("declaration", "CmdLine::add_flag, add_arg, CmdLineFlag::add_arg"), ("query", "CmdLine::parsed, CmdLine::get<T>")],
     "partial evaluation of each program's main to its sequence of declarations and queries, matched by name, type and guard", "other",
     "Exact for literal names; one known finding (--osh-memory is ignored); the CmdLine class is trusted to find items by exact name.")

prop("P02", "Fields of several components keep their components apart",
     "Arrays hold several values (components) per entity, entity after entity. Wherever the library reads or writes one component of such an array, the component is one of those the array has, and the array was allocated for that many; where it handles all components in a loop, it handles every one of them, each taken from the same component of the other arrays of that width; and wherever a field's array is handed on together with a number of components, that number is the field's own. So a field of n components comes through synchronisation, migration, transfer and file output as n fields of one component would.",
     ["inputs"], "every subscript of the form entity*width+component, every component loop, every array handed over with a width",
     "Tests carry almost only fields of one component, for which all of these mistakes are invisible, and vector fields whose components are alike.",
     ["src/Omega_h_map.cpp", "src/Omega_h_transfer.cpp", "src/Omega_h_conserve.cpp", "src/Omega_h_amr_transfer.cpp", "src/Omega_h_mesh.cpp", "src/Omega_h_migrate.cpp", "src/Omega_h_array_ops.cpp", "src/Omega_h_owners.cpp", "src/Omega_h_recover.cpp", "src/Omega_h_vector.hpp"],
     [("strided subscripts", "a[i * width + j] in parallel_for bodies"), ("width parameters", "unmap, expand, map_into, sync_array, exch, add_tag, ...")],
     "index-shape analysis: strides and component loops of every subscript, and width inference for arrays passed to functions", "other",
     "Every subscript of the compiled code is classified; arrays whose width cannot be derived (counted in the evidence) are not compared.")

prop("P13", "Small vector, matrix, metric and rotation algebra is exact",
     "The fixed-size algebra under every kernel computes what its names say, for all arguments: vector and matrix sums, products, transposes, traces, determinants, inverses, full-rank pseudo-inverses, norms, cross products, projections, outer and inner products; the storage order of vectors, matrices and symmetric tensors in arrays and its inverse conversions (INRIA's order included); affine maps and bounding boxes; metric lengths, products and compositions; characteristic polynomials, roots of linear and quadratic polynomials, eigenvectors of known eigenvalues, the 2x2 eigendecomposition, Givens rotations, Householder QR and triangular solves; rotations about an axis and conversions to and from quaternions. In sizes 1 to 3 each result satisfies its defining identity in exact arithmetic.",
     ["inputs"], "all real arguments, sizes 1 to 3, every sign pattern or index position listed per function",
     "Tests check a few matrices, mostly symmetric, diagonal or well-scaled; a wrong sign or transposed index that vanishes on those goes unseen, and is a polynomial identity that one symbolic evaluation decides.",
     ["src/Omega_h_vector.hpp", "src/Omega_h_matrix.hpp", "src/Omega_h_tensor.hpp", "src/Omega_h_scalar.hpp", "src/Omega_h_affine.hpp", "src/Omega_h_bbox.hpp", "src/Omega_h_metric.hpp", "src/Omega_h_eigen.hpp", "src/Omega_h_qr.hpp", "src/Omega_h_lie.hpp"],
     [("inline algebra", "operators, invert, pseudo_invert, determinant, cross, uncross, get_symm, symm2vector_inria, ..."), ("decompositions", "decompose_eigen, factorize_qr_householder, quaternion_from_tensor")],
     "compile-fail witnesses: the headers compiled over exact rational functions, one static_assert per identity", "proof",
     "Exact arithmetic, not rounding; branches on real values follow one generic point per listed pattern; the iterative 3x3 eigenvalues, SVD, logarithms and exponentials are outside.")

prop("P14", "Element sizes, gradients, qualities and clipped volumes are exact",
     "For simplices of dimension 1 to 3 with any vertices: the size is the signed determinant over d! (or the Gram root for lower-dimensional simplices), side vectors and planes face outwards, the size gradient is its exact derivative by each vertex, barycentric coordinates reproduce the point and decide whether it is inside, edge vectors, metric and real edge lengths, implied metrics, circumcentres and inscribed balls obey their definitions, and quality is the mean ratio in the metric: one for the equilateral and negative for inverted elements. Clipping a simplex by planes and intersecting two simplices (as conservative transfer does to split integrals among elements) leaves a polytope whose measure and first moments are those of the true intersection, zero when they are disjoint and the same in either order.",
     ["inputs"], "all vertex positions; every sign pattern of one clipping plane, parallel pairs, translates, nested and rotated simplices, dimensions 1 to 3",
     "Tests measure a few unit elements and intersect a few pairs; an error in one configuration of a clipped tetrahedron, or in one component of a gradient, silently breaks conservation.",
     ["src/Omega_h_shape.hpp", "src/Omega_h_quality.hpp", "src/Omega_h_r3d.hpp", "src/r3d.hpp", "src/Omega_h_metric.hpp"],
     [("measures", "real_simplex_size, metric_size, get_size_gradient, get_side_vector, get_inball, metric_element_quality"), ("clipping", "r3d::clip, reduce, measure, faces_from_verts, intersect_simplices")],
     "compile-fail witnesses: the headers compiled over exact rational functions, one static_assert per identity", "proof",
     "Exact arithmetic, not rounding or degenerate coincidences; pairs of general position are checked on three rotated examples per dimension; the 3D implied metric (a 6x6 system) is outside.")

prop("P31", "Adaptation ends with a mesh that meets the metric",
     "Adapting a mesh to a metric field ends after finitely many passes, with every edge's metric length within the requested range and every element's quality above the requested minimum, or reports that it did not reach them.",
     ["inputs"], "all meshes and metric fields",
     "Tests adapt a handful of meshes to smooth fields.",
     ["src/Omega_h_adapt.cpp", "src/Omega_h_refine.cpp", "src/Omega_h_coarsen.cpp", "src/Omega_h_swap.cpp"],
     [("driver", "adapt, adapt_check, snap_and_satisfy_quality, satisfy_lengths")],
     na="Convergence depends on run-time lengths and qualities; no static ranking function or bound is in reach. What each single pass may do is P20 to P22.")

prop("P32", "Results do not depend on the number of threads or ranks, bit for bit",
     "The same input gives bitwise the same mesh and fields whatever the number of ranks, threads or the back end.",
     ["schedules", "configurations"], "all rank counts, thread counts and back ends",
     "Tests compare two layouts at most.",
     ["src/Omega_h_reproduce.hpp", "src/Omega_h_reduce.hpp", "src/Omega_h_array_ops.cpp"],
     [("reproducible sums", "repro_sum"), ("tie breaking", "find_indset, globals")],
     na="Outside repro_sum the code sums floating-point numbers in layout order, so the claim is about rounding at run time. What makes it plausible, tie breaking by globals and schedule-free kernels, is decided under P02, P18, P21 and P24.")

prop("P33", "Load balancing leaves no rank with much more than its share",
     "After balancing, the heaviest rank exceeds the average load by at most the requested tolerance.",
     ["inputs"], "all weights and coordinates",
     "Tests balance one mesh.",
     ["src/Omega_h_inertia.cpp", "src/Omega_h_bipart.cpp"],
     [("bisection", "inertia::mark_bisection, recursively_bisect")],
     na="The result is a bisection search over real-valued coordinates of run-time masses; it need not exist (coincident points). That the marked halves are then moved correctly is P24.")

prop("P34", "Gradation-limited metrics satisfy the gradation bound",
     "After limiting, the metric of every vertex is at most the gradation rate from that of each neighbor, and no metric became coarser than it was.",
     ["inputs"], "all meshes and metric fields",
     "Tests limit one field.",
     ["src/Omega_h_metric.cpp", "src/Omega_h_metric_input.cpp"],
     [("limiting", "limit_metric_gradation, limit_gradation_once_tmpl")],
     na="A fixed point of an iteration on real eigenvalues to a tolerance: bounded by no static argument here. The metric algebra of each step is P13 and P14.")

prop("P35", "Iterative eigenvalues, singular values, logarithms and exponentials are accurate",
     "Eigenvalues of 3x3 symmetric matrices, singular values, polar factors, tensor logarithms and exponentials have small relative error for every well-scaled input.",
     ["inputs"], "all matrices",
     "Tests take a few matrices.",
     ["src/Omega_h_eigen.hpp", "src/Omega_h_svd.hpp", "src/Omega_h_lie.hpp", "src/Omega_h_most_normal.hpp"],
     [("decompositions", "decompose_eigen_jacobi, decompose_svd, log_so, exp_so, log_spd, exp_spd")],
     na="A statement about floating-point error of transcendental and iterative code; exact-arithmetic identities do not apply, and an error analysis by interval arithmetic is not available for these branches here. The algebraic parts (characteristic polynomials, 2x2, eigenvectors of known eigenvalues) are P13.")
