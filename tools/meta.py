#!/usr/bin/env python3
"""Single source of the property texts; regenerates properties.jsonl and MANIFEST.json (the claimed set is lib/registry.py)."""
import os, sys, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from registry import CHECKS
L = "src/libscotch/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[f if "/" in f else L + f for f in files], mechanism=[dict(name=n, where=w if "/" in w else L + w) for n, w in mech])))


prop("C01", "Mapping calls give every vertex exactly one valid target part",
     "When a sequential partitioning, mapping, repartitioning or remapping call succeeds on a valid graph, every vertex has been given a part number that exists in the target (a number between 0 and size-1, or a positive domain label for variable-sized targets), and the call succeeds for every documented strategy builder and architecture class. The call reads and writes only memory it owns or was given, and leaves the caller's graph, old-mapping and migration-cost arrays unchanged.",
     ["inputs", "configurations"], "every valid graph (any base, compact or not, weighted or not, connected or not, down to one vertex), every target architecture, every strategy and thread count",
     "The tests map a handful of fixed graphs onto a few targets; graph shape, array layout, weights, base, target and strategy combine without bound.",
     ["library_graph_map.c", "kgraph.c", "kgraph_map_rb_map.c", "kgraph_map_rb_part.c", "kgraph_map_ml.c", "kgraph_map_fm.c", "kgraph_map_bd.c", "kgraph_map_df.c", "kgraph_map_ex.c", "bgraph_bipart_fm.c", "bgraph_bipart_gg.c", "bgraph_bipart_ml.c", "mapping.c"],
     [("mapping driver", "library_graph_map.c:graphMapCompute2"), ("recursive bipartitioning", "kgraph_map_rb_map.c"), ("multilevel scheme", "kgraph_map_ml.c"), ("domain to part translation", "mapping_io.c / archDomNum")])
prop("C02", "Fixed vertices are never moved",
     "When a partitioning or mapping call with fixed vertices succeeds, every vertex the caller fixed to a target part is still in exactly that part, and every other vertex has received an existing part. This also holds when an old mapping is given at the same time, and the old mapping and the migration costs are left unchanged.",
     ["inputs", "configurations"], "every graph, every subset and distribution of fixed vertices (none, all, all in one part, empty parts), every target, with or without an old mapping",
     "Tests fix a few vertices on one or two graphs; the constraint must survive coarsening, bipartitioning, banding and refinement on all inputs.",
     ["library_graph_map.c", "kgraph_map_rb.c", "kgraph_map_rb_map.c", "kgraph_map_ml.c", "kgraph_map_fm.c", "kgraph_map_bd.c", "kgraph_map_df.c", "kgraph_band.c", "graph_coarsen.c", "bgraph_bipart_fm.c"],
     [("fixed vertex entry points", "library_graph_map.c:SCOTCH_graphMapFixed"), ("fixed vertices in recursive bipartitioning", "kgraph_map_rb.c:kgraphMapRbVfloBuild"), ("fixed vertices never merged with others", "graph_coarsen.c"), ("anchors of band graphs", "kgraph_band.c")])
prop("C03", "Partitions are balanced and mappings are of useful quality",
     "With the default strategy, or one built for a given imbalance tolerance, no part of a unit-weight graph exceeds its fair share (in proportion to the weight of its target) by more than the tolerance plus a small rounding slack, and with many vertices per part no part is left empty. On regular meshes and other graphs with known separators the edge cut (for partitions), the dilation-weighted communication cost (for mappings) and the elimination cost (for orderings) stay within a small constant factor of the analytical reference.",
     ["inputs", "configurations"], "every sufficiently large unit- or mildly-weighted graph, any number of parts, every documented strategy builder flag and tolerance",
     "No test looks at the value of the cut or at the balance of the result; a broken refinement still yields a formally valid partition.",
     ["bgraph_bipart_fm.c", "bgraph_bipart_df.c", "kgraph_map_fm.c", "kgraph_map_ex.c", "kgraph_map_rb_part.c", "kgraph_map_rb_map.c", "library_graph_map.c", "vgraph_separate_fm.c", "hgraph_order_nd.c", "gain.c"],
     [("strategy builders", "library_graph_map.c:SCOTCH_stratGraphMapBuild"), ("load bounds of bipartitions", "kgraph_map_rb_part.c"), ("gain tables", "gain.c"), ("refinement", "bgraph_bipart_fm.c")])
prop("C04", "Reported statistics equal what the data says",
     "Every figure the library reports about a graph, mesh, mapping, remapping, overlap partition or ordering (sizes, loads, extrema, averages, cut and communication loads, dilation, migration, fill and operation counts) equals the value computed independently from the data it was given.",
     ["inputs"], "every graph or mesh, with or without weights, every mapping or ordering attached to it",
     "Tests print the statistics and never compare them to anything.",
     ["library_graph.c", "library_graph_map_view.c", "library_graph_part_ovl.c", "library_mesh.c", "library_graph_base.c", "src/scotch/gotst.c", "src/scotch/gtst.c", "src/scotch/mtst.c", "src/scotch/gmtst.c"],
     [("graph statistics", "library_graph.c:SCOTCH_graphStat"), ("mapping statistics", "library_graph_map_view.c"), ("factorization statistics", "src/scotch/gotst.c"), ("mesh statistics", "library_mesh.c:SCOTCH_meshStat")])
prop("C05", "Overlap partitions are vertex separations",
     "A successful partition with overlap gives every vertex either a part number between 0 and size-1 or the separator mark, and no edge joins vertices of two different parts. The caller's graph is unchanged, and on large regular meshes partitioned with the default strategy or with one built for a given tolerance, the part loads (own vertices plus adjacent separator vertices) are balanced up to that tolerance plus a modest margin and the separators are small.",
     ["inputs", "configurations"], "every graph, every number of parts, every overlap strategy the library can build",
     "Tests run a few graphs and do not check that no edge crosses the separator.",
     ["library_graph_part_ovl.c", "wgraph.c", "wgraph_part_rb.c", "wgraph_part_fm.c", "wgraph_part_ml.c", "wgraph_check.c"],
     [("overlap partitioning", "library_graph_part_ovl.c"), ("recursive vertex separation", "wgraph_part_rb.c"), ("k-way vertex refinement", "wgraph_part_fm.c")])
prop("C06", "Orderings are true permutations with a consistent block structure",
     "Every successful ordering call produces a permutation and an inverse permutation that are inverse bijections over the graph's vertex range, column-block boundaries that start at the base, strictly increase and end past the last vertex, and a father array that is a forest in which every father follows its children. This holds for every documented ordering strategy, for ordering restricted to a vertex list (where list vertices get the lowest numbers and the other vertices all come after), and it never modifies the graph.",
     ["inputs", "configurations"], "every valid graph, base, layout, weights, strategy, vertex list and thread count",
     "Tests order a few graphs; the block structure is assembled by a recursion whose shape depends on the graph, the strategy and the thread schedule.",
     ["library_graph_order.c", "order.c", "order_check.c", "hgraph_order_nd.c", "hgraph_order_hd.c", "hgraph_order_hf.c", "hgraph_order_cp.c", "hgraph_order_bl.c", "hgraph_order_kp.c", "hgraph_order_cc.c", "hgraph_order_gp.c", "hgraph_order_si.c", "hall_order_hx.c", "order_io.c"],
     [("ordering structure", "order.c"), ("nested dissection", "hgraph_order_nd.c"), ("graph compression", "hgraph_order_cp.c"), ("minimum degree and fill", "hall_order_hx.c"), ("block structure extraction", "order.c:orderTree / orderRang")])
prop("C07", "Separator trees really separate",
     "In the block structure returned by nested dissection, two column blocks neither of which is an ancestor of the other share no edge when leaves are ordered in plain order, and in every ordering two blocks whose lowest common ancestor is a separator are not adjacent. Consequently eliminating in the returned order creates no fill between independent branches, and the elimination cost stays far below that of a random order on meshes.",
     ["inputs", "configurations"], "every graph and every nested-dissection strategy, with or without compression and connected-component handling, sequential or threaded",
     "Only checkable against each graph's edges; tests look at neither the tree nor the fill.",
     ["hgraph_order_nd.c", "vgraph_separate_fm.c", "vgraph_separate_bd.c", "vgraph_separate_gg.c", "vgraph_separate_ml.c", "vgraph_separate_th.c", "vgraph_separate_es.c", "vgraph_separate_df.c", "hgraph_order_cp.c", "order.c", "hgraph_induce.c"],
     [("separators", "vgraph_separate_st.c"), ("halo graphs", "hgraph_induce.c"), ("column block tree", "order.c")])
prop("C08", "Consistency checkers accept exactly the valid structures",
     "The graph, mesh and ordering consistency checkers accept every structure that satisfies the documented rules and reject every structure that violates one of them (out-of-range neighbour, missing or repeated reverse arc, asymmetric edge weight, loop, wrong counts, overflowing or negative loads, duplicate arc, non-permutation...), without reading outside the given arrays.",
     ["inputs"], "every valid structure, and every single corruption of one",
     "Tests feed valid files only and a few fixed failures.",
     ["graph_check.c", "mesh_check.c", "order_check.c", "library_graph_check.c", "library_mesh.c", "library_graph_order.c"],
     [("graph checker", "graph_check.c"), ("mesh checker", "mesh_check.c"), ("ordering checker", "order_check.c")])
prop("C09", "Graph, mesh and geometry files round-trip",
     "Saving a graph, mesh or geometry and loading it back yields the same structure, weights, labels and coordinates (up to the base requested on loading), and files in the supported foreign formats (Chaco, Harwell-Boeing, Matrix Market) load into the graph they describe. Loading honours the requested base and the flags that drop vertex or edge weights.",
     ["inputs"], "every graph, mesh and geometry; every base value and load flag; any legal spacing, comment and option digit of the formats",
     "Tests load a few hand-picked files and never compare with the source.",
     ["graph_io.c", "graph_io_chac.c", "graph_io_habo.c", "graph_io_mmkt.c", "graph_io_scot.c", "mesh_io.c", "mesh_io_habo.c", "mesh_io_scot.c", "geom.c", "common_integer.c"],
     [("graph files", "graph_io.c"), ("mesh files", "mesh_io.c"), ("integer parser", "common_integer.c:intLoad"), ("format conversion", "graph_io_chac.c")])
prop("C10", "Mapping, ordering, tree and architecture files round-trip",
     "A mapping, ordering or partition array saved to a file and loaded back, even through vertex labels or after lines are reordered, attributes to every vertex the same part or rank; the tree and column-block files describe the ordering's blocks; an architecture saved and loaded back behaves identically (size, names, distances, domain tree).",
     ["inputs"], "every mapping, ordering and architecture, with or without labels, any base",
     "Tests save and reload without comparing, on few inputs.",
     ["mapping_io.c", "order_io.c", "library_graph_map_io.c", "library_graph_order.c", "arch.c", "arch_deco.c", "arch_cmpltw.c", "arch_tleaf.c", "arch_sub.c", "library_arch.c"],
     [("mapping files", "library_graph_map_io.c"), ("ordering files", "order_io.c"), ("architecture files", "arch.c:archLoad / archSave")])
prop("C11", "Malformed input files are refused cleanly",
     "Any content given to a loader of native graphs, meshes, graph coordinates, target architectures, mappings and partitions, or of Chaco and MatrixMarket graphs, is either refused with an error return, or yields a structure which is consistent (builds with checking enabled) and which the consistency checker can judge safely (all builds); loading never crashes, overruns memory, hangs or leaks, and the object can be freed and used again afterwards.",
     ["inputs"], "every file content: truncations, mutations, extreme counts and numbers, inconsistent headers",
     "Tests only feed well-formed files.",
     ["graph_io.c", "graph_io_chac.c", "graph_io_mmkt.c", "graph_io_habo.c", "mesh_io.c", "arch.c", "arch_deco.c", "arch_tleaf.c", "arch_mesh.c", "common_integer.c", "geom.c"],
     [("loaders", "graph_io.c:graphLoad"), ("integer parser", "common_integer.c:intLoad"), ("architecture loaders", "arch.c:archLoad")])
prop("C12", "Strategy strings are parsed faithfully or refused",
     "Any strategy string is either refused with an error message, leaving the strategy object usable, or accepted. Strings which follow the documented grammar are accepted, with the documented precedence of operators; strings with an unknown method, parameter, variable or switch, a missing or ill-typed value or unbalanced delimiters are refused. Saving an accepted strategy gives a text with the same structure, parameter values and conditions, which is accepted again and behaves identically (same results for the same seed). At run time a condition takes the branch given by the value of its expression. Parsing never accesses memory out of bounds. Strategies built by the builders from any flags and parameters are always accepted and usable.",
     ["inputs", "programs"], "every string, every strategy type (mapping, overlap, ordering, separation), every builder flag combination",
     "Tests parse a few constant strings.",
     ["parser.c", "parser_ll.l", "parser_yy.y", "library_strat.c", "library_graph_map.c", "library_graph_order.c", "library_mesh_order.c", "common_string.c"],
     [("strategy grammar", "parser_yy.y"), ("strategy saving", "parser.c:stratSave"), ("builders", "library_graph_order.c:SCOTCH_stratGraphOrderBuild")])
prop("C13", "Architectures form consistent domain trees with true distances",
     "For every target architecture, the recursive bipartition of the whole domain reaches every terminal exactly once, sizes and weights of subdomains add up to those of their parent, every terminal number converts to its domain and back, domain inclusion agrees with the tree, and distances between terminals are symmetric, zero only on the diagonal and equal to those of the documented topology. Sub-architectures keep the distances and weights of the terminals they retain.",
     ["inputs", "configurations"], "every architecture class and size, weights, link costs, label permutations, restrictions to any subset of terminals",
     "Tests walk a few fixed architectures; the index arithmetic depends on each dimension and parity.",
     ["arch.c", "arch_cmplt.c", "arch_cmpltw.c", "arch_deco.c", "arch_deco2.c", "arch_hcub.c", "arch_mesh.c", "arch_torus.c", "arch_tleaf.c", "arch_sub.c", "arch_vcmplt.c", "arch_vhcub.c", "arch_build.c", "arch_build2.c", "library_arch_dom.c"],
     [("domain algebra", "arch.c:archDomBipart / archDomDist / archDomTerm / archDomIncl"), ("restrictions", "arch_sub.c"), ("decomposition-defined targets", "arch_build.c")])
prop("C14", "Coarsening merges only adjacent pairs and conserves everything",
     "A coarsened graph's multinodes pair each fine vertex exactly once, with itself or with another vertex (isolated ones unless forbidden), its vertex weights are the sums of those of its parts, and its arcs and weights are exactly those of the quotient of the fine graph. Computing a matching and building the coarse graph separately gives the same guarantee, caller-provided matings are honoured, and no coarse graph is returned when the requested reduction is not reached.",
     ["inputs", "schedules", "configurations"], "every graph, ratio, minimum size, flag and thread count",
     "Tests coarsen a couple of graphs and do not recompute the quotient; threaded matching depends on the schedule.",
     ["graph_coarsen.c", "graph_coarsen_edge.c", "graph_match.c", "graph_match_scan.c", "library_graph_coarsen.c"],
     [("matching", "graph_match.c"), ("coarse graph building", "graph_coarsen.c:graphCoarsen3"), ("interface", "library_graph_coarsen.c")])
prop("C15", "Induced subgraphs are exactly the induced subgraphs",
     "The graph induced by a vertex list, or by a part of a partition, has exactly the listed vertices in order, exactly the edges between them, with their weights; it can be used as any other graph, and induced again, and the original graph is unchanged.",
     ["inputs"], "every graph, base, layout, list (any order, empty edges) and partition",
     "Tests induce fixed subsets and check little.",
     ["graph_induce.c", "library_graph_induce.c"],
     [("induction", "graph_induce.c")])
prop("C16", "Colorings are proper, diameters plausible, rebasing exact",
     "A coloring never gives the same color to two neighbours and uses exactly the colors it announces; the pseudo-diameter of a connected graph is the length of an actual shortest path and disconnected graphs are reported as infinite; changing the base value of a graph or mesh shifts every index and nothing else.",
     ["inputs"], "every graph, base and layout, weighted or not",
     "Tests run on a few graphs; parity of ties and layouts matter.",
     ["library_graph_color.c", "graph_diam.c", "library_graph_diam.c", "graph_base.c", "library_graph_base.c"],
     [("coloring", "library_graph_color.c"), ("pseudo-diameter", "graph_diam.c"), ("rebasing", "graph_base.c")])
prop("C17", "Meshes yield the graphs and orderings their structure implies",
     "The graph of a mesh joins two nodes exactly when an element holds both; the dual graph joins two elements exactly when they share enough nodes; weights follow; orderings of meshes are true permutations of the nodes with consistent blocks and do not modify the mesh.",
     ["inputs", "configurations"], "every mesh (elements before or after nodes, any bases, isolated nodes, weights, non-compact), any number of common nodes, every mesh ordering strategy",
     "Tests use a few meshes and compare nothing.",
     ["mesh.c", "mesh_graph.c", "mesh_check.c", "library_mesh.c", "library_mesh_graph.c", "library_mesh_order.c", "hmesh_order_nd.c", "hmesh_order_cp.c", "hmesh_order_hd.c", "vmesh_separate_fm.c", "vmesh_separate_gg.c", "vmesh_separate_ml.c", "mesh_coarsen.c"],
     [("node graph", "mesh_graph.c:meshGraph"), ("dual graph", "mesh_graph.c:meshGraphDual"), ("mesh ordering", "library_mesh_order.c")])
prop("C18", "Equal seeds give equal results",
     "Repeating a sequential computation after resetting the pseudo-random generator, in the same or in another process, with the same input, gives bit-identical results, and so does a computation in a context whose generator was seeded alike; a computation in a context draws nothing from the global generator. With the deterministic option, repeated computations with the same number of threads give identical results whatever the schedule. Unrelated calls, other contexts and the contents of uninitialised memory never influence a result.",
     ["inputs", "schedules", "histories"], "every computation, sequence of previous calls, uninitialised-memory content, thread count",
     "Tests never compare two runs.",
     ["common_integer.c", "context.c", "common_context.c", "library_random.c", "graph_match.c", "library_common.c"],
     [("generator", "common_integer.c:intRand"), ("contexts", "common_context.c"), ("deterministic matching", "graph_match.c")])
prop("C19", "Threads never race and contexts are isolated",
     "Concurrent calls on distinct objects with distinct contexts, and multi-threaded executions inside one call, contain no data race on library data, never deadlock, and give the results of sequential executions (identical with the deterministic option, valid otherwise).",
     ["schedules"], "every schedule of the threads, every number of threads",
     "Tests observe one schedule each and no race detector.",
     ["common_thread.c", "common_thread_system.c", "common_context.c", "common_values.c", "graph_match.c", "graph_match_scan.c", "graph_coarsen.c", "kgraph_map_rb_map.c", "hgraph_order_nd.c", "bgraph_bipart_df.c", "kgraph_map_df.c", "vgraph_separate_df.c", "graph_diam.c"],
     [("thread team", "common_thread.c"), ("context queue", "common_thread.c:threadContextBarrier"), ("threaded loops", "bgraph_bipart_df_loop.c")])
prop("C20", "Memory is returned and allocation failures are survived",
     "Every routine releases all memory it allocates once its objects are freed, on success and on failure; and when an allocation fails at any point, the routine returns an error (or succeeds anyway) without crashing, corrupting memory or leaking, and the objects can still be freed.",
     ["fault_sequences", "crash_points"], "every allocation made by every public operation failing in turn",
     "No test injects allocation failures or counts memory.",
     ["common_memory.c", "graph_io.c", "graph_coarsen.c", "kgraph.c", "order.c", "arch_build.c", "mesh_graph.c", "library_graph_map.c", "common_thread.c"],
     [("grouped allocation", "common_memory.c:memAllocGroup"), ("object freeing", "graph.c:graphFree")])
prop("C21", "The METIS-compatible library honours the METIS contract",
     "The METIS v3/v5 entry points return valid orderings, exact dual graphs of meshes, and partitions with parts in range in the caller's numbering (0 or 1), report the edge cut or communication volume that the returned partition really has, honour part weights approximately, and leave the caller's arrays unchanged.",
     ["inputs", "configurations"], "every graph, numbering, weight flag, part count and objective",
     "The tests call each entry point on one graph.",
     ["src/libscotchmetis/metis_graph_part.c", "src/libscotchmetis/metis_graph_order.c", "src/libscotchmetis/metis_graph_dual.c", "src/libscotchmetis/metis_options.c"],
     [("partitioning", "src/libscotchmetis/metis_graph_part.c:_SCOTCH_METIS_PartGraph2"), ("volume", "src/libscotchmetis/metis_graph_part.c:_SCOTCH_METIS_PartGraph_Volume"), ("ordering", "src/libscotchmetis/metis_graph_order.c"), ("dual", "src/libscotchmetis/metis_graph_dual.c")])
prop("C22", "The MUMPS interface returns exact elimination trees and symbolic sizes",
     "The ordering interface for sparse solvers returns a consistent elimination tree (every secondary variable points to its principal variable, every principal variable to a father, front sizes consistent with the exact symbolic factorization of the matrix in the returned order), for weighted and unweighted graphs; the block symbolic factorization computed from an ordering covers exactly the fill of the block structure.",
     ["inputs"], "every graph, with or without vertex weights",
     "The test runs one graph and prints.",
     ["src/esmumps/esmumps.c", "src/esmumps/symbol_fax.c", "src/esmumps/symbol_fax_graph.c", "src/esmumps/order.c", "src/esmumps/order_scotch_graph.c", "src/esmumps/dof.c", "src/esmumps/symbol.c", "src/esmumps/symbol_cost.c", "src/esmumps/symbol_check.c"],
     [("elimination tree", "src/esmumps/esmumps.c"), ("symbolic factorization", "src/esmumps/symbol_fax.c")])
prop("C23", "The Fortran interface does what the C interface does",
     "Every Fortran-callable routine of the sequential library has the effect and the results of the C routine of the same name, with one-based array indices returned for array data, error codes passed back through the last argument, and string lengths honoured.",
     ["inputs"], "every sequential routine of the Fortran interface and every input",
     "The Fortran test calls a few routines once.",
     ["library_graph_f.c", "library_graph_map_f.c", "library_graph_order_f.c", "library_mesh_f.c", "library_arch_f.c", "library_geom_f.c", "library_random_f.c", "library_common_f.c", "library_graph_coarsen_f.c", "library_context_f.c"],
     [("wrappers", "library_graph_f.c"), ("index computation", "library_graph_f.c:SCOTCHFGRAPHDATA")])
prop("C24", "Command-line programs do what the library does",
     "The command-line programs exit with success exactly when their inputs are valid, write outputs that describe what they were asked for (valid mappings, orderings, graphs of the requested topology, architectures), report figures equal to independent recomputation, read and write compressed files transparently, and agree with the library for the same seed and strategy; ill-formed inputs are refused without a crash.",
     ["inputs", "configurations"], "every program, option and input file, with plain or compressed files",
     "Each program has a few smoke tests whose output is not examined.",
     ["src/scotch/gmap.c", "src/scotch/gord.c", "src/scotch/gtst.c", "src/scotch/gotst.c", "src/scotch/gmtst.c", "src/scotch/gcv.c", "src/scotch/gout_c.c", "src/scotch/acpl.c", "src/scotch/amk_m2.c", "src/scotch/amk_ccc.c", "src/scotch/amk_fft2.c", "src/scotch/amk_hy.c", "src/scotch/amk_p2.c", "src/scotch/atst.c", "src/scotch/gmk_m2.c", "src/scotch/gmk_m3.c", "src/scotch/gmk_hy.c", "src/scotch/gmk_ub2.c", "src/scotch/gmk_msh.c", "src/scotch/mmk_m2.c", "src/scotch/mmk_m3.c", "src/scotch/mord.c", "src/scotch/mcv.c", "src/scotch/mtst.c", "src/scotch/gbase.c", "src/scotch/gscat.c", "common_file.c", "common_file_compress.c", "common_file_decompress.c"],
     [("graph mapping program", "src/scotch/gmap.c"), ("generators", "src/scotch/gmk_m3.c"), ("compressed files", "common_file_compress.c")])
prop("C25", "The random generator is uniform, resettable and restorable",
     "Bounded random values always lie in the requested range and every value can occur; resetting the generator replays the sequence from the seed, seeding selects a reproducible sequence, distinct process numbers give distinct sequences, and a state saved to a file and loaded back resumes exactly where it was, while a malformed state file is refused.",
     ["inputs", "histories"], "every seed, bound and interleaving of draws, resets, seedings, saves and loads",
     "Tests check one short sequence.",
     ["common_integer.c", "library_random.c", "common_context.c"],
     [("generator", "common_integer.c:intRandVal"), ("state files", "common_integer.c:intRandLoad / intRandSave")])
prop("C26", "Distributed graphs are built, checked and halo-exchanged exactly",
     "A distributed graph built from any distribution of a valid global graph is accepted by the distributed checker, describes exactly the global graph through its local, global and ghost numbering on every process, and a halo exchange delivers to each ghost vertex exactly the value its owner holds; corrupting any local datum makes the checker reject it on all processes.",
     ["inputs", "schedules", "configurations"], "every graph, distribution (including empty processes and index gaps), process count, data type, synchronous or asynchronous exchange",
     "Tests use fixed process counts and graphs, and compare little.",
     ["dgraph_build.c", "dgraph_check.c", "dgraph_ghst.c", "dgraph_halo.c", "library_dgraph.c", "library_dgraph_halo.c", "library_dgraph_build.c", "dgraph_build_grid3d.c", "dgraph_build_hcub.c"],
     [("ghost edge array", "dgraph_ghst.c"), ("halo exchange", "dgraph_halo.c"), ("checker", "dgraph_check.c")])
prop("C27", "Gathering, scattering, redistribution and files conserve the graph",
     "Gathering a distributed graph yields the global graph, scattering a centralized graph yields a distributed graph that gathers back to it, redistribution by any partition moves every vertex with its weights, label and edges to the requested process, and saved distributed graph files load back (in any number of files or processes) to the same global graph.",
     ["inputs", "configurations"], "every graph, distribution, root process, partition and process count",
     "Tests do not compare the graphs before and after.",
     ["dgraph_gather.c", "dgraph_gather_all.c", "dgraph_scatter.c", "dgraph_redist.c", "dgraph_io_load.c", "dgraph_io_save.c", "library_dgraph_gather.c", "library_dgraph_scatter.c", "library_dgraph_redist.c"],
     [("gather", "dgraph_gather_all.c"), ("scatter", "dgraph_scatter.c"), ("redistribution", "dgraph_redist.c"), ("files", "dgraph_io_load.c")])
prop("C28", "Distributed coarsening, induction, banding and growing are exact",
     "Distributed coarsening conserves vertices and weights and yields the quotient of the global graph; the subgraph induced by a part, the band graph around a frontier and the growing of parts from seeds match their definitions on the global graph, on every process.",
     ["inputs", "schedules", "configurations"], "every graph, distribution, seed set, distance, folding option and process count",
     "Tests check return codes and a few fixed cases.",
     ["dgraph_coarsen.c", "dgraph_match.c", "dgraph_match_sync_coll.c", "dgraph_induce.c", "dgraph_band.c", "dgraph_band_grow.c", "dgraph_fold.c", "dgraph_fold_dup.c", "library_dgraph_coarsen.c", "library_dgraph_induce.c", "library_dgraph_band.c", "library_dgraph_grow.c"],
     [("matching", "dgraph_match.c"), ("coarse graph", "dgraph_coarsen.c"), ("band graph", "dgraph_band.c"), ("growing", "dgraph_band_grow.c")])
prop("C29", "Distributed orderings are valid permutations with separating blocks",
     "A distributed ordering assigns every global vertex a distinct rank; its gathered form has inverse permutations, valid column blocks and a valid separator tree whose independent blocks are not adjacent, and saved ordering, mapping and tree files describe the same ordering.",
     ["inputs", "schedules", "configurations"], "every graph, distribution, process count, strategy and threading",
     "Tests run a few graphs on a few processes without examining the result.",
     ["library_dgraph_order.c", "library_dgraph_order_gather.c", "library_dgraph_order_perm.c", "library_dgraph_order_tree_dist.c", "dorder.c", "dorder_gather.c", "dorder_perm.c", "dorder_tree_dist.c", "dorder_io.c", "dorder_io_tree.c", "dorder_io_block.c", "hdgraph_order_nd.c", "vdgraph_separate_ml.c", "vdgraph_separate_bd.c"],
     [("parallel nested dissection", "hdgraph_order_nd.c"), ("gathering", "dorder_gather.c"), ("permutation", "dorder_perm.c")])
prop("C30", "Distributed mappings are complete, balanced and consistently reported",
     "A distributed partition or mapping gives every vertex of every process an existing part, with balance within tolerance on unit-weight graphs and a cut of useful quality, mapping files hold one line per vertex with its part, and reported statistics of the distributed graph and mapping equal independent recomputation.",
     ["inputs", "schedules", "configurations"], "every graph, distribution, target, process count and strategy",
     "Tests run one or two configurations without examining the result.",
     ["library_dgraph_map.c", "library_dgraph_map_view.c", "library_dgraph_stat.c", "dmapping.c", "dmapping_io.c", "kdgraph_map_rb.c", "kdgraph_map_rb_map.c", "kdgraph_map_rb_part.c", "bdgraph_bipart_ml.c", "bdgraph_bipart_bd.c", "bdgraph_bipart_df.c", "bdgraph_bipart_ex.c"],
     [("parallel recursive bipartitioning", "kdgraph_map_rb_part.c"), ("distributed mapping", "dmapping.c"), ("statistics", "library_dgraph_map_view.c")])
prop("C31", "Distributed runs are reproducible and ParMETIS calls are honoured",
     "With the deterministic option set, repeating a distributed computation in a context whose generator was seeded or reset alike gives identical results on every process, however messages are delayed; the ParMETIS-compatible entry points return valid distributed partitions (with the edge cut the partition really has) and orderings (on any number of processes; on powers of two with sizes that sum to the number of vertices and describe true separators), in either numbering, and leave their input unchanged.",
     ["inputs", "schedules", "configurations"], "every graph, distribution, numbering, weight flag and process count",
     "The tests call each entry point once.",
     ["src/libscotchmetis/parmetis_dgraph_part.c", "src/libscotchmetis/parmetis_dgraph_order.c", "dgraph_match.c", "dgraph_match_sync_ptop.c", "library_dgraph_order.c"],
     [("ParMETIS partitioning", "src/libscotchmetis/parmetis_dgraph_part.c"), ("ParMETIS ordering", "src/libscotchmetis/parmetis_dgraph_order.c"), ("deterministic communication", "dgraph_match_sync_coll.c")])


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        for f in p["anchors"]["files"]:
            if not os.path.exists(os.path.join("/repo", f)):
                print("missing anchor file", p["id"], f)
        assert len(p["title"]) <= 80, p["id"]
    na = [dict(property=p["id"], reason=NA.get(p["id"], "not built yet")) for p in P if p["id"] not in CHECKS]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        c = CHECKS.get(p["id"])
        if c:
            checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                               technique=c.get("technique", "runtime monitoring: the real library, built with AddressSanitizer, UndefinedBehaviorSanitizer and its own internal consistency assertions, run on generated workloads; an independent oracle judges every result"),
                               level=c["level"], level_note=c.get("note", c["rule"])))
    m = dict(version=1, setup_cmd="true", hooks=dict(guard="SCOTCH_VERIF", enable="no hook is compiled into the library; checks build /repo's sources with their own sanitizer flags", source_commits=[]),
             checks=checks, not_applicable=na, notes="Checks rebuild instrumented variants of /repo under /verif/.build (git-ignored). See DESIGN.md.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


NA = {"C20": "Fault injection under a sanitizer would be the technique, but the library breaks this property at very many of its failure points (strategy parser leaks, groups of allocations which free unset pointers), so that a monitor could only list known defects without telling new ones apart; memory return on success and on refused input is decided inside the other checks. See DESIGN.md."}
if __name__ == "__main__":
    main()
