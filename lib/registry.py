"""What each check runs."""
CHECKS = {}
CHECKS["C01"] = dict(level="exploration", rule="random graph x architecture x strategy x call; non-trivial: at least two parts used",
    jobs=[dict(name="map", variant="asan", src="c01_map.cpp", quick=4000, thorough=60000)])
CHECKS["C02"] = dict(level="exploration", rule="random graph x architecture x strategy x fixed pattern x optional old mapping; non-trivial: some vertices fixed and some free",
    jobs=[dict(name="fixed", variant="asan", src="c02_fixed.cpp", quick=5000, thorough=80000)])
CHECKS["C04"] = dict(level="exploration", rule="random graph, mesh, mapping or overlap partition whose displayed figures are all recomputed; non-trivial: some figure compared",
    jobs=[dict(name="stat", variant="asan", src="c04_stat.cpp", quick=12000, thorough=200000)])
CHECKS["C13"] = dict(level="exploration", rule="random architecture of every class, its whole domain tree and distance table walked; non-trivial: at least two terminals",
    jobs=[dict(name="arch", variant="asan", src="c13_arch.cpp", quick=8000, thorough=150000)])
CHECKS["C06"] = dict(level="exploration", rule="random graph x ordering strategy x entry point; non-trivial: more than one column block",
    jobs=[dict(name="order", variant="asan", src="c06_order.cpp", quick=5000, thorough=80000),
          dict(name="zero", variant="asan", src="c06_order.cpp", tag="_zero", flags=["-DZEROW"], quick=1, thorough=1)])
CHECKS["C07"] = dict(level="exploration", rule="random graph x ordering strategy; non-trivial: some edge joins two column blocks",
    jobs=[dict(name="separ", variant="asan", src="c06_order.cpp", tag="_sep", flags=["-DSEPARATION"], quick=5000, thorough=80000)])
CHECKS["C14"] = dict(level="exploration", rule="random graph x ratio x minimum x flags x entry point x threads, quotient recomputed; non-trivial: some vertices merged",
    jobs=[dict(name="coarsen", variant="asan", src="c14_graph.cpp", quick=12000, thorough=200000)])
CHECKS["C15"] = dict(level="exploration", rule="random graph x vertex list or part; non-trivial: a proper induced subgraph with edges",
    jobs=[dict(name="induce", variant="asan", src="c14_graph.cpp", tag="_ind", flags=["-DINDUCE"], quick=12000, thorough=200000)])
CHECKS["C16"] = dict(level="exploration", rule="random graph colored, measured and rebased; non-trivial: graph with edges",
    jobs=[dict(name="color", variant="asan", src="c14_graph.cpp", tag="_col", flags=["-DCOLOR"], quick=8000, thorough=150000)])
CHECKS["C25"] = dict(level="exploration", rule="random history of draws, resets, seedings, process numbers, saves and loads, judged against the recorded sequences; non-trivial: every history",
    jobs=[dict(name="random", variant="asan", src="c25_random.cpp", quick=20000, thorough=400000)])
CHECKS["C08"] = dict(level="exploration", rule="random graph, mesh or ordering, valid or with one or two corruptions, judged by independent rules; non-trivial: a corruption that breaks a rule",
    jobs=[dict(name="check", variant="asan", src="c08_check.cpp", quick=40000, thorough=800000)])
CHECKS["C09"] = dict(level="exploration", rule="random graph, mesh or geometry saved and reloaded, or written independently in one of the supported formats and loaded; non-trivial: at least one edge or coordinate",
    jobs=[dict(name="io", variant="asan", src="c09_io.cpp", quick=24000, thorough=400000)])
CHECKS["C10"] = dict(level="exploration", rule="random mapping, ordering or architecture saved, its file read independently, altered (lines reordered, lacking, added) and loaded; non-trivial: every file with at least one line",
    jobs=[dict(name="files", variant="asan", src="c10_io.cpp", quick=16000, thorough=300000)])
CHECKS["C17"] = dict(level="exploration", rule="random mesh turned into its node or dual graph, or ordered; results compared with brute-force definitions; non-trivial: mesh with shared nodes or ordering with several adjacent blocks",
    jobs=[dict(name="mesh", variant="asan", src="c17_mesh.cpp", quick=12000, thorough=200000)])
CHECKS["C05"] = dict(level="exploration", rule="random graph x number of parts x overlap strategy; every edge checked against the separation, loads and separator sizes bounded on regular graphs; non-trivial: at least two parts used",
    jobs=[dict(name="ovl", variant="asan", src="c05_ovl.cpp", quick=8000, thorough=150000)])
CHECKS["C12"] = dict(level="exploration", rule="random strategy tree written in free layout, or damaged, or built by a builder; saved text read by an independent parser and compared in meaning, conditions evaluated, both forms executed; non-trivial: accepted strategy compared, or a broken rule refused",
    jobs=[dict(name="strat", variant="asan", src="c12_strat.cpp", quick=16000, thorough=300000)])
CHECKS["C21"] = dict(level="exploration", rule="random graph or mesh through every v3 and v5 entry point, in both numberings; permutations, parts, objective, dual graph and inputs compared with brute force; non-trivial: more than three vertices or several parts",
    jobs=[dict(name="v3", variant="asan", src="c21_metis.cpp", flags=["-DMV=3"], tag="v3", libs=["scotchmetisv3", "scotch"], targets=["scotch", "scotchmetisv3"], quick=7000, thorough=120000),
          dict(name="v5", variant="asan", src="c21_metis.cpp", flags=["-DMV=5"], tag="v5", libs=["scotchmetisv5", "scotch"], targets=["scotch", "scotchmetisv5"], quick=7000, thorough=120000)])
CHECKS["C22"] = dict(level="exploration", rule="random graph ordered for a solver, or factored symbolically in a random ordering; tree, fronts and block structure compared with exact fill; non-trivial: several blocks with off-diagonal rows",
    jobs=[dict(name="esmumps", variant="asan", src="c22_esmumps.cpp", flags=["-I/repo/src/esmumps"], libs=["esmumps", "scotch"], targets=["scotch", "esmumps"], quick=9000, thorough=150000)])
_RWRAP = ["-Wl,--wrap=malloc,--wrap=realloc"]
CHECKS["C18"] = dict(level="exploration", rule="random computation repeated after unrelated computations and memory changes, in another process, in seeded contexts and with several threads under the deterministic option; non-trivial: result with more than a few values",
    jobs=[dict(name="determ", variant="fast", src="c18_determ.cpp", ldflags=_RWRAP, quick=6000, thorough=200000),
          dict(name="resize", variant="dbg", src="c18_determ.cpp", ldflags=_RWRAP, quick=4000, thorough=120000),   # debug builds start with small work arrays
          dict(name="memcheck", variant="fast", src="c18_determ.cpp", ldflags=_RWRAP, prefix=["valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=99"], env={"NOTHREADS": "1"}, quick=1200, thorough=40000)])
_WRAP = ["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_cond_wait,--wrap=pthread_cond_broadcast", "-pthread"]
_SUPP = __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "tsan.supp")
CHECKS["C19"] = dict(level="exploration", rule="random team operations, concurrent calls on distinct objects, or multi-threaded calls, with delays injected around synchronization; non-trivial: several threads took part",
    jobs=[dict(name="tsan", variant="tsan", src="c19_thread.cpp", nshard=16, ldflags=_WRAP, env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1:suppressions=" + _SUPP}, quick=600, thorough=20000),
          dict(name="plain", variant="fast", src="c19_thread.cpp", nshard=16, ldflags=_WRAP, quick=3000, thorough=100000)])
_PTL = dict(variant="ptasan", libs=["ptscotch", "scotch"], targets=["ptscotch", "scotch"], hang=60, nprocs=[(1, .1), (2, .25), (3, .25), (4, .2), (6, .2)])
CHECKS["C26"] = dict(level="exploration", rule="random graph x distribution x number of processes x delays, valid or with one corruption, and generated grids; non-trivial: some ghost vertex, or a corruption",
    jobs=[dict(_PTL, name="dgraph", src="c26_dgraph.cpp", quick=5000, thorough=60000)])
CHECKS["C27"] = dict(level="exploration", rule="random graph x distribution x number of processes x delays x operation (gather, scatter, redistribution, saved fragments, centralized files, damaged files); non-trivial: at least one vertex",
    jobs=[dict(_PTL, name="dist", src="c27_dist.cpp", quick=4500, thorough=50000)])
CHECKS["C28"] = dict(level="exploration", rule="random graph x distribution x number of processes x delays x operation (coarsening with or without folding, induction, band, growing); non-trivial: some vertices matched, kept, banded or reached, not all",
    jobs=[dict(_PTL, name="coarsen", src="c28_coarsen.cpp", quick=4500, thorough=50000)])
CHECKS["C29"] = dict(level="exploration", rule="random graph x distribution x number of processes x delays x ordering strategy, observed as distributed permutation, distributed tree, centralized ordering and files; non-trivial: some distributed dissection node",
    jobs=[dict(_PTL, name="dorder", src="c29_dorder.cpp", quick=3000, thorough=40000)])
CHECKS["C30"] = dict(level="exploration", rule="random graph x distribution x number of processes x delays x target x mapping strategy; parts, balance, cut, saved mapping and all statistics compared with independent recomputation; non-trivial: several parts used",
    jobs=[dict(_PTL, name="dmap", src="c30_dmap.cpp", quick=3000, thorough=40000)])
_PMTL = dict(_PTL, src="c31_prep.cpp", libs=["ptscotchparmetisv3", "ptscotch", "scotch"], targets=["ptscotch", "scotch", "ptscotchparmetisv3"])
CHECKS["C31"] = dict(level="exploration", rule="random graph x distribution x number of processes, either a ParMETIS-compatible call or one computation run three times under the deterministic option with different message delays and memory contents; non-trivial: several parts, domains or result values",
    jobs=[dict(_PMTL, name="prep", quick=2500, thorough=40000)])
CHECKS["C03"] = dict(level="exploration", rule="random regular graph (grids, tori, hypercubes, paths, trees) x numbering x target x default or built strategy x threads; balance, empty parts, cut, dilation and operation count against analytical references; all cases non-trivial",
    jobs=[dict(name="quality", variant="fast", src="c03_quality.cpp", quick=2500, thorough=60000)])
_PROGS = "acpl amk_ccc amk_fft2 amk_grf amk_hy amk_m2 amk_p2 atst gbase gcv gmap gmk_hy gmk_m2 gmk_m3 gmk_msh gmk_ub2 gmtst gord gotst gscat gtst mcv mmk_m2 mmk_m3 mord mtst gout gpart".split()
CHECKS["C23"] = dict(level="exploration", rule="random call made through the C routine and through the Fortran-callable routine on equal data and from the same random state; non-trivial: a result was produced and compared",
    jobs=[dict(name="fortran", variant="asan", src="c23_fortran.cpp", quick=20000, thorough=300000)])
CHECKS["C24"] = dict(level="exploration", rule="random files given to a random program, run as a process; exit status, output files (plain, compressed or streamed) and figures compared with independent recomputation; non-trivial: every run",
    jobs=[dict(name="cli", variant="asan", src="c24_cli.cpp", targets=["scotch"] + _PROGS, quick=4000, thorough=100000)])
_C11E = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=66:quarantine_size_mb=16:malloc_context_size=8:max_allocation_size_mb=512"}
CHECKS["C11"] = dict(level="exploration", rule="a valid file of graph, mesh, architecture, mapping, partition, ordering or geometry, damaged in one to four places, given to its loader; refusal or a structure accepted by the checker, all memory returned; non-trivial: file refused",
    jobs=[dict(name="damage", variant="asan", src="c11_malformed.cpp", env=_C11E, hang=20, quick=60000, thorough=1500000),
          dict(name="release", variant="asannd", src="c11_malformed.cpp", flags=["-DNODEBUG"], env=_C11E, hang=20, quick=60000, thorough=1500000)])
