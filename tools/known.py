import json,subprocess
log=dict(reversed(l.split(' ',1)) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s']).decode().splitlines())
def h(sub):
    for k,v in log.items():
        if sub in k: return v
    raise KeyError(sub)
F=[]
def fixed(p,sub,what): F.append(dict(status="fixed",property=p,commit=h(sub),line="fixed: property=%s %s %s"%(p,h(sub),what)))
fixed("C01","kgraphMapFm must reload","k-way Fiduccia-Mattheyses refinement overran its domain arrays after the mapping was recomputed (heap overflow)")
fixed("C11","archLoad must not call","loading an ill-formed architecture file called a missing freeing routine (jump to NULL)")
fixed("C13","single-terminal restrictions","restricting an architecture to a single terminal (archSub, archBuild2) failed or read uninitialised memory")
fixed("C13","archDeco2DomDist index of the vertex of a nested","distance between nested domains of a type-2 decomposition-defined architecture read out of bounds")
fixed("C13","archDecoBuild must not un-base","decomposition-defined architecture built from a graph of base other than 0 indexed out of bounds")
fixed("C02","archDecoDomTerm returned","fixed vertices and old mappings on decomposition-defined architectures used the domain before the requested one")
fixed("C13","archDeco2DomDist debug check","distance between nested type-2 domains was rejected by a misplaced debug check")
fixed("C13","archDeco2DomDist index of the vertex of a common","distance between type-2 domains used a wrong vertex for the common ancestor")
fixed("C19","unbalanced barriers","threads of the diffusion k-way method left at different barriers, using freed stack data of the others")
fixed("C02","kgraphMapRbVfloSplit misclassified","recursive bipartitioning misclassified the last fixed vertex slot, so that a fixed vertex ended in another part")
fixed("C02","kgraphBand must start from the base","k-way band graphs of graphs of base other than 0 linked anchors to the wrong fixed vertices (out-of-bounds access)")
fixed("C02","bgraphBipartGp overran","Gibbs-Poole-Stockmeyer bipartitioning ran past the vertex array when part 1 cannot be filled")
fixed("C02","bgraphZero must not count","bipartition loads counted the fixed vertices of the other side")
fixed("C04","graphMapView must consider all based","part diameters ignored the last vertices of graphs of base other than 0")
fixed("C04","graphRemapView must base","remapping statistics used the old mapping un-based and measured no migration distance")
fixed("C04","graphMapView must not renumber","displaying the statistics of a mapping changed the part numbers of the mapping")
fixed("C13","archMeshXDomDist must not","distances of multi-dimensional meshes were those of a torus")
fixed("C13","archTleafDomIncl must test","a tree-leaf domain was said to include any domain it overlaps")
fixed("C06","hgraphOrderBl must split","block splitting re-ran the strategy on blocks already ordered and used wrong weights (out-of-bounds accesses, invalid orderings)")
fixed("C06","hgraphOrderCc must start","ordering by connected components below another method overwrote the first columns of the ordering")
fixed("C06","vgraphSeparateEs must propagate","edge separation method dereferenced a null context")
fixed("C06","hgraphOrderNd must return","failures of leaf orderings were reported as success")
fixed("C06","hgraphOrderKp must propagate","k-way ordering method dereferenced a null context")
fixed("C06","hgraphOrderCp must place","graph compression below another method overwrote the first columns of the ordering: SCOTCH_STRATDISCONNECTED gave invalid permutations")
fixed("C06","hallOrderHdR2Halmd must account","minimum degree ordering failed on weighted graphs with isolated vertices")
fixed("C06","graphOrderComputeList must drop","ordering graphs with edge loads failed in debug mode and invalid orderings were reported as success")
fixed("C06","vgraphSeparateFm must not loop","vertex separation refinement looped forever on graphs with a heavy vertex")
fixed("C16","graphColor must not give","neighbours colored in the same round received the same color: colorings were not proper")
fixed("C14","graphCoarsenMatch must tell","graphCoarsenMatch returned 0 although the contraction ratio was not enforced")
fixed("C15","graphInduceList and graphInducePart must yield","partitioning or ordering an induced graph wrote out of bounds (indices of the original graph were used), and part arrays were misread for context-bound graphs")
fixed("C09","mesh vertex group flag","freeing a labelled mesh read from a file freed an inner part of an array group")
fixed("C09","mesh files must round-trip","loading a mesh with another base value gave wrong edges; isolated elements were not counted; labels were shifted; element loads were saved in place of node loads")
fixed("C09","Harwell-Boeing mesh loading must set","meshes read from Harwell-Boeing files had a null element load sum and failed meshCheck")
fixed("C09","geometry loading must set","SCOTCH_geomData returned dimension 0 after geometry loading; arrays of a previous geometry were overrun; indices of based graphs and labels of meshes were mismatched; supernumerary coordinates were refused")
fixed("C09","Matrix Market loading must not","loading a Matrix Market graph with base above 1 and isolated last vertices wrote past the vertex array")
fixed("C09","Harwell-Boeing format parser","Harwell-Boeing files with skip specifications were refused")
fixed("C09","meshLoad must keep access","loading a mesh whose first kind of vertices has unit weights dereferenced a null load array")
def known(p,job,key,what): F.append(dict(status="known",property=p,job=job,key=key,what=what))
fixed("C25","distinct process numbers must yield","process numbers 2k+1 and 2k+2 gave the same pseudo-random sequence for a given seed")
fixed("C08","graphCheck and meshCheck must validate","checking a graph or a mesh one vertex of which has an index below the base read the adjacency arrays out of bounds instead of reporting it")
known("C06","zero","^(asan|ubsan|crash|call-failed|signal|assert)","ordering a graph having vertices of null weight (inputs of the 'zero' job: graphOrder with strategies f{cmin=0,cmax=1000,frat=0.0} and d{...}) overruns the work arrays of the minimum fill and minimum degree methods")
fixed("C10","graphTabLoad read the labels","reading a mapping file of a labelled graph with base above 0 read past the label array")
fixed("C10","orderLoad trusted","loading an ordering refused reordered lines, and overran its arrays or yielded invalid permutations on bad counts, indices or duplicates")
fixed("C10","loaded deco 2 architectures","saving a loaded type-2 decomposition-defined architecture wrote too few or too many domains")
fixed("C10","mesh ordering files bore","mesh ordering files bore the labels of elements when elements come first")
fixed("C10","saved hypercubes of dimension 0","saved hypercubes of dimension 0 could not be loaded")
fixed("C10","failed loadings of sub-architectures","a sub-architecture file that cannot be loaded freed unset pointers")
fixed("C17","hmeshOrderCp mis-indexed","compression of weighted meshes wrote and read out of bounds")
fixed("C17","hmeshOrderCp did not handle","compression of meshes with isolated nodes failed (or indexed out of bounds without debug checks)")
for k,w in (("hmeshMesh must copy all halo nodes","halo meshes turned into meshes lost edges of halo nodes"),
 ("hmeshOrderBl must not re-order","blocks already ordered were ordered twice"),
 ("meshOrderComputeList must not report","invalid mesh orderings were reported as success"),
 ("meshGraphDual must provide","dual graphs of weighted meshes had an inconsistent load sum"),
 ("meshGraph debug edge array","building the node graph of meshes of small degree wrote past the edge array in debug mode"),
 ("meshInduceSepa must use","ordering separators of weighted meshes read out of bounds"),
 ("meshCoarsen wrong number","multilevel ordering of meshes which have nodes first crashed"),
 ("meshCoarsen must not write","ordering wrote debugging traces on standard error"),
 ("meshCoarsen must keep nodes","multilevel ordering of meshes having isolated nodes read out of bounds"),
 ("meshCoarsen must stop","multilevel ordering of meshes which can no longer be coarsened never ended"),
 ("hmeshOrderHxFill must use","minimum degree and fill methods read element loads with node indices"),
 ("hmeshOrderHxFill must set","external degrees of isolated nodes were not set"),
 ("hmeshOrderHxFill must flag","isolated halo nodes of weighted meshes were not recognized"),
 ("hmeshOrderHd and hmeshOrderHf must index","column weights of meshes were misplaced"),
 ("hmeshOrderHd and hmeshOrderHf must handle","allocation failures were ignored"),
 ("hmeshOrderGr must pass","ordering meshes through graphs dereferenced a null context"),
 ("hgraphInduceList must not read","nested dissection of graphs of halo meshes read vertex numbers out of bounds"),
 ("mesh coarsening strategies must not","matching types s and n indexed the table of matching functions out of bounds"),
 ("minimum degree and fill methods must eliminate","part of the nodes of meshes were never ordered by the minimum degree and fill methods: failures, crashes and out of bounds writes"),
 ("hmeshOrderHxFill must compute weighted","degrees of weighted meshes could become negative and index out of bounds"),
 ("hmeshOrderHxFill must not give isolated","minimum degree and fill methods looped forever on meshes with isolated elements")): fixed("C17",k,w)
for k,w in (
 ("graphPartOvl: initialize partition","partitioning with overlap started from an uninitialized partition: out of bounds accesses"),
 ("wgraphPartEs: only consider existing","partitioning with overlap based on edge separation read domains which do not exist"),
 ("wgraphPartRb: handle empty subparts","partitioning with overlap failed or read wild memory when a subpart was empty"),
 ("vgraphSeparateEs must account for part weights","imbalance of unequal parts was wrong after edge separation")): fixed("C05",k,w)
for k,w in (
 ("bgraphBipartSt band method lacks","saving or running a bipartitioning band method without org strategy dereferenced a null pointer"),
 ("stratTestSave must parenthesize","saved conditions lost the parentheses of their operands: (a+b)*c became a+b*c"),
 ("stratSave must not lose precision","saved floating-point values lost digits or became integers"),
 ("condition variable mdeg","conditions on mdeg read an integer as a floating-point number"),
 ("parser location must not account","reporting a parse error in a string with blanks read past its end"),
 ("strategy parser must refuse missing","a missing numeric value was accepted and a pointer was stored in its place"),
 ("strategy parser error report","parse errors within a nested strategy dereferenced a null pointer")): fixed("C12",k,w)
fixed("C18","archDecoArchBuild must handle edge loads","building a decomposition-defined architecture from an edge-weighted graph with gaps in its edge array wrote out of bounds")
fixed("C18","contextOptionSetNum must switch","setting a context option by number misread the option, and the deterministic option did not imply the fixed seed")
fixed("C18","do not let results depend on whether edge array moves","k-way FM refinement gave other results when a work array happened to grow in place")
fixed("C19","remove data race on return value","graphCoarsen3: thread 0 wrote the return value while other threads were reading it")
for k,w in (("do not dereference a null ubvec","METIS_V5_PartGraphRecursive crashed when ubvec was NULL"),
 ("return the communication volume when it is the objective","the volume objective was ignored by the v5 partitioning routines, which returned the edge cut"),
 ("turn part weights into integers","irregular target part weights were turned into wrong, overflowing or null integer weights"),
 ("refuse the node index just past","METIS_MeshToDual read out of bounds on a node index just past the last one"),
 ("do not move a negative amount","METIS_MeshToDual moved a negative amount of data on meshes without nodes"),
 ("accept the volume objective without","METIS_PartMeshDual crashed on the volume objective without communication sizes"),
 ("give isolated nodes a part","METIS_PartMeshDual gave isolated nodes part 0 in one-based numbering")): fixed("C21",k,w)
for k,w in (("reserve room for the diagonal","symbolic factorization overran its temporary area by up to two blocks"),
 ("use the existing name of the HAMD","strategies built by esmumps_strat1 for HAMD were refused by the parser"),
 ("account for the base value in the size","symbolic factorization reported an integer overflow when the base was larger than the block array")): fixed("C22",k,w)
for k,w in (("convert labels of all edge ends when edge arrays are not compact","dgraphBuild converted only the first edgelocnbr cells of non-compact edge arrays of labelled graphs"),
    ("dgraphCheck: check edge starts","dgraphCheck did not check vertex start indices, and checked edge loads only when some process had a ghost array"),
    ("dgraphCheck: refuse loops","dgraphCheck accepted loops and edge ends that are no vertices")): fixed("C26",k,w)
for k,w in (("keep permuted edge data from overwriting","dgraphRedist with a permutation overwrote received data that was still to be read"),
    ("dgraphLoadCent: propagate header errors","dgraphLoadCent hung or overflowed on header errors, and wrote unwanted vertex loads beyond its array"),
    ("dgraphLoadCent: keep edge load arrays consistent","dgraphLoadCent refused valid edge-weighted files when some process had no edges")): fixed("C27",k,w)
fixed("C28","SCOTCH_dgraphBand: do not use vertex labels as vertex indices","dgraphBand on labelled graphs read outside arrays")
fixed("C28","SCOTCH_dgraphBand: set vertex load sum of band graphs","band graphs without vertex loads had a zero load sum")
fixed("C28","dgraphBandGrow: set index of last level when distance is zero","dgraphBand with distance 0 used an uninitialized index")
fixed("C28","dgraphBandGrow: account for size of data in debug check","dgraphGrow failed with an internal error in debug builds")
fixed("C28","SCOTCH_dgraphGrow: release context on error","dgraphGrow left the context locked on error")
fixed("C28","SCOTCH_dgraphCoarsen: do not copy multinode data when there are none","dgraphCoarsen with folding copied from a null array when the graph was not coarsened")
fixed("C28","dgraphBandGrowPtop: let calling routine free index array","double free after an error in the point-to-point version")
fixed("C28","dgraphFoldComm: do not set up communications for processes which keep all of their vertices","folding failed with an internal error when the last receiver keeps its vertices")
fixed("C29","hgraphOrderBl2 keeps blocks left unsplit","a weighted block left unsplit by blocking became a node with a single son")
fixed("C29","number fathers of distributed elimination trees from base value","dgraphOrderTreeDist returned unbased fathers on based graphs")
fixed("C29","based label arrays in distributed ordering files","saving distributed orderings of labelled based graphs wrote past the label array")
fixed("C29","dorderSaveBlock leaks its range array","dgraphOrderSaveBlock leaked memory and lost write errors")
fixed("C29","dorderPerm uses compact numbering for empty orderings","identity permutation of graphs with holes was not a permutation")
fixed("C29","distributed orderings of non-compact graphs and of graphs with holes","ordering such graphs failed with internal errors")
fixed("C29","dorderFree resets number of local column blocks","computing an ordering again in the same structure failed on gathering")
fixed("C29","hdgraphOrderNd returns status of leaf orderings","errors of leaf orderings were lost and column blocks leaked")
fixed("C29","dgraphGatherAll of graphs whose compactness differs across processes","wrong centralized graph or deadlock when only some processes hold compact graphs")
fixed("C29","vdgraphSeparateDf accepts isolated separator vertices","deadlock on isolated separator vertices in band graphs")
fixed("C30","dgraphStat computes edge load extrema","SCOTCH_dgraphStat reported garbage edge load extrema, half the average, NaN deviations of graphs without edges")
fixed("C30","dgraphMapView computes CommDelta","CommDelta printed by SCOTCH_dgraphMapView did not depend on the mapping")
fixed("C30","dmapSave saves labels of based graphs","heap overflow saving mappings of labelled based graphs, wrong vertices when the numbering has holes")
fixed("C30","bdgraphBipartBd keeps band graph balance","uninitialised ghost parts and inconsistent average loads of distributed band graphs")
fixed("C30","bdgraphBipartEx uses up to date ghost parts","stale ghost parts used to compute gains")
fixed("C30","kdgraphMapRbPart handles absent part arrays","crash when a graph is not bipartitioned; inconsistent load bounds for large imbalance ratios")
fixed("C30","dgraphMapCompute discards previous mapping","computing a mapping twice failed; deadlock when a sequential part fails on some processes")
fixed("C31", "ParMETIS_V3_NodeND succeeds whatever", "ParMETIS_V3_NodeND reported an error, with a valid ordering, on process counts which are not powers of two or without an array of sizes")
fixed("C31", "ParMETIS_V3_PartKway reports failures", "ParMETIS_V3_PartKway returned an uninitialized edge cut for graphs without edges and success after failures")
fixed("C31", "ParMETIS target weights converted", "target weights given to ParMETIS_V3_PartKway were turned into integers that were not proportionate")
for k,w in (
    ("gmap and gpart read the vertex migration cost file","gmap and gpart truncated the file of vertex migration costs instead of reading it"),
    ("atst displays the smallest distance","atst reported a null smallest distance and counted pairs twice"),
    ("mord saves the separator tree","mord had no documented option -t"),
    ("gout draws matrices without reading","gout read outside of arrays when drawing matrices"),
    ("gout does not write past the end","gout overran the edge array of graphs with coordinates"),
    ("gout writes Tulip meshes of graphs","gout wrote wrong vertex numbers in Tulip meshes of based graphs"),
    ("amk_grf takes the base value","amk_grf read outside of arrays for lists of vertices of labelled based graphs")): fixed("C24",k,w)
for k,w in (
    ("intLoad refuses values which do not fit","integers too large overflowed silently"),
    ("graphLoad refuses malformed","malformed graph files caused out-of-bounds accesses and overflows"),
    ("archLoad of weighted complete graphs frees","leak on truncated weighted complete graph files"),
    ("archLoad of sub-architectures refuses terminals","out-of-bounds terminals crashed sub-architectures"),
    ("Chaco graph loading checks","malformed Chaco headers caused overruns"),
    ("MatrixMarket graph loading checks","malformed MatrixMarket headers caused overruns"),
    ("meshLoad refuses malformed","malformed mesh files caused out-of-bounds accesses"),
    ("meshes which could not be loaded can be freed","freeing a mesh that failed to load crashed"),
    ("archLoad of tree-leaf architectures refuses","malformed tree-leaf files leaked or overflowed"),
    ("archLoad refuses meshes and hypercubes","sizes of huge meshes and hypercubes overflowed"),
    ("archLoad of decomposition-defined architectures refuses","malformed decomposition files caused out-of-bounds accesses and leaks"),
    ("graphGeomLoadScot refuses","geometry files with too many coordinates overran the array"),
    ("graphTabLoad ignores labels below","labels far below the base overflowed"),
    ("archLoad of sub-architectures refuses duplicate","duplicate terminals made inconsistent sub-architectures and a leak"),
    ("debugging check of archMeshXMatchMate","debug check overflowed on huge meshes")): fixed("C11",k,w)
fixed("C23","scotchfstratgraphorderbuild does not exchange","the flags and the number of levels were exchanged by the Fortran routine")
fixed("C23","Fortran routines which induce graphs take","arguments taken by value, that is, addresses used as numbers")
fixed("C23","CMake build provides the Fortran routines which induce","the routines were missing from the CMake build")
json.dump(dict(findings=F),open('/verif/known_findings.json','w'),indent=1)
