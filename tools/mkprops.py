#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single place where the property texts live).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Every mesh handed back is a valid conforming mesh",
 "For every valid input mesh, metric, level-set and legal option set, a run of any of the three remeshers that ends in success or in the 'mesh can still be saved' status hands back a conforming mesh: finite coordinates, in-range distinct vertex indices, strictly positive element measures, every face (edge in 2D) shared by at most two elements lying on opposite sides, no duplicated entity and no vertex outside of every element. Every boundary or interface face is listed exactly once as a triangle (edge in 2D and for surfaces), and every listed triangle or edge is a face or edge of the mesh. Legal inputs are not refused beyond rare documented limitations.",
 ["inputs", "configurations"], "all input meshes x metrics x level-sets x legal option vectors, 3 modules",
 "48 tests run ~30 fixed meshes and only look at the return code; validity must hold for every mesh and option combination, and no test inspects the output topology.",
 ["src/mmg3d/libmmg3d.c", "src/mmgs/libmmgs.c", "src/mmg2d/libmmg2d.c", "src/mmg3d/hash_3d.c", "src/mmg3d/split_3d.c", "src/mmg3d/colver_3d.c", "src/mmg3d/swap_3d.c", "src/mmg2d/mmg2d1.c", "src/mmgs/mmgs1.c"],
 [("local operators check volume/quality of the simulated configuration before applying it", "MMG3D_split*_sim, MMG5_chkcol_int/bdy, MMG5_chkswpgen, MMG2D_chkcol, chkcol (mmgs)"), ("boundary reconstruction and packing of the final mesh", "MMG3D_packMesh, MMG5_bdryBuild, MMG2D_pack, MMGS_packMesh")],
 ["MMG*_Get_* after MMG3D_mmg3dlib / mmg3dls / MMGS_mmgslib / mmgsls / MMG2D_mmg2dlib / mmg2dls"])

prop("C02", "The domain, its subdomains and their references are preserved",
 "Remeshing never changes the meshed region: for a polyhedral (polygonal in 2D) domain the output covers exactly the input domain, each reference keeps its measure, its number of connected components, its Euler characteristic and its boundary, and every boundary, interface or line reference keeps its support. No element, triangle or edge reference appears that the input did not contain. When only one subdomain is requested, the output is exactly that subdomain.",
 ["inputs", "configurations"], "all piecewise-flat multi-domain meshes (3D, surface, 2D) x metrics x remeshing options",
 "Tests never compare input and output measures, references or topology; a lost sliver, a swapped reference or a filled hole still returns success.",
 ["src/mmg3d/mmg3d1.c", "src/mmg3d/hash_3d.c", "src/mmg3d/split_3d.c", "src/mmg3d/colver_3d.c", "src/mmg2d/mmg2d1.c", "src/mmgs/mmgs1.c", "src/common/tools.c"],
 [("new elements inherit the reference of the split element; boundary entities carried by xtetra", "MMG5_split*, MMG5_colver, MMG5_swp*"), ("boundary triangles/edges rebuilt with their references", "MMG5_bdryTria, MMG5_bdrySet, MMG5_bdryUpdate"), ("subdomain selection", "MMG3D_keep_only1Subdomain, MMG5_mark_usedVertices")],
 ["MMG*_Get_* on the output mesh"])

prop("C03", "Entities the user marks as required are never modified",
 "Every vertex marked required (or corner) in the input is present in the output at the same position (up to rounding), every required edge, triangle and tetrahedron is present with the same vertices and reference, and each is still reported as required. With surface modifications forbidden, the whole boundary is returned with the same vertices, edges and triangles. Prisms and quadrilaterals, which are never remeshed, come back unchanged.",
 ["inputs", "configurations"], "all subsets of entities marked required x meshes x options, remeshing mode",
 "Two tests load files with a few required entities and none compares them with the output; the guarantee is over every subset and every operator.",
 ["src/mmg3d/mmg3d1.c", "src/mmg3d/analys_3d.c", "src/mmg3d/colver_3d.c", "src/mmg2d/analys_2d.c", "src/mmg2d/hash_2d.c", "src/mmgs/analys_s.c", "src/mmgs/colver_s.c", "src/common/API_functions_private.h"],
 [("MG_REQ tags tested by every operator", "MMG5_movtet, MMG5_coltet, MMG5_adptet, MMG2D_movtri, movtri, coltri"), ("tags carried through packing", "MMG3D_packMesh, MMG2D_pack, MMGS_packMesh")],
 ["MMG*_Get_vertices/edges/triangles/tetrahedra/prisms/quadrilaterals"])

prop("C04", "The boundary geometry is approximated within the prescribed distance",
 "Wherever remeshing places boundary or feature vertices, they stay on the input geometry: exactly on planes, straight ridges and straight interfaces, and within the prescribed Hausdorff distance (up to a small constant factor) of the smooth surface that a curved input mesh samples. Corners, ridges (given or detected from the dihedral angle) and lines between differently referenced surface pieces remain at the same place and are reported as such. Smaller prescribed distances give closer approximations.",
 ["inputs", "configurations"], "all flat and analytic curved geometries x hausd / angle / size options",
 "Tests do not measure any distance between the output surface and the input surface.",
 ["src/mmg3d/analys_3d.c", "src/mmgs/analys_s.c", "src/mmg3d/bezier_3d.c", "src/mmgs/bezier_s.c", "src/common/boulep.c", "src/mmg2d/bezier_2d.c", "src/mmg3d/movpt_3d.c", "src/mmg3d/isosiz_3d.c"],
 [("cubic Bezier patch evaluation of new surface points", "MMG3D_bezierInt, MMGS_bezierInt, MMG2D_bezierCurv"), ("ridge/corner detection", "MMG5_setdhd, MMG5_singul"), ("collapse and swap geometric checks against hausd", "MMG5_chkcol_bdy, MMG5_chkswpbdy, chkswp")],
 ["distance from output boundary entities to the exact geometry"])

prop("C05", "Each switched-off mesh operator is really off",
 "With insertion forbidden the vertex set only ever moves (no vertex is created or destroyed), with relocation forbidden every surviving vertex keeps its position up to rounding (unless the user explicitly asks for a regularization of the vertex positions), and with surface modification forbidden the boundary is untouched. With insertion, swapping and relocation all forbidden, the mesh comes back unchanged: same vertices, same elements, same references. These hold for every mesh, metric and remaining option.",
 ["inputs", "configurations"], "all meshes x metrics x all combinations of the four operator switches",
 "A few tests pass -noinsert/-nomove but only look at the exit status.",
 ["src/mmg3d/mmg3d1.c", "src/mmg3d/mmg3d1_delone.c", "src/mmg3d/mmg3d1_pattern.c", "src/mmgs/mmgs1.c", "src/mmg2d/mmg2d1.c"],
 [("info.noinsert / noswap / nomove / nosurf tests around each operator", "MMG5_adptet, MMG5_anatet, MMG5_optet, MMG5_optetLES, MMG2D_mmg2d1n, MMG5_mmgs1")],
 ["MMG*_Get_* on the output mesh compared with the input"])

prop("C06", "The size map respects the user's bounds, local sizes and gradation",
 "For every mesh and metric, the size map returned with the mesh has one finite entry per vertex, is positive (definite), lies within the global or local minimum and maximum sizes, never exceeds the size the user prescribed at that vertex (after truncation by the bounds), equals the requested constant when a constant size is requested, and between the two ends of every edge varies no faster than the prescribed gradation allows; on flat domains isotropic sizes are exactly the prescribed ones after truncation and gradation, and anisotropic ones agree with them approximately. Required entities and unmodified surfaces, whose sizes come from their own edges, and corners and non-manifold vertices with respect to local bounds, are exempt. The size-computation services (constant size, mean-edge-length map, local sizes around references) obey the same contract. Size limits given for one reference act on that reference and on no other.",
 ["inputs", "configurations"], "all meshes x metrics x hmin/hmax/hsiz/hgrad/hgradreq/local parameters, 3 modules",
 "Tests never read the returned metric back.",
 ["src/common/isosiz.c", "src/common/anisosiz.c", "src/common/scalem.c", "src/mmg3d/isosiz_3d.c", "src/mmg3d/anisosiz_3d.c", "src/mmg2d/isosiz_2d.c", "src/mmg2d/anisosiz_2d.c", "src/mmgs/isosiz_s.c", "src/mmgs/anisosiz_s.c"],
 [("truncation of sizes", "MMG5_truncate_met3d, MMG5_solTruncature_iso/ani, MMG5_Set_defaultTruncatureSizes"), ("size definition", "MMG3D_defsiz_iso/ani, MMGS_defsiz_*, MMG2D_defsiz_*"), ("gradation", "MMG5_gradsiz_iso, MMG5_grad2metSurf, MMG3D_gradsiz_*, MMG2D_gradsiz_*, MMG5_gradsizreq_iso")],
 ["MMG*_Get_scalarSols / tensorSols after a run with all operators disabled, MMG*_doSol, MMG*_Set_constantSize"])

prop("C07", "The adapted mesh conforms to the requested sizes",
 "On flat domains whose features are well resolved by the request, the edges of an adapted mesh have length close to one in the size map that is handed back: the bulk of the edges has a metric length between 0.6 and 1.6, none is longer than a few units when nothing constrains it, and the number of elements matches the measure of the domain in the metric up to a constant factor (anisotropic tetrahedral adaptation only more loosely). Dividing a constant size by two multiplies the number of elements accordingly (by about four in 2D and on surfaces, eight in 3D). Remeshing the result again with the same request does not change its number of elements significantly.",
 ["inputs", "configurations"], "all domains x constant, variable and anisotropic size requests",
 "Tests only assert exit status; an adaptation that stops early or never splits still passes.",
 ["src/mmg3d/mmg3d1_delone.c", "src/mmg3d/mmg3d1.c", "src/mmgs/mmgs1.c", "src/mmg2d/mmg2d1.c", "src/mmg3d/isosiz_3d.c", "src/common/inlined_functions_private.h"],
 [("edge length based split/collapse loops", "MMG5_adpsplcol, MMG2D_adpspl/adpcol, adpspl/adpcol (mmgs)"), ("edge lengths in the metric", "MMG5_lenedg_iso/ani, MMG2D_lencurv_*, MMG5_lenSurfEdg*")],
 ["metric edge lengths and element counts of the output"])

prop("C08", "Level-set discretization splits the mesh exactly along the zero set",
 "For every mesh and nodal level-set function, the mesh obtained in level-set mode contains the zero set of the (piecewise-linear, snapped) function as a union of mesh faces: without remeshing, each side has exactly the measure that the linear interpolant prescribes, each element lies on one side, carries the interior or exterior reference prescribed for its material (references flagged as not to be split are kept), and the interface is listed with the requested reference. The level-set value given by the user shifts the zero set exactly. Small connected parasitic components are removed only when requested and only below the requested volume (area) fraction, components not attached to a base reference are removed on request, and the surface-only mode splits only the boundary pieces (in 2D the listed edges) and nothing inside. Remeshing after the split keeps both sides and the interface.",
 ["inputs", "configurations"], "all meshes x nodal functions (including values exactly zero or nearly zero at vertices) x multi-material maps x removal thresholds",
 "A handful of level-set tests check the exit status; sidedness, volumes, references and interface closure are not checked anywhere.",
 ["src/mmg3d/mmg3d2.c", "src/mmg3d/mmg3d2s.c", "src/mmg2d/mmg2d6.c", "src/mmgs/mmgs2.c", "src/common/mmg2.c"],
 [("snapping, pattern split and reference assignment", "MMG3D_snpval_ls, MMG3D_cuttet, MMG3D_setref_ls, MMG2D_cuttri_ls, MMG5_setref_ls, MMGS_cuttri"), ("small component removal", "MMG3D_rmc, MMG5_rmc"), ("multimaterial lookup", "MMG5_MultiMat_init, MMG5_getStartRef, MMG5_isSplit")],
 ["output of MMG*_mmg*ls with noinsert/noswap/nomove and with remeshing"])

prop("C09", "Saving and reloading meshes and solutions loses nothing",
 "For every mesh and every solution, writing it to any supported format and reading it back reproduces the vertices (bit-exactly in binary formats, to printed precision in text formats), every element with its vertices and reference, the required, corner, ridge and required-entity attributes that the format supports, and the solution values of every type at the right vertices. Reading the same data from text and binary versions of a format gives the same mesh.",
 ["inputs", "configurations"], "all meshes and solutions (scalar, vector, tensor, several fields) x formats (.mesh, .meshb, .sol, .solb, .msh, .mshb, node/ele/face/edge) x 3 modules",
 "Tests write files but do not read them back and compare.",
 ["src/common/inout.c", "src/mmg3d/inout_3d.c", "src/mmgs/inout_s.c", "src/mmg2d/inout_2d.c"],
 [("Medit ascii/binary readers and writers", "MMG*_loadMesh/saveMesh, MMG5_loadSolHeader, MMG5_saveSolHeader"), ("Gmsh readers and writers", "MMG5_loadMshMesh_part1/2, MMG5_saveMshMesh")],
 ["MMG*_save* followed by MMG*_load*"])

prop("C10", "The API stores and returns exactly what it is given",
 "Every value passed through a setter (entity by entity or as whole arrays) is returned unchanged by the corresponding getters, again entity by entity or as arrays, by-position and sequential access agree, also when traversals of several meshes are interleaved, and setting attributes on one entity affects no other entity. Every parameter can be set without changing the others, and positions beyond the declared counts, solution positions out of range, solution types that do not match, unknown parameters, invalid or supernumerary local parameters and materials are refused with a failure status and leave the stored data unchanged. Successive traversals of the same mesh return the same data.",
 ["inputs", "histories"], "all meshes x solutions x sequences of API calls, 3 modules",
 "API examples exercise a single call order on one mesh and ignore most getters.",
 ["src/mmg3d/API_functions_3d.c", "src/mmgs/API_functions_s.c", "src/mmg2d/API_functions_2d.c", "src/common/API_functions.c"],
 [("setters/getters with position or hidden counters", "MMG*_Set_*, MMG*_Get_*, *ByIdx, GetByIdx_vertex"), ("argument checks", "MMG*_Set_meshSize, Set_iparameter, Set_dparameter, Set_solSize, Chk_meshData")],
 ["return values and outputs of the public functions"])

prop("C11", "No run accesses invalid memory or executes undefined behaviour",
 "Whatever valid mesh, metric, level-set and options it is given, and whatever sequence of legal API calls is made, the library never reads or writes outside of its allocations, never uses freed or uninitialised memory, and executes no undefined arithmetic, shift, conversion or alignment operation. It never aborts the calling process.",
 ["inputs", "configurations", "histories"], "all runs of the three modules in all modes, all API sequences",
 "The test build has no sanitizer; the errors usually leave no trace in an exit code.",
 ["src/mmg3d", "src/mmgs", "src/mmg2d", "src/common"],
 [("bounds kept by reallocation macros and list-size tests", "MMG3D_POINT_REALLOC, MMG3D_TETRA_REALLOC, MMG5_TAB_RECALLOC, MMG3D_LMAX/MMG5_TRIA_LMAX tests")],
 ["AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer reports"])

prop("C12", "Memory is accounted for, bounded by the budget and fully released",
 "At every exit from the library the accounted memory equals what the structures really hold and never exceeds the authorised maximum; after the structures are freed, in any legal order and after any sequence of successful or failed calls, nothing allocated by the library is still allocated. Repeating a run does not make memory grow. (Memory after a refused allocation is the subject of C13; resetting the maximum after the mesh is allocated is out of scope.)",
 ["inputs", "histories", "configurations"], "all runs (successful, failed, repeated) x all legal init/free call sequences",
 "No test checks accounting or leaks.",
 ["src/common/mmgcommon_private.h", "src/common/tools.c", "src/mmg3d/variadic_3d.c", "src/mmgs/variadic_s.c", "src/mmg2d/variadic_2d.c", "src/common/API_functions.c", "src/mmg3d/zaldy_3d.c"],
 [("allocation wrappers updating memCur", "MMG5_ADD_MEM, MMG5_SAFE_*, MMG5_DEL_MEM"), ("structure release", "MMG3D_Free_all_var, MMGS_Free_all_var, MMG2D_Free_all_var")],
 ["interposed allocator compared with mesh->memCur; LeakSanitizer"],
 [("memCur / memMax", "bytes accounted / authorised", "MMG5_Mesh")])

prop("C13", "Running out of memory is survived",
 "When the memory budget or the system allocator is exhausted at any point of a load, a setup or a remeshing run, the call returns normally, without crashing, hanging or ending the process, and the structures can still be released. Unless the status is a strong failure, the elements of the mesh handed back form a sound conforming mesh (valid indices, positive volumes or areas, no dangling vertex numbers); lists of boundary entities may be missing.",
 ["fault_sequences", "inputs", "configurations"], "all allocation points at which memory may run out x meshes x modes",
 "Tests never run out of memory.",
 ["src/common/mmgcommon_private.h", "src/mmg3d/mmg3d1_delone.c", "src/mmg3d/zaldy_3d.c", "src/mmgs/zaldy_s.c", "src/mmg2d/zaldy_2d.c", "src/mmg3d/libmmg3d.c"],
 [("checked allocation macros with per-call recovery law", "MMG5_SAFE_CALLOC(..., return 0), MMG5_TAB_RECALLOC, MMG3D_*_REALLOC"), ("low / strong failure distinction", "MMG5_RETURN_AND_PACK, _LIBMMG5_RETURN")],
 ["return status, survival, validity and leaks with the n-th allocation refused or with small budgets"])

prop("C14", "Results are deterministic and independent of history",
 "Two runs on the same input with the same options give bit-identical meshes and size maps, whatever runs were made earlier in the same process, whatever the initial content of the heap, whether values were given one by one or as arrays, and at whatever verbosity. Using one structure never changes what another one gives. (Renumbering with several Scotch threads is excepted: the partitioner itself is then not deterministic.)",
 ["inputs", "histories", "configurations"], "all inputs x all previous activity in the process",
 "Each test runs once in a fresh process and the outcome is not compared with anything.",
 ["src/mmg3d/libmmg3d.c", "src/mmgs/libmmgs.c", "src/mmg2d/libmmg2d.c", "src/common/libtools.c", "src/mmg3d/libmmg3d_tools.c"],
 [("no global state other than function pointers set on each run", "MMG3D_Set_commonFunc, MMG3D_setfunc, static message guards")],
 ["output mesh and metric of pairs of runs"])

prop("C15", "Runs are scale invariant and leave the user's parameters untouched",
 "Multiplying all coordinates, sizes and distances by a power of two gives the same mesh multiplied by that factor. After the run the user's parameters and local parameters have the values that were given, so that a second run with the same structures uses the same parameters (the materials of a level-set run, which mmgs and mmg2d consume, are excepted).",
 ["inputs", "configurations"], "all inputs x scale factors",
 "No test compares runs at two scales or looks at the parameters after a run.",
 ["src/common/scalem.c", "src/common/tools.c", "src/mmg3d/libmmg3d.c"],
 [("scaling to the unit box and back", "MMG5_scaleMesh, MMG5_unscaleMesh, MMG5_scale_scalarMetric, MMG5_unscale_scalarMetric, MMG5_tensorMetric"),],
 ["output meshes and info fields after a run"])

prop("C16", "Malformed files are rejected cleanly",
 "Whatever bytes a mesh or solution file contains (truncated, corrupted, with wrong counts, indices or keywords, or empty), loading it returns a failure status or a mesh that satisfies the input checks, without crash, invalid memory access, unbounded allocation or hang, and the structures can be freed and used again afterwards.",
 ["inputs", "fault_sequences"], "all byte strings given as files of each supported format, all truncation points of valid files",
 "Tests only load well-formed files.",
 ["src/common/inout.c", "src/mmg3d/inout_3d.c", "src/mmgs/inout_s.c", "src/mmg2d/inout_2d.c"],
 [("header scan then data read with checks", "MMG3D_loadMesh_opened, MMGS_loadMesh, MMG2D_loadMesh, MMG5_loadSolHeader, MMG5_loadMshMesh_part1")],
 ["return status and sanitizer reports of MMG*_load*"])

prop("C17", "The command-line programs do what their options say",
 "The mmg3d, mmgs and mmg2d executables, given files and options, produce the same mesh (and size map) as the library given the same data and parameters, write it where asked and nowhere else, exit with status zero if and only if a mesh was produced as asked, and refuse unknown, incomplete or contradictory arguments, absent files and wrong data with a non-zero status and a message instead of crashing or writing anything. Parameter files (next to the mesh, given with -f, or the default one) act as the corresponding library calls.",
 ["inputs", "configurations"], "all argument vectors x input files x local parameter files",
 "Tests run fixed command lines and check only the exit status.",
 ["src/mmg3d/mmg3d.c", "src/mmgs/mmgs.c", "src/mmg2d/mmg2d.c", "src/mmg3d/libmmg3d_tools.c", "src/mmgs/libmmgs_tools.c", "src/mmg2d/libmmg2d_tools.c", "src/common/tools.c"],
 [("argument parsing", "MMG3D_parsar, MMGS_parsar, MMG2D_parsar"), ("parameter file", "MMG3D_parsop, MMGS_parsop, MMG2D_parsop"), ("main programs", "main in mmg3d.c / mmgs.c / mmg2d.c")],
 ["exit status, files written, output mesh of the executables"])

prop("C18", "Topological queries agree with the mesh",
 "Adjacency, neighbour, triangle-to-tetrahedron, edge-to-triangle, vertex-ball, adjacent-vertex and non-boundary-entity queries return exactly what the connectivity of the stored mesh implies, before as well as after a run, and do not change the mesh. Adjacency is symmetric and complete.",
 ["inputs"], "all meshes, all entities, before and after remeshing, 3 modules",
 "No test compares these queries with an independent computation.",
 ["src/mmg3d/hash_3d.c", "src/mmg2d/hash_2d.c", "src/mmgs/hash_s.c", "src/mmg3d/libmmg3d_tools.c", "src/mmg2d/libmmg2d_tools.c", "src/mmgs/libmmgs_tools.c", "src/common/quality.c"],
 [("adjacency hashing", "MMG3D_hashTetra, MMG2D_hashTria, MMGS_hashTria, MMG5_mmgHashTria"), ("queries", "MMG3D_Get_adjaTet, MMG2D_Get_adjaTri, Get_adjaVertices, Get_adjaVerticesFast, Get_triFromEdge, Get_tetFromTria, Get_numberOfNonBdyTriangles/Edges")],
 ["results of the query functions against an independent reconstruction"])

prop("C19", "2D mesh generation from edges is faithful to the given boundary",
 "Given any planar set of edges forming polygonal boundaries, holes, internal lines and several subdomains, a successful mesh generation produces a valid conforming triangulation whose boundary and interface edges cover exactly the given edges with their references (within a small distance where given edges meet at a flat angle and are treated as a smooth curve), of exactly the enclosed area, with one reference per region enclosed by the edges (holes included) and nothing outside of them; when one subdomain is selected only this region remains. Sizes requested at generation are honoured and required vertices and edges are kept. Valid input is rarely refused and never loops for ever.",
 ["inputs", "configurations"], "all planar straight-line boundaries with holes, nested regions and internal lines x sizes x options",
 "Tests generate a few fixed domains and check only the exit status.",
 ["src/mmg2d/mmg2d2.c", "src/mmg2d/mmg2d9.c", "src/mmg2d/enforcement_2d.c", "src/mmg2d/delone_2d.c", "src/mmg2d/locate_2d.c", "src/mmg2d/cenrad_2d.c"],
 [("Delaunay insertion and edge enforcement", "MMG2D_insertpointdelone, MMG2D_bdryenforcement, MMG2D_locateEdge"), ("region marking", "MMG2D_settagtriangles, MMG2D_markSD, MMG2D_removeBBtriangles")],
 ["output of MMG2D_mmg2dmesh"])

prop("C20", "The Fortran interface behaves as the C interface",
 "Calling any library function through its Fortran entry point with the same data produces the same stored data, the same return status and the same mesh as calling the C function, for every argument.",
 ["inputs", "histories"], "all functions of the Fortran interface x arguments, 3 modules",
 "The Fortran examples cover a few functions; most wrappers are never called.",
 ["src/mmg3d/API_functionsf_3d.c", "src/mmgs/API_functionsf_s.c", "src/mmg2d/API_functionsf_2d.c", "src/mmg3d/libmmg3df.c", "src/mmg3d/libmmg3d_toolsf.c", "src/mmg2d/libmmg2df.c", "src/mmgs/libmmgsf.c"],
 [("argument-forwarding wrappers", "FORTRAN_NAME(MMG*_...)")],
 ["paired runs through both interfaces"])

prop("C21", "Tensor metric computations are algebraically correct",
 "Eigen-decompositions, inverses, rotations, simultaneous reductions, intersections and interpolations of symmetric positive-definite tensors (of moderate anisotropy, with equal or well separated eigenvalues) return symmetric positive-definite tensors and satisfy their defining identities: the decomposition reconstructs the tensor with orthonormal vectors, the intersection prescribes sizes no larger than either operand in every direction and equals an operand when they coincide, and interpolation at an end returns that end. Symmetric inputs give symmetric results.",
 ["inputs"], "all positive-definite tensors, including isotropic, repeated or nearly repeated eigenvalues and high anisotropy",
 "Eight unit tests compare a few fixed matrices.",
 ["src/common/eigenv.c", "src/common/mettools.c", "src/common/intmet.c", "src/mmg2d/intmet_2d.c", "src/mmg3d/intmet_3d.c", "src/common/tools.c"],
 [("eigen solvers", "MMG5_eigenv3d, MMG5_eigenv2d, MMG5_eigensym, MMG5_eigenvmatsym2d/3d"), ("intersection / simultaneous reduction", "MMG5_intersecmet22, MMG5_intersecmet33, MMG5_simred2d/3d"), ("interpolation", "MMG5_mmgIntmet33_ani, MMG2D_intmet_*, MMG5_interp_iso")],
 ["results of the tensor routines"])

prop("C22", "Remeshing does not degrade the mesh and reports true qualities",
 "Optimising a mesh without changing its sizes never makes its worst element or its average quality dramatically worse and generally improves poor meshes, and the quality values the library returns for each element equal the documented shape measure (evaluated in the mean metric of the element when there is one): between zero and one, one for the equilateral element, invariant under translation, rotation, scaling and vertex renumbering. The outcome is a usable mesh: hardly any element of an adapted or optimised mesh is close to degenerate unless constraints force it. (Without the nofem option, tetrahedra with all vertices on the boundary are cut, which may lower the quality.)",
 ["inputs", "configurations"], "all meshes x isotropic and anisotropic metrics",
 "Tests print the quality histogram and ignore it.",
 ["src/common/quality.c", "src/mmg3d/quality_3d.c", "src/mmg2d/quality_2d.c", "src/mmgs/quality_s.c", "src/mmg3d/opttyp_3d.c", "src/mmg3d/movpt_3d.c", "src/mmg3d/swapgen_3d.c"],
 [("quality measures", "MMG5_caltet_iso/ani, MMG2D_caltri_iso/ani, MMG5_caltri_iso/ani"), ("operators accept only quality-improving changes", "MMG5_swptet, MMG5_movtet, MMG3D_opttyp")],
 ["MMG*_Get_*Quality and independently computed qualities of input and output"])

prop("C23", "Lagrangian motion follows the prescribed displacement",
 "In Lagrangian mode the boundary vertices reach the prescribed displacement and the mesh stays valid.",
 ["inputs"], "all meshes x displacement fields",
 "The tests of this mode need the ELAS library.",
 ["src/mmg3d/mmg3d3.c", "src/mmg2d/mmg2d3.c"], [("displacement steps", "MMG5_mmg3d3_delone, MMG2D_mmg2d3")],
 ["output of MMG3D_mmg3dmov"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
