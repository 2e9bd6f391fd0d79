# Table of the checks: which harness runs on which build of /repo, and how results are judged.
SAN = "-O1 -g1 -fsanitize=address,undefined -fno-sanitize=float-divide-by-zero -fno-omit-frame-pointer"
MSAN = "-O1 -g1 -fsanitize=memory -fno-sanitize-memory-param-retval -fsanitize-memory-track-origins=1 -fno-omit-frame-pointer"
VARIANTS = {
    "plain": {"cflags": "-O1 -g1"},
    "asan": {"cflags": SAN},
    # the harness is compiled by the same sanitizer but does not report (its C++ library is not instrumented)
    "msan": {"cflags": MSAN, "hflags": MSAN + " -fsanitize-ignorelist=@H@/msan.ignore", "scotch": False, "linker": "clang", "ldflags": ["-lstdc++"]},
}
WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup"]
EXPL = "exploration"
CHECKS = {}

CHECKS["C01"] = dict(
    level=EXPL, technique="runtime monitoring: conformity oracle over randomized end-to-end runs",
    note="independent conformity checker (indices, measures, face/edge manifoldness and orientation, completeness of the boundary lists) applied to what the public getters return; held on the executions of this run only",
    rule="seeded random mesh (flat/curved/multi-domain/open/with attributes), metric, level-set and option vector per case; non-trivial when the run handed back a mesh with at least one element; distinct by the full case description",
    runs=[dict(variant="plain", src="c01.cpp")],
    rates=[("refused", "failed", "runs", .02, 200)],
    min={"quick": 300})
CHECKS["C02"] = dict(
    level=EXPL, technique="runtime monitoring: conservation oracle (measures, topology, references) over randomized runs",
    note="measure, components, Euler characteristic, boundary components per reference and measure of every boundary/interface piece compared between input and output; exact (1e-6) for 3D and 2D piecewise-flat domains, 2% for surfaces",
    rule="seeded random multi-domain mesh and remeshing options per case; non-trivial when a mesh came back; distinct by the full case description",
    runs=[dict(variant="plain", src="c02.cpp")],
    rates=[("refused", "failed", "runs", .02, 200)],
    min={"quick": 300})
CHECKS["C03"] = dict(
    level=EXPL, technique="runtime monitoring: before/after comparison oracle for required entities over randomized runs",
    note="every required vertex, corner, edge, triangle, tetrahedron, every prism and quadrilateral and (with -nosurf) every boundary face of the input is looked up by position in the output",
    rule="seeded random mesh, options and random required entities of every kind per case; non-trivial when the input holds at least one protected entity; distinct by the full case description",
    runs=[dict(variant="plain", src="c03.cpp")],
    rates=[("refused", "failed", "runs", .02, 200)],
    min={"quick": 250})
CHECKS["C05"] = dict(
    level=EXPL, technique="runtime monitoring: before/after comparison oracle per disabled operator over randomized runs",
    note="input vertices carry unique references so that the output can be compared entity by entity; with insertion on, the share of input vertices (edges) still in place is compared with what runs with the operator off must reach",
    rule="every combination of the three switches, random mesh/metric/options; non-trivial when insertion, relocation or surface modification is off; distinct by the full case description",
    runs=[dict(variant="plain", src="c05.cpp")],
    rates=[("refused", "failed", "runs", .02, 200)] + [("vertices moved with -nomove:" + k, "nomove-refine:" + k + "-lost", "nomove-refine:" + k, f, 60) for k, f in
           (("mmg2d:boundary", .03), ("mmg2d:interior", .13), ("mmgs:interior", .16), ("mmg3d:boundary", .03), ("mmg3d:interior", .2))]
          + [("edges swapped with -noswap:" + k, "noswap-refine:" + k + ":edges-lost", "noswap-refine:" + k + ":edges", .225, 1000) for k in ("mmg2d", "mmgs")],
    min={"quick": 400})
CHECKS["C06"] = dict(
    level=EXPL, technique="runtime monitoring: size-map oracle (bounds, prescribed size, gradation, local sizes) over randomized runs",
    note="the size map that comes back with the mesh is compared with an independent computation: exact on flat domains with isotropic sizes, bounds elsewhere",
    rule="seeded random mesh, size map (constant, isotropic, tensor, none), global bounds, gradation, local parameters; non-trivial when a size map came back; distinct by the full case description",
    runs=[dict(variant="plain", src="c06.cpp")],
    rates=[("refused", "failed", "runs", .02, 200)],
    min={"quick": 400})
CHECKS["C11"] = dict(
    level=EXPL, technique="runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer on randomized runs",
    note="the whole library built with ASan+UBSan and, separately, with MSan executes randomized runs of all modes, API queries, file output and input and repeated runs; the first report of a sanitizer, abort or fatal signal is the violation; what the getters return is tested for initialisation",
    rule="seeded random job (mesh, metric, level-set, options) with queries and files around; non-trivial when a mesh came back; distinct by the full case description",
    runs=[dict(variant="asan", src="c11.cpp", cpu=120), dict(variant="msan", src="c11.cpp", cpu=160, env={"C11_N": "240"})],
    rates=[], min={"quick": 350})
CHECKS["C12"] = dict(
    level=EXPL, technique="runtime monitoring: interposed allocator compared with the library's own accounting over randomized histories of calls",
    note="every allocation of the library is counted by link-time interposition; at each return of a public function the bytes held are compared with mesh->memCur, the peak with mesh->memMax, and after the release with zero",
    rule="seeded random job x memory budget x history (queries, files, second run, redefinition of parameters, release order); non-trivial when a mesh came back; distinct by the full case description",
    runs=[dict(variant="plain", src="c12.cpp", extra=["memwrap.cpp"], ldflags=WRAP)],
    rates=[], min={"quick": 200})
CHECKS["C13"] = dict(
    level="exploration", technique="runtime monitoring: injected allocation failures and memory budgets over randomized lives of the structures",
    note="each allocation call of a life (setup, run, files) is refused in turn by link-time interposition, alone or with all later ones, and runs are repeated with budgets between the needed minimum and the peak; survival, return code, validity of a mesh handed back and complete release are observed",
    rule="seeded random small job per case, all its allocation points (200 sampled at most) and 25 budgets; non-trivial when the fault-free run succeeds; distinct by the full case description",
    runs=[dict(variant=__import__("os").environ.get("C13_VAR", "plain"), src="c13.cpp", extra=["memwrap.cpp"], ldflags=WRAP, cpu=300)],
    rates=[], min={"quick": 28})
CHECKS["C14"] = dict(
    level=EXPL, technique="runtime monitoring: bit-exact comparison of repeated runs under perturbed histories",
    note="each job is run in a fresh process and again after other runs (some failing), with the heap filled with patterns, other structures alive, flipped array/single setters and other verbosities; status, mesh, attributes and size map are compared bit for bit",
    rule="seeded random job per case, three repetitions under random perturbations; non-trivial when the run succeeds; distinct by the full case description",
    runs=[dict(variant="plain", src="c14.cpp", env={"SCOTCH_PTHREAD_NUMBER": "1"})], rates=[], min={"quick": 100})
CHECKS["C15"] = dict(
    level=EXPL, technique="runtime monitoring: metamorphic comparison of runs at two scales, snapshots of the parameters around runs",
    note="the same job is run at scale one and multiplied by a random power of two: status, connectivity, attributes identical and coordinates and sizes exactly scaled; all user parameters, local parameters, materials and base references are compared before and after",
    rule="seeded random job and exponent per case; non-trivial when both runs hand back a mesh; distinct by the full case description",
    runs=[dict(variant="plain", src="c15.cpp", env={"SCOTCH_PTHREAD_NUMBER": "1"})], rates=[], min={"quick": 400})
CHECKS["C19"] = dict(
    level=EXPL, technique="runtime monitoring: independent geometric oracle over generated 2D meshes",
    note="planar straight-line graphs with known regions (boundaries and interfaces of random meshes, nested stars, lines, points) are meshed; validity, edge support and references, regions, areas, required entities and sizes of the result are recomputed from the input alone",
    rule="seeded random graph and options per case; non-trivial when a mesh comes back; distinct by the full case description",
    runs=[dict(variant="plain", src="c19.cpp")], rates=[("refused generations", "failed", "runs", .03, 200), ("edges longer than twice the requested size", "sized-long", "sized-edges", .01, 200), ("edges shorter than half the requested size", "sized-short", "sized-edges", .1, 200), ("edges longer than twice hmax", "bounded-long", "bounded-edges", .01, 200)], min={"quick": 1000})
CHECKS["C09"] = dict(
    level=EXPL, technique="runtime monitoring: round-trip comparison of saved and reloaded data, with an independent writer and reader of the formats",
    note="every mesh and solution is saved by the library in each format, loaded in fresh structures and compared entity by entity (bit for bit in binary); files written by an independent writer (shuffled sections, both byte orders, both precisions) are loaded and compared; Tetgen files are read by an independent reader",
    rule="seeded random mesh with random references, attributes and fields, or the result of a run, per case; non-trivial when something was saved; distinct by the full case description",
    runs=[dict(variant="plain", src="c09.cpp")], rates=[], min={"quick": 280})
CHECKS["C10"] = dict(
    level=EXPL, technique="runtime monitoring: randomized histories of API calls compared with a shadow model of the stored data",
    note="setters, unsetters, array and list variants, solutions, fields, parameters and illegal calls are interleaved at random with sequential, array and by-position getters; every value returned is compared with the shadow model",
    rule="seeded random history of calls on one of the three libraries; distinct by the history",
    runs=[dict(variant="plain", src="c10.cpp")],
    rates=[], min={"quick": 1000})
CHECKS["C18"] = dict(
    level=EXPL, technique="runtime monitoring: topological queries compared with an independent reconstruction of the connectivity over randomized meshes",
    note="adjacency, triangle-to-tetrahedron, edge-to-triangle, ball and non-boundary queries of the whole mesh, before or after a run, are compared with brute-force maps built from the connectivity that the getters return",
    rule="seeded random job, queried before or after the run; non-trivial when queries were compared; distinct by the full case description",
    runs=[dict(variant="plain", src="c18.cpp")],
    rates=[("refused", "failed", "runs", .03, 100)],
    min={"quick": 500})
C21_KINDS = ["eigen-2d", "eigen-2d-orthonormality", "eigensym-2d", "eigensym-2d-orthonormality", "eigen-public-2d", "eigen-public-2d-orthonormality",
             "eigen-3d", "eigen-3d-orthonormality", "eigen-public-3d", "eigen-public-3d-orthonormality", "inverse", "inverse-general", "rotate-tensor",
             "rotation", "linear-system"] + [x + d for d in ("-2d", "-3d") for x in (
             "intersection", "intersection-symmetry", "intersection-homothetic", "simultaneous-reduction",
             "interpolation", "interpolation-symmetry", "interpolation-end")]
CHECKS["C21"] = dict(
    level=EXPL, technique="runtime monitoring: results of the tensor routines compared with an independent computation on randomized tensors",
    note="eigen-decompositions, inverses, rotations, intersections, simultaneous reductions and interpolations of random positive-definite tensors (generic, isotropic, repeated and nearly repeated eigenvalues, aligned, proportional) are compared with Jacobi-rotation references",
    rule="seeded random tensors: dimension, size scale, anisotropy; each case holds 1500 pairs; distinct by the scale and anisotropy",
    runs=[dict(variant="plain", src="c21.cpp")],
    rates=[("C21-" + x + "-" + c, "bad:" + x + ":" + c, "checks:" + x + ":" + c, .10 if c == "near" else .08 if c == "near-proportional" else .01, 200)
           for c in ("generic", "isotropic", "repeated", "proportional", "near", "near-proportional")
           for x in C21_KINDS], min={"quick": 500})
CHECKS["C08"] = dict(
    level=EXPL, technique="runtime monitoring: exact clipping of the input mesh by the linear interpolant as oracle of the level-set mode",
    note="measures per reference, side and material of every output element, position, listing and reference of the interface, removal of small or detached components and surface-only splitting are recomputed independently from the input mesh and nodal values",
    rule="seeded random mesh, nodal function (exact zeros included), material map and removal options per case; non-trivial when a mesh comes back; distinct by the full case description",
    runs=[dict(variant="plain", src="c08.cpp")],
    rates=[("refused", "failed", "runs", .05, 100)],
    min={"quick": 500})
CHECKS["C07"] = dict(
    level=EXPL, technique="runtime monitoring: metric edge lengths, element counts and repeated runs measured on the adapted meshes by an independent oracle",
    note="flat domains with constant, isotropic and anisotropic requests well below the size of the features: share of edges near unit length, longest edge, element count against the metric volume, size halved, same request on the result",
    rule="seeded random domain and size request per case; non-trivial when an adapted mesh with its size map comes back; distinct by the full case description",
    runs=[dict(variant="plain", src="c07.cpp")],
    rates=[("refused", "failed", "runs", .03, 100)] + [("edges out of [0.6,1.6] "+c, "outside:"+c, "edges:"+c, m, 2000) for c, m in (
        ("mmg2d:const", .006), ("mmg2d:iso", .006), ("mmg2d:aniso", .035), ("mmgs:const", .02), ("mmgs:iso", .016), ("mmg3d:const", .04), ("mmg3d:iso", .045))],
    min={"quick": 250})
CHECKS["C22"] = dict(
    level=EXPL, technique="runtime monitoring: independent shape measures of the elements before and after optimisation, compared with the qualities the library returns",
    note="each quality returned by the getters is compared with the shape measure in the mean metric of the element; worst element, average and share of poor elements are compared before and after optimisation and adaptation of plain and deliberately spoiled meshes",
    rule="seeded random mesh, metric and optimisation kind per case; non-trivial when qualities were compared; distinct by the full case description",
    runs=[dict(variant="plain", src="c22.cpp")],
    rates=[("refused", "failed", "runs", .03, 100)]
      + [("average quality worse "+c, "average-worse:"+c, "runs:"+c, m, 40) for c, m in (("mmg2d", .03), ("mmgs", .1), ("mmg3d", .3))]
      + [("worst element worse "+c, "worse:"+c, "runs:"+c, m, 40) for c, m in (("mmg2d", .04), ("mmgs", .12), ("mmg3d", .18))]
      + [("poor meshes not improved "+c, "poor-not-improved:"+c, "poor:"+c, m, 15) for c, m in (("mmg2d", .1), ("mmg3d", .5))]
      + [("poor elements "+c, "low:"+c, "elements:"+c, m, 400) for c, m in (("mmg2d:adapt:flat", .003), ("mmg2d:adapt:curved", .005), ("mmg2d:optim:flat", .005), ("mmgs:adapt:flat", .004), ("mmgs:adapt:curved", .004), ("mmgs:optim:curved", .015), ("mmg3d:adapt:flat", .006), ("mmg3d:adapt:curved", .015), ("mmg3d:optim:flat", .02), ("mmg3d:optim:curved", .035))],
    min={"quick": 500})
CHECKS["C17"] = dict(
    level=EXPL, technique="runtime monitoring: differential runs of the command-line programs against the library, with a monitor of exit status, messages and files written",
    note="the main programs are run in a scratch directory on random files, options and parameter files; exit status, files written and their bytes are compared with the library given the same files and parameters; erroneous command lines must be refused without writing",
    rule="seeded random job and command line; distinct by the command line and the job",
    runs=[dict(variant="plain", src="c17.cpp", extra=["main_3d.c", "main_s.c", "main_2d.c"], env={"SCOTCH_PTHREAD_NUMBER": "1"})],
    rates=[], min={"quick": 330})
CHECKS["C20"] = dict(
    level=EXPL, technique="runtime monitoring: twin structures driven through the C and the Fortran entry points, compared after every call",
    note="nearly 300 Fortran entry points are called with the same data as their C functions (everything by address, strings without final zero): status, output arguments, stored data and files are compared bit for bit after each call",
    rule="seeded random job per case set up, queried, run and saved through both interfaces; distinct by the full case description",
    runs=[dict(variant="plain", src="c20.cpp", env={"SCOTCH_PTHREAD_NUMBER": "1"})], rates=[], min={"quick": 330})
NOT_APPLICABLE = {
    "C04": "not claimed: mmg bounds the distance by a local estimate on the discrete surface, so the factor of the prescribed distance that is respected depends on the sampling of the input, and no threshold that is sound for every input could be established (exact support on planes, lines, ridges and corners is decided under C02 and C03)",
    "C16": "not claimed: the loaders of the pinned tree do not validate the vertex indices and trust the counts of the file, so the property fails on most corrupted files and its repair is not a small patch",
    "C23": "Lagrangian motion is compiled only with the ELAS library (USE_ELAS), which is not installed here and cannot be fetched: the code cannot run, so no execution can be observed",
}
