"""What is run for each property."""
from driver import Job

R, C = ("real", "asan"), ("complex", "asan")


def simple(binary, args=(), cfg=R, timeout=400):
    return lambda seed, tier: [(cfg, Job(binary, binary, args, timeout=timeout))]


def both(binary, args=(), timeout=400):
    return lambda seed, tier: [(R, Job(binary + "-real", binary, args, timeout=timeout)),
                               (C, Job(binary + "-complex", binary, args, timeout=timeout))]


def mesh_dist(seed, tier):
    sizes = (2, 3, 5, 8) if tier == "quick" else (2, 3, 4, 5, 6, 7, 8)
    jobs = [(R, Job("dist-np%d" % n, "h_mesh", ["--vf-cases=%d" % (400 if tier == "quick" else 1500), "--vf-salt=%d" % n], np=n, timeout=150 if tier == "quick" else 900, weight=n)) for n in sizes]
    jobs += [(R, Job("dist-lines%d" % i, "h_mesh", ["--vf-dims=1", "--vf-cases=40", "--vf-salt=l%d" % i], np=2 + i, timeout=100, weight=2 + i)) for i in range(3)]
    return jobs


def conform(seed, tier):
    q = tier == "quick"
    jobs = [(R, Job("conform", "h_conform", timeout=250 if q else 900))]
    for n in ((3, 5) if q else (2, 3, 4, 5, 7, 8)):
        jobs.append((R, Job("conform-np%d" % n, "h_conform", ["--vf-cases=%d" % (60 if q else 300), "--vf-salt=%d" % n], np=n, timeout=150 if q else 900, weight=n)))
    return jobs


def index(seed, tier):
    q = tier == "quick"
    jobs = [(R, Job("index", "h_index", timeout=200 if q else 900))]
    for n in ((2, 3, 5) if q else (2, 3, 4, 5, 6, 8)):
        jobs.append((R, Job("index-np%d" % n, "h_index", ["--vf-cases=%d" % (120 if q else 500), "--vf-salt=%d" % n], np=n, timeout=150 if q else 900, weight=n)))
    jobs.append((R, Job("index-lines", "h_index", ["--vf-cases=%d" % (60 if q else 300), "--vf-dims=1"], np=3, timeout=100, weight=3)))
    return jobs


def assemble(seed, tier):
    q = tier == "quick"
    jobs = [(R, Job("assemble", "h_assemble", timeout=200 if q else 900)),
            (C, Job("assemble-complex", "h_assemble", ["--vf-cases=%d" % (40 if q else 300), "--vf-salt=c"], timeout=200 if q else 900))]
    for n in ((2, 3, 5) if q else (2, 3, 4, 5, 6, 8)):
        jobs.append((R, Job("assemble-np%d" % n, "h_assemble", ["--vf-cases=%d" % (70 if q else 400), "--vf-salt=%d" % n], np=n, timeout=150 if q else 900, weight=n)))
    jobs.append((R, Job("couplings", "h_assemble", ["--vf-cases=%d" % (100 if q else 500), "--vf-mode=couplings"], np=4, timeout=150 if q else 900, weight=4)))
    jobs.append((C, Job("assemble-complex-np3", "h_assemble", ["--vf-cases=%d" % (40 if q else 200), "--vf-salt=c3"], np=3, timeout=150 if q else 900, weight=3)))
    jobs.append((R, Job("assemble-lines", "h_assemble", ["--vf-cases=40", "--vf-dims=1"], np=3, timeout=100, weight=3)))
    return jobs


def dg(seed, tier):
    q = tier == "quick"
    jobs = [(R, Job("dg", "h_dg", ["--vf-cases=%d" % (150 if q else 1500)], timeout=200 if q else 900)),
            (C, Job("dg-complex", "h_dg", ["--vf-cases=%d" % (80 if q else 800), "--vf-salt=c"], timeout=200 if q else 900)),
            (C, Job("dg-complex-np3", "h_dg", ["--vf-cases=%d" % (60 if q else 600), "--vf-salt=c3"], np=3, timeout=200 if q else 900, weight=3)),
            (R, Job("dg-lines", "h_dg", ["--vf-cases=%d" % (60 if q else 600), "--vf-dims=1"], np=3, timeout=100 if q else 900, weight=3))]
    for n in ((2, 4) if q else (2, 3, 4, 5, 6)):
        jobs.append((R, Job("dg-np%d" % n, "h_dg", ["--vf-cases=%d" % (100 if q else 1000), "--vf-salt=%d" % n], np=n, timeout=200 if q else 900, weight=n)))
    return jobs


def output(seed, tier):
    q = tier == "quick"
    c = 240 if q else 4000
    t = 200 if q else 900
    jobs = [(R, Job("output", "h_output", ["--vf-cases=%d" % c], timeout=t)),
            (C, Job("output-complex-np2", "h_output", ["--vf-cases=%d" % (c // 2), "--vf-salt=c"], np=2, timeout=t, weight=2)),
            (R, Job("output-lines", "h_output", ["--vf-cases=%d" % c, "--vf-dims=1"], np=3, timeout=t, weight=3)),
            (R, Job("solves", "h_dg", ["--vf-outputs=1", "--vf-cases=%d" % (c // 2)], timeout=t)),
            (C, Job("solves-complex", "h_dg", ["--vf-outputs=1", "--vf-cases=%d" % (c // 2), "--vf-salt=c"], timeout=t)),
            (R, Job("solves-np3", "h_dg", ["--vf-outputs=1", "--vf-cases=%d" % (c // 2), "--vf-salt=3"], np=3, timeout=t, weight=3))]
    for n in ((4,) if q else (2, 3, 4, 5, 6)):
        jobs.append((R, Job("output-np%d" % n, "h_output", ["--vf-cases=%d" % c, "--vf-salt=%d" % n], np=n, timeout=t, weight=n)))
    return jobs


def maxwell(seed, tier):
    q = tier == "quick"
    k = 1 if q else 14
    t = 280 if q else 1500
    j = lambda mode, cases, np=1, salt="": (C, Job(mode + (salt and "-" + salt) + ("-np%d" % np if np > 1 else ""), "h_dgmax", ["--vf-mode=" + mode, "--vf-cases=%d" % (cases * k), "--vf-salt=%s%d" % (salt, np)], np=np, timeout=t, weight=np))
    jobs = [j("matrices", 24), j("matrices", 24, salt="b"), j("given", 40), j("given", 20, 3), j("harmonic", 16), j("harmonic", 16, salt="b"),
            j("harmonic", 8, 2), j("harmonic", 6, 3), j("eigen", 14), j("eigen", 14, salt="b"), j("eigen", 8, 2), j("eigen", 6, 3)]
    if not q:
        jobs += [j(m, c, n) for m, c in (("given", 20), ("harmonic", 6), ("eigen", 6)) for n in (4, 5)]
    return jobs


def prep(mode):
    def jobs(seed, tier):
        q = tier == "quick"
        return [(R, Job("%s-%d" % (mode, i), "h_prep", ["--vf-mode=" + mode, "--vf-salt=%d" % i, "--vf-cases=%d" % (170 if q else 2500)], timeout=250 if q else 900)) for i in range(7)]
    return jobs


SPECS = {
    "P01": {
        "technique": "mesh files written from an independent lattice model are loaded by the real reader; every loaded entity, adjacency and geometry map is compared with the model",
        "note": "explores randomly generated small meshes of every element shape (mixed, curved, periodic, with holes, any local numbering), file versions 1 and 2",
        "jobs": simple("h_mesh", timeout=250),
        "rule": "(mesh, entity, attribute): loaded attribute compared with the lattice model that wrote the file; distinct = mesh kinds and (face shape, local faces, orientation code) combinations",
        "min_evaluations": 300000,
        "min_counters": {"quarter-turn-faces": 1, "periodic-faces": 50, "located-points": 50},
    },
    "P04": {
        "technique": "the same mesh model is loaded by several real MPI processes; entity ids, owners, ghost layers and message exchange are gathered and checked against the model and each other, with injected delays",
        "note": "2 to 8 processes, random/blob/slab/starved partitions",
        "jobs": mesh_dist,
        "rule": "(mesh, process, entity): local view compared with the model restricted to the process, and ids/owners/halo lists compared between processes",
        "min_evaluations": 300000,
        "min_counters": {"exchanged-elements": 1000, "push-pull-lists": 100},
    },
    "P08": {
        "technique": "every function set is compared with differences of its own values, with its polynomial space (rank and residual), and every cached evaluation path with direct evaluation",
        "note": "all families, shapes and orders up to 5 are enumerated, at random points and histories of quadrature use",
        "jobs": simple("h_basis"),
        "rule": "(family, shape, order, function, point or cached path): reported value/derivative compared with the independent one",
        "min_evaluations": 200000,
        "min_counters": {"cached-element": 5000, "cached-face": 5000, "sets-destroyed": 500},
    },
    "P09": {
        "technique": "random values for the degrees of freedom of the real mesh; both traces of each internal face compared, and the resulting function compared between MPI processes",
        "note": "random meshes of all shapes, orientations, periodicity, orders up to what has quadrature rules; 1, 3 and 5 processes",
        "jobs": conform,
        "rule": "(mesh, order, face, point): left trace compared with right trace; (element, point): value compared between processes",
        "min_evaluations": 300000,
        "min_counters": {"internal-faces": 20000, "compared-elements": 5000},
    },
    "P10": {
        "technique": "all reference shapes, their tables and maps enumerated; random (curved) physical elements and real meshes, also after moving the mesh, compared with independent geometry: corners, differences of the map against its Jacobian, inverse, both neighbours' face points",
        "note": "all shapes including higher order simplices and the 4-cube (affine); random points, sizes over six decades",
        "jobs": simple("h_geom"),
        "rule": "(shape or element, map, point or table entry): compared with coordinates computed independently",
        "min_evaluations": 300000,
        "min_counters": {"physical-points": 15000, "inverses": 15000, "mesh-points": 10000, "mesh-face-points": 10000, "symmetries": 100},
    },
    "P11": {
        "technique": "random histories of selecting elements, faces, points, rules and transformations on the real PhysicalElement/PhysicalFace; each answer compared with reference functions mapped through independently differenced geometry",
        "note": "random meshes of all shapes, H1 and H(curl) transformations, several unknowns of different order, curved elements",
        "jobs": simple("h_phys"),
        "rule": "(mesh, selection history, query): answer compared with the independently mapped reference quantity",
        "min_evaluations": 300000,
        "min_counters": {"element-queries": 30000, "internal-face-queries": 50000, "boundary-face-queries": 15000},
    },
    "P12": {
        "technique": "integrals by the real ElementIntegral/FaceIntegral, in random order on shared objects, compared with independent Gauss-Legendre quadrature on the mesh model; measures summed; divergence theorem per element",
        "note": "random meshes of all shapes (curved simplices, bilinear/trilinear cells; pyramids where affine), default and explicit rules, polynomials up to the degree the rules promise",
        "jobs": simple("h_integ"),
        "rule": "(mesh, element or face, integrand, rule): integral compared with the independent one",
        "min_evaluations": 200000,
        "min_counters": {"divergence-theorems": 1500, "face-integrals": 6000, "domain-measures": 50, "face-matrices": 1000},
    },
    "P13": {
        "technique": "differential oracle (naive extended-precision arithmetic) on every operation of random legal shapes, real and complex builds",
        "note": "explores random shapes up to 12 and values; LAPACK itself trusted",
        "jobs": both("h_linalg"),
        "rule": "(operation, operand shape, scalar type) result compared entry by entry with naive arithmetic",
        "min_evaluations": 100000,
    },
    "P15": {
        "technique": "random histories of adding, stretching, erasing and filling on the real LevelTree; after each step every traversal, forwards, backwards and in random steps, is compared with a model forest",
        "note": "random forests including entries that occupy several levels; all traversal methods, const and mutable",
        "jobs": simple("h_tree"),
        "rule": "(history, traversal or entry query): visited sequence or answer compared with the model; distinct = forest shapes",
        "min_evaluations": 1000000,
        "min_counters": {"traversals-alllevel": 5000, "traversals-level": 5000, "traversals-postorder": 5000, "traversals-preorder": 5000, "erasures": 300, "fills": 200},
    },
    "P07": {
        "technique": "closed-form monomial integrals compared with every rule obtainable for every shape and degree",
        "note": "all shapes and all requestable degrees are enumerated; monomials span the polynomials",
        "jobs": simple("h_quad"),
        "rule": "(shape, requested order, rule, monomial) integrated by the rule and compared with the closed form",
        "min_evaluations": 5000,
    },
    "P16": {
        "technique": "order conditions of all rooted trees on every offered scheme; the real stepping code on random coupled time dependent systems compared step by step with an independent step, with exact solutions (observed order) and with the tolerance of adaptive steps",
        "note": "every scheme the library offers; random nonlinear systems, step sizes over decades, rejected adaptive steps",
        "jobs": simple("h_ode"),
        "rule": "(scheme, tree) order condition; (scheme, problem, step) solution compared with the independent step",
        "min_evaluations": 6000,
        "min_counters": {"steps": 400, "rejected-tries": 20, "order-conditions": 30, "convergence-studies": 20},
    },
    "P21": {
        "technique": "random command lines given to the real parser in forked processes; stored values, refusals and leftovers compared with the generator's record",
        "note": "all option types, long/short/joined forms, flags, repeated options, missing values, malformed numbers, '--'; points parsed by the Preprocessor/DG-Max helper",
        "jobs": simple("h_cli"),
        "rule": "(command line, option): stored value and seen flag compared with what was put on the command line; refusal where it must be refused",
        "min_evaluations": 50000,
        "min_counters": {"points": 10000, "parsed-plain": 800, "parsed-malformed-int": 10, "parsed-missing-required": 40, "parsed-unknown-long": 80},
    },
    "P17": {
        "technique": "random histories of writes and reads on the elements and faces of real meshes with mixed bases, compared after each step with a map model, periodically on every element and face",
        "note": "1 to 4 unknowns of different order and conformity, random time levels, matrices, vectors, residues, copies; local indexing helpers over changing selections",
        "jobs": simple("h_data"),
        "rule": "(mesh, history, key): stored value or index compared with the model; distinct = mesh kinds",
        "min_evaluations": 3000000,
        "min_counters": {"element-writes": 5000, "face-writes": 5000, "indexing-steps": 3000, "full-comparisons": 500, "solutions": 3000},
    },
    "P05": {
        "technique": "every process lists the indices it gives to every degree of freedom it knows; the lists are gathered under model identities and checked for agreement, bijectivity, contiguity and layout, with both lookup directions compared",
        "note": "random meshes of all shapes, 1 to 3 unknowns with discontinuous and conforming bases of different order, subsets, all layouts, fresh and reused numberings; 1 to 5 processes",
        "jobs": index,
        "rule": "(mesh, bases, subset, layout, process, degree of freedom): index compared with the gathered numbering",
        "min_evaluations": 1000000,
        "min_counters": {"entities-kind0": 10000, "entities-kind1": 5000, "entities-kind2": 5000, "entities-kind3": 10000, "layout-sequential": 100, "layout-blocked-processor": 100, "layout-blocked-global": 100},
    },
    "P06": {
        "technique": "random local matrices and vectors on the real mesh, histories of assembly, renumbering, coupling changes, cleared rows and exchange with element data; the PETSc objects are compared with independently summed contributions gathered from all processes, the sparsity estimate with the exact pattern",
        "note": "random meshes, bases, unknown subsets, rectangular and mixed layouts, restricted face coupling; 1 to 5 processes, real and complex",
        "jobs": assemble,
        "rule": "(mesh, bases, numbering, history step, entry): assembled entry compared with the sum of contributions",
        "min_evaluations": 500000,
        "min_counters": {"matrices": 1000, "matrix-entries": 1000000, "sparsity-rows": 50000, "vector-entries": 50000, "time-vectors": 2000, "coupling-refused": 100},
    },
    "P02": {
        "technique": "the preprocessor's real main run on random box descriptions; the written file is parsed independently, its elements checked to tile the lattice cells with positive volume, and nodes, faces, edges and partition data compared with those derived from the elements and the box",
        "note": "1D to 3D boxes, rectangular and triangular cells, all periodicities, 1 to 6 partitions (METIS)",
        "jobs": prep("box"),
        "rule": "(box, node/element/face/edge/partition entry): written entry compared with the one the box has",
        "min_evaluations": 300000,
        "min_counters": {"boxes-1D-rectangular": 100, "boxes-2D-rectangular": 60, "boxes-2D-triangular": 60, "boxes-3D-rectangular": 40, "boxes-3D-triangular": 40, "partitioned-meshes": 150, "periodic-directions": 150},
    },
    "P03": {
        "technique": "the preprocessor's real main run on random meshes written as gmsh 2.2 and native files with arbitrary numbering, entry order and periodic links; the written file is parsed independently and compared with the described mesh",
        "note": "2D and 3D gmsh meshes of all linear shapes and quadratic simplices, 1D to 3D native version 1 meshes; periodic links, requested translations, ignored periodicity; zones by name, number, element data; the Centaur reader is not driven",
        "jobs": prep("import"),
        "rule": "(mesh, node/element/face/edge/partition entry): written entry compared with the described mesh",
        "min_evaluations": 300000,
        "min_counters": {"imports-gmsh": 100, "imports-gmsh-translations": 100, "imports-gmsh-ignored": 100, "imports-native": 100, "imports-native-translations": 100, "curved-elements": 500, "periodic-meshes": 200, "elements-pyramid": 300, "elements-prism": 200, "elements-cube": 100},
    },
    "P19": {
        "technique": "random element and face contributions run through the real solver interfaces in histories of operations and complete solves; every coefficient, on owners and ghosts, is compared with an independent partition independent evaluation; advection runs are checked for exact projection, derivative, reported errors and conservation; steady solves by their residual",
        "note": "HpgemAPISimplified, HpgemAPILinear and HpgemAPILinearSteadyState on meshes of all shapes, orders 0 to 4, 1 to 3 unknowns, all built in time integrators; 1 to 4 processes, real and complex. The nonlinear steady state interface needs Sundials, which is not available",
        "jobs": dg,
        "rule": "(mesh, order, unknowns, integrator, operation, element): coefficients compared with the reference evaluation",
        "min_evaluations": 200000,
        "min_counters": {"vectors": 30000, "ghost-vectors": 20000, "solves": 100, "steady": 80, "conservation": 60, "projection-points": 5000, "derivative-points": 3000, "error-norms": 60, "op:step": 80},
    },
    "P18": {
        "technique": "random fields on real meshes written through every writer and by complete simulations; the files of all processes are parsed by independent strict readers and compared cell by cell with the mesh model, the cell conventions of the formats and the fields",
        "note": "VTK grids and time series (orders 0 to 9, scalars, vectors, tensors, exact bit patterns), Tecplot zones with new and shared geometry, GNUPlot files, output of time dependent and steady solves; 1 to 4 processes, real and complex. Tecplot and GNUPlot refuse curved elements, VTK refuses prisms and pyramids beyond linear: not driven",
        "jobs": output,
        "rule": "(mesh, writer, order, cell, point, component): parsed value compared with the written field; distinct = (writer, shape, order) and simulation kinds",
        "min_evaluations": 1000000,
        "min_counters": {"vtk-cells": 10000, "vtk-grids": 300, "series": 80, "vtk-multiple": 60, "tecplot-cells": 5000, "gnuplot-elements": 2000, "outputs": 200, "frame-elements": 5000, "zone-elements": 5000},
    },
    "P20": {
        "technique": "runtime monitoring under ASan+UBSan: every local matrix and vector, solution, eigenpair and derived number of the Maxwell solvers against weak forms evaluated with our own geometry and quadrature, over solver histories and partitions",
        "note": "Both discretisations run on random simplicial meshes (periodic or not, perturbed, partitioned) with random materials, absorbing layers, boundary conditions, orders, fluxes and penalties. The harness evaluates the weak forms itself and compares each element and face matrix and vector, also in the inverted and orthogonalised forms; it drives the harmonic solver through histories of problems with honest change flags and checks the residual of each solution in its own assembly; it drives both eigenvalue solvers along random wave vectors, with and without shifted functions and projector, checks each frequency and mode by its residual in its own Bloch operator, and for the mixed solver the completeness of the spectrum by inertia counts; fields, curls, error norms, field integrals and energy fluxes are recomputed.",
        "jobs": maxwell,
        "rule": "the keys of discretisation, dimension, boundary condition, flux, treatment and history exercised",
        "min_evaluations": 20000,
        "min_distinct": 60,
        "min_counters": {"element-matrices": 500, "face-matrices": 1000, "solves": 30, "eigenvalues": 300, "k-points": 60, "overlaps": 300, "spectra": 8},
        "assumptions": ["simplicial meshes of straight elements", "absorbing layers compared to 4 percent because hpGEM's rule is not exact for them", "penalties large enough that the form is coercive in the eigenvalue runs", "projector only on fully periodic meshes away from the origin of wave vector space"],
    },
    "P14": {
        "technique": "every refinement template of the real code enumerated: maps, Jacobians, node, face and sub-element tables compared with each other and with independent geometry and exact moments; refinement steps on random meshes, the resulting hierarchy, faces and measure checked",
        "note": "all templates exhaustively (tables) with random points in every sub-element; random meshes of all shapes, periodic or not",
        "jobs": lambda seed, tier: [(R, Job("refine%d" % i, "h_refine", ["--vf-cases=%d" % (400 if tier == "quick" else 2500), "--vf-salt=r%d" % i], timeout=300 if tier == "quick" else 1500)) for i in range(2 if tier == "quick" else 8)],
        "rule": "(template, sub-element or face, point or table entry) and (mesh, selection, element, face): compared with independent geometry and the model of the mesh",
        "min_evaluations": 1000000,
        "min_counters": {"templates": 35, "subfaces": 300, "steps": 300, "children": 3000},
    },
}
