"""The properties, their anchors, and how each is decided."""


def P(id, title, statement, over, qtext, why, files, mech, observe, technique, note, design):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                mech=mech, observe=observe, technique=technique, note=note, design=design)


PROPS = [
P("P01", "A loaded mesh is exactly the mesh that the mesh file describes",
  "Loading a mesh file yields exactly the elements, coordinates, zones, faces, edges and nodes the file describes, each once. "
  "Adjacency is mutual and complete: every face joins the elements and local faces the file names, every element reaches its faces, edges and nodes and these lead back to it, and two elements meet in a face along the same physical points (up to the periodic translation). "
  "Faces are classified as boundary, internal or periodic according to what they really join.",
  ["inputs", "configurations"], "any valid version 1 or 2 mesh file in 1D, 2D or 3D, any mix of element shapes, any local node numbering, periodic or not, linear or curved elements",
  "The unit tests load a handful of structured files with one node ordering; orientation codes, mixed shapes, periodic identification and zones in arbitrary combination are not enumerable there.",
  ["kernel/Base/MeshManipulator_Impl.h", "kernel/Base/Mesh_Impl.h", "kernel/Base/Face.cpp", "kernel/Base/Node.cpp", "kernel/Base/Edge.cpp", "kernel/Geometry/FaceGeometry.cpp", "kernel/Base/MeshFileInformation.cpp"],
  [("mesh reader", "kernel/Base/MeshManipulator_Impl.h"), ("face/edge/node adjacency", "kernel/Base/Face.cpp, Edge.cpp, Node.cpp"), ("face type and orientation code", "kernel/Geometry/FaceGeometry.cpp")],
  "public accessors of the loaded mesh", "", "", ""),
P("P02", "Structured mesh generation tiles exactly the requested box",
  "For every requested dimension, extent, number of cells, cell shape and choice of periodic directions, the preprocessor writes a mesh whose elements tile the box without overlap or gap, with consistent positive orientation and with exactly the nodes, faces and edges that the tiling has. "
  "Opposite sides are identified exactly in the directions that are periodic, and remain boundary in the others. Every entity is assigned to a partition, and the partition data written agree with the ownership of the elements.",
  ["inputs", "configurations"], "any box description: dimension, extents, cell counts, simplex or tensor cells, periodicity (with the documented even number of cells for simplices), number of partitions",
  "Only a few stored meshes are used by the tests; the generator itself is not run by them.",
  ["applications/Preprocessor/lib/hpgem.cpp", "applications/Preprocessor/lib/mesh", "applications/Preprocessor/lib/output_impl.h", "applications/Preprocessor/main.cpp"],
  [("structured generation", "applications/Preprocessor/lib/hpgem.cpp"), ("mesh file writer", "applications/Preprocessor/lib/output_impl.h")],
  "the written mesh file, parsed independently", "", "", ""),
P("P03", "Mesh import preserves the imported mesh and merges periodic sides exactly",
  "Importing a mesh from a supported format produces a mesh file with the same elements, shapes, physical coordinates, zones and curved geometry points, whatever the numbering or order of the entries of the input. "
  "Nodes are merged only as the requested periodicity says, which never changes a coordinate, and the faces and edges derived are exactly the ones shared by the elements.",
  ["inputs"], "any valid gmsh (2.2) or native mesh input, any node numbering, any entry order, mixed shapes, quadratic elements, with or without periodic links",
  "Unit tests of the readers use one or two fixed files; permutations of entries, gaps in numbering, mixed shapes and periodic links are unbounded.",
  ["applications/Preprocessor/lib/gmsh.cpp", "applications/Preprocessor/lib/hpgem.cpp", "applications/Preprocessor/lib/centaur.cpp", "applications/Preprocessor/lib/MergePlan.h", "applications/Preprocessor/lib/MeshFactory.h", "applications/Preprocessor/lib/ElementReorder.cpp", "applications/Preprocessor/lib/mesh", "applications/Preprocessor/lib/output_impl.h"],
  [("readers", "applications/Preprocessor/lib/gmsh.cpp, centaur.cpp, hpgem.cpp"), ("periodic merging", "applications/Preprocessor/lib/MergePlan.h"), ("face/edge derivation", "applications/Preprocessor/lib/mesh/MeshImpl")],
  "the written mesh file, parsed independently", "", "", ""),
P("P04", "A mesh distributed over processes is the sequential mesh cut into pieces",
  "For every number of processes and every assignment of elements to processes, each element is owned by exactly one process, each process also sees all elements that touch its own, and the geometry, adjacency and identifiers seen by different processes agree with the undistributed mesh. "
  "The send and receive lists of neighbouring processes match entry by entry, so that exchanging element data makes every copy equal to its owner's data.",
  ["configurations", "inputs", "schedules"], "any partition of any mesh over any number of processes, any interleaving of the messages",
  "The suite runs on one process (or one fixed partition); the partition is an input with exponentially many values.",
  ["kernel/Base/MeshManipulator_Impl.h", "kernel/Base/Submesh.cpp", "kernel/Base/MpiContainer.h", "kernel/Base/HpgemAPISimplified_Impl.h", "kernel/Base/Mesh_Impl.h"],
  [("shadow elements and push/pull lists", "kernel/Base/Submesh.cpp"), ("synchronisation", "kernel/Base/MpiContainer.h")],
  "per-process logs of what each process sees, compared offline", "", "", ""),
P("P05", "Global numbering of degrees of freedom is a consistent bijection",
  "For every mesh, mix of unknowns with discontinuous or conforming bases and numbering layout, each degree of freedom gets exactly one global index, the indices are exactly 0..N-1 in the documented order of the layout, and each process owns a contiguous range of them (in the globally blocked layout: a contiguous range for each unknown). "
  "All processes that know a degree of freedom give it the same index, and the indices of an element or face are listed in the order of its local basis functions.",
  ["configurations", "inputs"], "any mesh, partition, basis order per unknown, subset of unknowns, and layout (sequential, per process blocked, globally blocked)",
  "Tests use a few meshes on one process; correctness on several processes with mixed bases depends on the partition.",
  ["kernel/Utilities/GlobalIndexing.cpp", "kernel/Utilities/ElementLocalIndexing.cpp", "kernel/Utilities/FaceLocalIndexing.cpp"],
  [("global numbering", "kernel/Utilities/GlobalIndexing.cpp")],
  "indices returned for elements, faces, edges, nodes on each process", "", "", ""),
P("P06", "Assembled global matrices and vectors equal the sum of the local contributions",
  "A global matrix (or vector) built from element and face matrices equals the sum of all local contributions placed at the global indices of their basis functions, independent of the number of processes, of layout and of repeated reassembly. "
  "Writing local data to a global vector and reading it back is lossless, and the predicted sparsity covers every entry that is written and no row is over-predicted beyond the couplings of the mesh.",
  ["configurations", "inputs", "histories"], "any mesh, bases, unknown subsets, partitions, and sequence of (re)assembly, zeroing and Dirichlet-row operations; any layout; face coupling of rows of conforming functions only on one process, as the code refuses it on several",
  "Tests compare a few norms on stored meshes on one process.",
  ["kernel/Utilities/GlobalMatrix.cpp", "kernel/Utilities/GlobalVector.cpp", "kernel/Utilities/SparsityEstimator.cpp", "kernel/Utilities/GlobalIndexing.cpp"],
  [("assembly", "kernel/Utilities/GlobalMatrix.cpp, GlobalVector.cpp"), ("sparsity prediction", "kernel/Utilities/SparsityEstimator.cpp")],
  "entries of the assembled PETSc objects", "", "", ""),
P("P07", "Quadrature rules integrate every polynomial up to their claimed degree",
  "Each quadrature rule integrates every polynomial up to the degree it claims exactly (to rounding) on its reference shape, its points lie inside the shape, and its weights sum to the measure of the shape. "
  "Asking for a rule for a shape and degree returns a rule for that shape that claims at least that degree.",
  ["inputs", "configurations"], "all shapes, all requestable degrees, all polynomials up to the degree",
  "Tests integrate some monomials of some rules; selection of a rule by (shape, degree) is not covered for all pairs.",
  ["kernel/Integration/QuadratureRules/AllGaussQuadratureRules.cpp", "kernel/Integration/QuadratureRules"],
  [("rule tables", "kernel/Integration/QuadratureRules"), ("rule selection", "kernel/Integration/QuadratureRules/AllGaussQuadratureRules.cpp")],
  "points, weights and selection result", "", "", ""),
P("P08", "Basis functions: derivatives are true derivatives and bases are complete",
  "For every family of basis functions, shape and order, the reported derivative, curl and divergence at any point are those of the reported values, the functions are linearly independent and span the polynomial space their order promises. "
  "Evaluating through a quadrature rule, a face or any cached path gives the same numbers as direct evaluation at that point.",
  ["inputs", "configurations"], "every family, shape, supported order, point of the reference shape and access path",
  "Tests check some families at a few points; caching paths depend on call history.",
  ["kernel/FE", "kernel/Base/Element.cpp", "kernel/Base/Face.cpp", "kernel/Geometry/ReferenceGeometry.h"],
  [("basis functions", "kernel/FE"), ("cached evaluation", "kernel/FE/BasisFunctionSet.cpp, kernel/Geometry/ReferenceGeometry.cpp")],
  "values returned by sets, elements and faces", "", "", ""),
P("P09", "Conforming bases are continuous across every shared face, edge and node",
  "With conforming bases, any assignment of values to the global degrees of freedom gives one continuous function: single valued across every shared face, edge and node, and the same function on every process that knows the element. "
  "This holds for all relative orientations of neighbouring elements, for periodic faces and for meshes of mixed shapes.",
  ["inputs", "configurations"], "any mesh of supported shapes, any relative orientation of neighbours, any order",
  "The orientation combinations of two neighbours times order are far more than the stored meshes contain.",
  ["kernel/FE", "kernel/Base/MeshManipulator_Impl.h", "kernel/Geometry/FaceGeometry.cpp", "kernel/Base/ElementBasisFunctions.cpp"],
  [("orientation-aware shape function sets", "kernel/FE"), ("assignment of sets to elements", "kernel/Base/MeshManipulator_Impl.h")],
  "traces of global basis functions from both sides of each face", "", "", ""),
P("P10", "Reference and physical geometry agree under all mappings",
  "Mappings between reference shapes and to physical elements take corners to corners, agree with their reported derivative, and are inverted by the reported inverse at every interior point. "
  "A face point mapped through either neighbouring element gives the same physical point, for every orientation and every shape, and the topological tables (faces, edges, corners of a shape) agree with the coordinates.",
  ["inputs", "configurations"], "every shape, orientation code, (curved) element geometry and point",
  "Tests check single mappings with fixed points; compositions over orientation codes on real meshes are not covered.",
  ["kernel/Geometry", "kernel/Geometry/Mappings"],
  [("reference to physical mappings", "kernel/Geometry/Mappings"), ("orientation codes", "kernel/Geometry/FaceGeometry.cpp"), ("shape tables", "kernel/Geometry/Reference*.cpp")],
  "mapped points and Jacobians", "", "", ""),
P("P11", "Physical-space evaluation on elements and faces is transformation-correct",
  "At any point of any element or face, the physical basis values, gradients, curls, divergences, solution values, Jacobians and normals reported for the selected transformation equal those obtained by mapping the reference quantities, in both neighbours' functions and with unit normals pointing from the left to the right element. "
  "The answer depends only on the currently selected element or face, point and transformation and never on which were selected before.",
  ["inputs", "histories"], "any element/face/point/transformation and any order of re-selecting them and querying",
  "The caches depend on the history of selections and queries, which tests do not vary.",
  ["kernel/Base/PhysicalElement_Impl.h", "kernel/Base/PhysicalFace_Impl.h", "kernel/Base/LazyCached.h", "kernel/Base/H1ConformingTransformation.h", "kernel/Base/HCurlConformingTransformation.h"],
  [("lazy caches", "kernel/Base/LazyCached.h"), ("transformations", "kernel/Base/CoordinateTransformation.h")],
  "values returned by the physical element and face", "", "", ""),
P("P12", "Element and face integration is exact and consistent over the mesh",
  "Integrals of polynomials over affine elements and faces equal their exact values, element measures add up to the measure of the domain, and the divergence theorem holds on every element, curved ones included. "
  "The result does not depend on the local numbering of the element, on which neighbour is called left, or on how often and in which order integrals were computed.",
  ["inputs", "configurations", "histories"], "any mesh, element shape, orientation, polynomial integrand and order of calls",
  "Tests integrate a few functions over stored meshes.",
  ["kernel/Integration/ElementIntegral_Impl.h", "kernel/Integration/FaceIntegral_Impl.h", "kernel/Base/PhysicalElement_Impl.h", "kernel/Base/PhysicalFace_Impl.h"],
  [("element integral", "kernel/Integration/ElementIntegral_Impl.h"), ("face integral", "kernel/Integration/FaceIntegral_Impl.h")],
  "returned integrals", "", "", ""),
P("P13", "Dense linear algebra computes what the mathematics says",
  "Every operation on small and medium matrices and vectors (arithmetic, products, solves, inverses, determinants, factorisations, norms, reshaping, element access) gives the mathematically defined result to rounding, for every legal shape and for real and complex scalars. "
  "Operations leave their inputs unchanged unless they are in-place, and work when an operand is also the destination.",
  ["inputs", "configurations"], "all legal shapes including empty, one-dimensional, non-square and ill-scaled ones; both scalar types",
  "Tests use fixed small matrices and mostly one scalar type.",
  ["kernel/LinearAlgebra"],
  [("LAPACK/BLAS wrappers", "kernel/LinearAlgebra/MiddleSizeMatrix.cpp"), ("small matrices", "kernel/LinearAlgebra/SmallMatrix_impl.h")],
  "results of the operations", "", "", ""),
P("P14", "Refinement templates split every element shape into a valid conforming tiling",
  "For each refinement template of a line, triangle, square, tetrahedron, pyramid, prism or cube the sub-elements tile the parent without overlap and right side out, agree with the nodes and positions the template lists, and meet face to face; the template of each parent face and the table that says which sub-element lies on which part of it describe the same parts. Jacobians and their inverses belong to the maps. "
  "Refining a selection of elements of a mesh no two of which share a face (in one dimension: any selection) replaces exactly those by such children, keeps zones, levels, parent-child relations, the domain's measure and all other elements, and gives every face of every active element its right type and neighbours.",
  ["inputs", "histories"], "all templates; any point of a sub-element; any mesh of refinable shapes and any such selection",
  "Tests compare Jacobians with the maps, not the maps with the node and face tables, and never refine a mesh.",
  ["kernel/Base/MeshManipulator_Impl.h", "kernel/Geometry/Mappings", "kernel/Base/LevelTree_Impl.h"],
  [("refinement step", "kernel/Base/MeshManipulator_Impl.h"), ("refinement maps", "kernel/Geometry/Mappings/RefinementMaps*.h")],
  "node, face and sub-element tables of all templates; element and face trees and geometry after a refinement step", "", "", ""),
P("P15", "Hierarchy traversal visits each entry once in order, on every level",
  "After any sequence of building and extending the level hierarchy, each traversal (one level, all levels, active leaves, pre- and post-order) visits exactly the entries it should, each once, in the documented order, forwards and backwards. "
  "Parent, child, sibling and level queries agree with the way the entries were added.",
  ["histories"], "any sequence of insertions and any traversal order and direction",
  "Tests build two or three fixed trees.",
  ["kernel/Base/LevelTree_Impl.h", "kernel/Base/TreeIterator.h", "kernel/Base/TreeEntry.h"],
  [("iterators", "kernel/Base/TreeIterator.h"), ("tree", "kernel/Base/LevelTree_Impl.h")],
  "visited sequences compared with an independent tree model", "", "", ""),
P("P16", "Time integration schemes have the order and stability structure they claim",
  "Every time integration scheme offered integrates a system of ordinary differential equations with the order it claims, and its coefficients satisfy the corresponding order conditions and consistency. "
  "Schemes marked as total variation diminishing are convex combinations of forward Euler steps, and embedded error estimators have their claimed order.",
  ["inputs", "configurations"], "every scheme, every requestable (order, stages) combination, any problem",
  "Tests check coefficients of some schemes only.",
  ["kernel/Base/TimeIntegration"],
  [("Butcher tableaux", "kernel/Base/TimeIntegration")],
  "coefficients and convergence of the real stepping code", "", "", ""),
P("P17", "Data stored on elements and faces is returned exactly where it was put",
  "Coefficients, time levels, vectors, matrices and user data stored on an element or face under any (unknown, basis function, time level, side, id) are returned exactly under the same key, and no other key is disturbed. "
  "Local index conversions are bijections that agree with the layout in which coefficients are stored, for any mix of basis sizes per unknown.",
  ["histories", "configurations"], "any number of unknowns, basis sizes per unknown, time levels, sides and any sequence of writes and reads",
  "Tests use one unknown or equal sizes; key collisions need mixed sizes and long histories.",
  ["kernel/Base/ElementData.cpp", "kernel/Base/FaceData.cpp", "kernel/Base/FaceMatrix.cpp", "kernel/Base/Element.h", "kernel/Base/Face.cpp", "kernel/Utilities/ElementLocalIndexing.cpp", "kernel/Utilities/FaceLocalIndexing.cpp"],
  [("element data", "kernel/Base/ElementData.cpp"), ("face matrix", "kernel/Base/FaceMatrix.cpp")],
  "returned data against a map model", "", "", ""),
P("P18", "Output files show exactly the mesh and the field that were written",
  "Files written for visualisation are well formed and contain, for every element, its shape, its corner positions and the given field evaluated at those positions, on every process, with every element present exactly once. "
  "Repeated writes and time series refer to the right files and times.",
  ["inputs", "configurations", "histories"], "any mesh shape mix, polynomial order, field type, number of processes and sequence of writes",
  "Tests compare one fixed output or only check that writing does not fail.",
  ["kernel/Output"],
  [("VTK writers", "kernel/Output/VTKSpecificTimeWriter_Impl.h"), ("Tecplot writer", "kernel/Output/TecplotDiscontinuousSolutionWriter_Impl.h")],
  "the written files, parsed independently", "", "", ""),
P("P19", "Solver interfaces compute the discrete solution exactly, on any partition",
  "Running a discontinuous Galerkin simulation through the solver interface gives the discrete solution defined by its element and face contributions: right hand sides, time derivatives, time steps from the initial to exactly the final time and steady states are those of the semi-discrete system, conserved totals stay constant to rounding, initial conditions are projected exactly when representable, and reported errors are the true errors. "
  "The results do not depend on the number of processes beyond rounding, and copies of neighbouring elements on other processes always hold their owner's values.",
  ["inputs", "configurations", "schedules"], "any mesh, order, time integrator, initial condition and number of processes",
  "Tests compare fixed error norms on one process.",
  ["kernel/Base/HpgemAPISimplified_Impl.h", "kernel/Base/HpgemAPILinear_Impl.h", "kernel/Base/HpgemAPIBase_Impl.h"],
  [("time stepping", "kernel/Base/HpgemAPISimplified_Impl.h"), ("linear solver interface", "kernel/Base/HpgemAPILinear_Impl.h")],
  "solution coefficients and norms", "", "", ""),
P("P20", "The Maxwell solvers solve the discretised Maxwell equations exactly",
  "For every simplicial mesh, material, absorbing layer, boundary condition, order and penalty the matrices and vectors of both Maxwell discretisations are those of their weak forms, whichever flux or mass matrix treatment is chosen. "
  "Every harmonic solution in a history of changing frequencies, sources and boundary conditions solves the current problem; every reported frequency and mode is an eigenpair of the operator with Bloch phases for the current wave vector; and reported fields, curls, errors, integrals and energy fluxes are those of the computed field. None of this depends on the partition over processes.",
  ["inputs", "configurations", "histories"], "any simplicial mesh, order, material distribution, frequency, wave vector, solver history and number of processes, for both discretisations",
  "Tests compare a few numbers on stored meshes.",
  ["applications/DG-Max/Algorithms", "applications/DG-Max/Utils", "applications/DG-Max/ElementInfos.cpp"],
  [("discretisations", "applications/DG-Max/Algorithms"), ("phase shifts", "applications/DG-Max/Utils/KPhaseShift.cpp"), ("materials", "applications/DG-Max/PMLElementInfos.cpp")],
  "local matrices, solutions, modes and derived quantities", "", "", ""),
P("P21", "Command line options are parsed into exactly the values given",
  "Every declared option given on the command line, by short or long name, in any order and with any legal value, is set to exactly that value; options not given keep their default, and a missing required option, unknown option or malformed value is refused. "
  "Sequences, flags and numeric values survive unchanged.",
  ["inputs", "histories"], "any set of declared options and any argument vector",
  "Tests parse one fixed argument vector.",
  ["kernel/Base/CommandLineOptions.cpp", "kernel/Base/CommandLineOptions.h", "kernel/Base/CommandLineHelpers.h"],
  [("option parser", "kernel/Base/CommandLineOptions.cpp")],
  "option values after parsing against a model", "", "", ""),
]
