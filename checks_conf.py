"""Which programs decide which property, in which build variants, and within which bounds.
rel: the library as released; dbg: with T8_ENABLE_DEBUG (internal assertions on); asan: dbg with address and
undefined-behaviour sanitizers."""
LEVEL_ASSUMPTIONS = [
    "ranks are fibers of one process under a virtual MPI (vmpi/); its semantics of MPI stand in for a real MPI library",
    "apt's libsc/p4est 2.3.6 with thin aliases for the missing MPI wrapper names (shim/) stand in for the pinned libsc",
    "nothing outside the stated bounds is covered",
]
def both(*progs):
    return [(p, "rel") for p in progs] + [(p, "dbg") for p in progs]
def three(*progs):
    return both(*progs) + [(p, "asan") for p in progs]
PATHS = ("default scheme: vertex, line, quad, tri, hex, tet, prism, pyramid; standalone scheme: vertex, line, quad, hex; "
         "all elements down to level {q} (quick) / {t} (thorough) per class, and down to the maximum level of the class "
         "every element whose refinement path deviates {dev} from a constant path (thorough: also alternating paths)")
CHECKS = {
    "C01": dict(quick=both("c01"), thorough=three("c01"),
                bounds=PATHS.format(q="3 to 8", t="4 to 20", dev="at most twice (the second time within two levels of the first or of the maximum level in quick)"),
                technique="bounded exhaustive enumeration of refinement paths of the real element schemes against a path model of the refinement tree",
                note="Every hierarchy query (parent, child, siblings, ancestor, nca, family, level, counts, copy, equality) on every enumerated element is compared with the path it was built from."),
    "C02": dict(quick=both("c02"), thorough=three("c02"),
                bounds=PATHS.format(q="3 to 8", t="4 to 20", dev="at most once") + "; ids on all levels whose ids fit into 64 bits (quick: every third of the levels far from the element's)",
                technique="bounded exhaustive enumeration of elements against a subtree-counting model of the space-filling-curve index",
                note="Index, inverse, successor, first/last descendant, leaf counts and order of every enumerated element are compared with subtree sizes computed from the refinement rule alone."),
    "C03": dict(quick=both("c03"), thorough=three("c03"),
                bounds=PATHS.format(q="3 to 8", t="4 to 20", dev="at most twice (the second time within two levels of the first or of the maximum level)"),
                technique="bounded exhaustive enumeration of elements with exact integer geometry as oracle",
                note="Exact volumes, containment, pairwise disjoint interiors, midpoint conformity and the affine reference map of every enumerated element and its children."),
    "C04": dict(quick=both("c04"), thorough=three("c04"),
                bounds=PATHS.format(q="3 to 8", t="5 to 20", dev="at most twice (quick: the second time within two levels of the first or of the maximum level)"),
                technique="bounded exhaustive enumeration of (element, face) with exact integer geometry as oracle",
                note="Neighbour, dual face, inverse, boundary test and tree face of every face of every enumerated element are compared with exact geometry."),
    "C05": dict(quick=both("c05", "c05g"), thorough=three("c05", "c05g"),
                bounds=PATHS.format(q="3 to 8", t="4 to 20", dev="at most once") + "; cross-tree: all pairs of classes of one dimension (and one tree glued to itself), all pairs of faces of one type, all orientations, both argument orders, elements down to level 2 (3D) / 4 (2D) (thorough 3 / 6) and to the maximum level on near-constant paths",
                technique="bounded exhaustive enumeration of (element, face) and of all two-tree gluings, with exact geometry of the face identification as oracle",
                note="Face children, parent/ancestor faces, face descendants, boundary/extrude and the neighbour across every possible tree gluing are compared with exact geometry; the gluing oracle derives the corner map from the documented orientation rule and orientability alone."),
    "C06": dict(quick=both("c06"), thorough=three("c06"),
                bounds="40 coarse meshes of 1 to 4 trees of all classes, uniform levels up to 3 (1D/2D) / 2 (3D), 1 to 9 (thorough 17) processes, replicated, uniformly partitioned and skewed partitioned coarse meshes, both uniform-bounds functions; bounds alone for every level up to 19 (3D), 29 (2D), 28 (1D) on up to 17 (40) processes, for 1 to 300 (600) trees on up to 13 (33) processes, and from any uniform partition to any other on up to 25 (40) processes",
                technique="exhaustive enumeration of (mesh, level, number of processes, coarse-mesh distribution) on the real code under a virtual MPI, against a leaf-sequence model",
                note="Every process's leaves, counts, trees, offsets and first descendants are compared with the model sequence cut at floor(n*p/P); the bounds functions are compared with the same cuts."),
    "C07": dict(quick=both("c07"), thorough=three("c07"),
                bounds="15 meshes of 1 to 3 trees, uniform level 0-1 (lines 2) plus up to 2 refined elements, or chains of 3 to 7 levels, 1 to 3 processes with chosen cuts including empty processes, all default verdicts with up to 2 deviating leaves (refine, keep, coarsen, remove), second adaptation of forests with holes; recursive adaptation between all pairs of such models; refinement without end to the maximum level; user data and user function of the forest seen by the callback in every combination",
                technique="exhaustive enumeration of (forest, distribution, callback verdicts) on the real code under a virtual MPI, against a model of adaptation on leaf sequences",
                note="The sequence of callback calls with their family flags, the resulting leaves of every process and the unchanged source are compared with the model."),
    "C08": dict(quick=both("c08"), thorough=three("c08"),
                bounds="16 meshes of 1 to 4 trees, uniform level 0-1 (lines 2) plus up to 2 (thorough 3) refined elements, 1 to 4 (thorough 5) processes, every initial distribution of up to 5-9 leaves (thorough 20; larger: cuts at the ends, thirds and middle) including empty processes; targets: even split, weights (default weight and up to 2 deviating leaves from 5 values), every explicit offset list (small forests), gather to every rank, forests with up to 3 removed leaves; replicated and partitioned coarse meshes; up to 4 (thorough 6) MPI behaviours",
                technique="exhaustive enumeration of (forest, old distribution, requested shares, MPI behaviour) on the real code under a virtual MPI, against a leaf-sequence model",
                note="Leaves, counts, trees, offsets and first descendants of every process after the partition, the unchanged source and the partition of the coarse mesh are compared with the model sequence cut at the requested positions."),
    "C09": dict(quick=both("c09"), thorough=three("c09"),
                bounds="15 meshes of 1 to 3 trees, uniform level 0-2 (lines 3) plus 1 to 3 refined elements, or chains of 3 to 9 levels, 2 to 5 processes, every initial distribution of small forests, plain, weighted and explicitly requested boundaries, up to 6 MPI behaviours",
                technique="exhaustive enumeration of (forest, old distribution, requested boundaries, MPI behaviour) on the real code under a virtual MPI, against a model of the families of a leaf sequence",
                note="Every boundary that would split a family has moved to an end of that family, every other one has stayed, no family is split, and leaves, offsets and the unchanged source agree with the model."),
    "C10": dict(quick=both("c10"), thorough=three("c10"),
                bounds="37 meshes of 1 to 4 trees (all classes, all kinds of interfaces, periodic and self-glued), up to 4 (thorough 5) successively refined elements, or chains of 4 to 12 levels into one corner, 1 to 3 processes with chosen cuts including empty processes, balance with and without repartition, on a copy, after adapt, after adapt and partition, on a partitioned coarse mesh",
                technique="exhaustive enumeration of (forest, distribution, way of balancing) on the real code under a virtual MPI, against the least balanced refinement computed from exact face adjacency",
                note="The leaves of the balanced forest are compared with the closure of the input under the 2:1 rule, computed from exact corner coordinates and the gluing of the trees; the balanced report and the unchanged source are compared as well."),
    "C11": dict(quick=both("c11"), thorough=three("c11"),
                bounds="all meshes of the catalogue with faces (1 to 4 trees, all classes and kinds of interfaces), up to 3 successively refined elements, or chains of 4 to 12 levels, 2 to 5 processes with chosen cuts including empty processes, ghost algorithms 1, 2 and 3, ghosts built on a copy, after adapt, after partition, on uniform forests and on partitioned coarse meshes",
                technique="exhaustive enumeration of (forest, distribution, way of building the layer) on the real code under a virtual MPI, against the face adjacency computed from exact coordinates",
                note="Ghost trees, elements, order, owners, remote lists and counts of every process are compared with the exact adjacency of the model."),
    "C12": dict(quick=both("c12"), thorough=three("c12"),
                bounds="catalogue meshes, up to 3 successively refined elements, or chains of 4 to 8 levels, 2 to 5 processes with chosen cuts, data sizes 1 to 40 bytes, all ghost algorithms, blocking and split exchange; repartition between all pairs of chosen cuts, fixed and variable sized data, eager and synchronous sends, forward and reverse message order",
                technique="exhaustive enumeration of (forest, distributions, data size, message mode) on the real code under a virtual MPI, data values derived from the element identity as oracle",
                note="Each element's bytes are a function of its identity and its owner; every byte of every ghost and moved element is compared."),
    "C13": dict(quick=both("c13"), thorough=three("c13"),
                bounds="catalogue meshes, up to 3 successively refined elements, or chains of 4 to 14 levels, 1 to 4 processes with chosen cuts, with and without ghosts, uniform, adapted, partitioned coarse mesh",
                technique="exhaustive enumeration of (forest, distribution, leaf, face) on the real code under a virtual MPI, against exact face adjacency",
                note="Neighbour elements, indices, dual faces, orientation and tree of every face of every leaf are compared with the exact adjacency; also the same-level neighbour and half-face-neighbour queries."),
    "C14": dict(quick=both("c14"), thorough=three("c14"),
                bounds="catalogue meshes, uniform level 0-1 plus up to 2 refined elements, or chains of 3 to 7 levels, 1 and 2 processes with chosen cuts, with and without ghosts and holes; five search interfaces (C, C++ plain, with queries, batched), all single and double reject / drop-query patterns on the reachable nodes; face iteration on every face of local and ghost trees; replace iteration after all adaptations with up to 2 deviating leaves, with holes and removals; queries and forests of a search object replaced between searches",
                technique="exhaustive enumeration of (forest, distribution, callback verdicts, active queries) on the real code under a virtual MPI, against a recursive traversal of the leaf-sequence model",
                note="The full sequence of callback invocations (element, tree, leaf flag, leaf index, active queries, user data) is compared with the traversal of the model."),
    "C15": dict(quick=both("c15"), thorough=three("c15"),
                bounds="catalogue meshes, up to 3 successively refined elements, or chains of 3 to 8 levels, 1 to 5 processes with chosen cuts including empty processes, queried elements: all ancestors of leaves, leaves and their children, all search bounds, initial bounds and guesses, with and without a list to fill",
                technique="exhaustive enumeration of (forest, distribution, element, search bounds) on the real code under a virtual MPI, against the owner of the model's leaf ranges",
                note="Owner, owner check, owner bounds, owners at faces and at neighbour faces of every element are compared with the leaf ranges of the model."),
    "C18": dict(quick=both("c18"), thorough=three("c18"),
                bounds="small meshes of 1 to 3 trees of all classes: all permutations of the specifying calls (up to 7 calls), all gluings of two trees (all faces, orientations, argument orders) and of one tree with itself, all pairs of 9 attribute sets (0 to 5 attributes of 0 to 1000 bytes under 2 packages) on 3 trees, persistent and copied data; commit as a partitioned mesh on 1 to 4 processes with every distribution of the trees (shared first trees, empty processes), given by range, offsets, minimal or complete tree information; joins derived from vertices, also with rounding errors and between faces of equal coordinate sums",
                technique="exhaustive enumeration of specification histories on the real code under a virtual MPI, against the specification itself",
                note="Every query of the committed mesh on every process (ids, classes, ghosts, neighbours, orientations, boundaries, attributes, vertices, partition table, equality) is compared with what was specified."),
    "C19": dict(quick=both("c19"), thorough=three("c19"),
                bounds="14 meshes of 1 to 5 trees and all ways to connect the ends of 3 (thorough 4) lines; 1 to 4 (thorough 5) processes; start replicated or in every distribution (shared first trees, empty processes), then 1 or 2 (thorough 3) derivations: every explicit table, every set of ranges, uniform levels 0 to 2, plain copy; 5 attribute patterns; broadcast from every root before and after commit; up to 4 (thorough 6) MPI behaviours",
                technique="exhaustive enumeration of sequences of derivations on the real code under a virtual MPI, against the specification and the requested distribution",
                note="After each step every query of the new mesh and of its source on every process (ids, classes, ghosts, neighbours, orientations, attributes, vertices, partition table) is compared with the specification."),
    "C16": dict(quick=both("c16"), thorough=both("c16"),
                bounds="11 meshes, forests of up to 3 refined elements, 2 to 4 (thorough 5) processes, up to 6 distributions; pipelines of adapt, partition, balance, ghost, data exchange, coarse-mesh partition and broadcast; all 16 combinations of send protocol, receive progress, collective synchronisation and rank order, all node layouts; at wildcard receives and probes every set of candidates with up to 1 (thorough 2) deviations from the default choice; with one delayed process at every blocking point",
                technique="exhaustive exploration of message schedules of the real code under a virtual MPI (all candidates at wildcard receives and probes, all send protocols, rank orders and node layouts; delay-bounded), results compared across schedules",
                note="Each pipeline must terminate, its MPI calls must match (collective order, types, counts, no message left over) and its results on every process must equal those of the reference schedule."),
    "C17": dict(quick=both("c17") + [("c17", "asan")], thorough=three("c17"),
                bounds="all histories of 2 to 3 (thorough 3 to 4) actions out of about 30 to 70 (create, copy, adapt, partition, balance, ghost, ref, unref, share, profiling) on forests, coarse meshes and schemes over 5 meshes, 1 and 2 (thorough 3) processes, both orders of the final release",
                technique="exhaustive enumeration of operation histories on the real code under a virtual MPI, with reference-count, content and allocation oracles; also under AddressSanitizer",
                note="After each action every live object still has its contents; at the end every allocation, communicator and MPI object is released exactly once."),
    "C20": dict(quick=both("c20"), thorough=three("c20"),
                bounds="all set partitions of up to 8 (thorough 10) tree corners into global vertices over 17 (thorough 24) lists of trees of all classes, 6 assignments of vertex numbers, all orders of the specifying calls; the two conversion classes alone with all orders of the last 4 to 5 additions; regular numberings of up to 100 trees",
                technique="exhaustive enumeration of vertex identifications and specification orders on the real code, against the specified relation",
                note="Both directions of the map, counts and iteration are compared with the specified relation and with each other."),
    "C21": dict(quick=both("c21"), thorough=three("c21"),
                bounds="histories of 3 (thorough 4) out of 8 operations on two arrays on 1 to 4 (thorough 6) processes with every node layout and all 4 memory types; histories of 2 operations with one delayed process; 8 element types for gather and prefix; binary search in all positions of arrays up to 70 (thorough 200); all offset tables with processes + trees <= 8 (thorough 9) and all pairs of them; set-up, element sizes, copies and equality of arrays; random tables for every sequence of random numbers",
                technique="exhaustive enumeration of operation histories, node layouts and offset tables on the real code under a virtual MPI, against a sequential array model and a direct reading of the tables",
                note="Every entry on every process is compared with the model after each operation; every query of offset tables with its definition."),
    "C22": dict(quick=both("c22") + [("c22", "asan")], thorough=three("c22"),
                bounds="packing of all elements of full levels and of deep paths, all chunkings for small levels; histories of 4 (thorough 5) out of 15 operations on two element arrays for 12 scheme classes; search functions on all small refinement patterns and subsets; data handler histories of 2 to 3 sends on 1 to 3 (thorough 4) processes under 8 MPI behaviours",
                technique="exhaustive enumeration of elements, operation histories and message modes on the real code under a virtual MPI, against a model of arrays and messages",
                note="Unpacked elements and data equal what was packed, nothing outside the buffers is touched, arrays equal a model list after every operation."),
    "C23": dict(quick=both("c23"), thorough=both("c23"),
                bounds="trees of all classes with linear, axis-aligned, analytic (and its derivative), collapsed, mapped and Lagrange geometry (degree 1 and 2), 13 affine maps and all signed permutations of the axes, tapered trees; elements of level 0 to 2 (thorough 3) of both schemes and deep paths; a lattice of reference points in and around each element and its faces; single Lagrange elements and their faces; corners of faces and edges, projections from corners; two trees joined in every admissible way; batches of points in both orders; histories of 4 (thorough 5) queries that alternate between trees, geometries and meshes, destroyed meshes included",
                technique="exhaustive enumeration of (geometry, tree, element, point, query history) on the real code, against an independent evaluation of the tree's map on exact element corners",
                note="Corner coordinates, mapped points (single and in batches), centroids, volumes, diameters, face points, face areas and normals, and inside tests are compared with an independent evaluation."),
    "C24": dict(quick=both("c24") + [("c24", "asan")], thorough=both("c24"),
                bounds="VTK: catalogue meshes of 1 to 4 trees, up to 2 refined elements, 1 to 3 processes with chosen cuts, with and without ghosts, all 16 combinations of cell arrays, 5 sets of data fields, forests and coarse meshes (replicated and partitioned with ghosts); Gmsh: all gluings of two cells of equal dimension and catalogue meshes, cells that share any subset of their nodes, node numbers that collide in hash tables, 2 to 4 tag patterns, node and element blocks, additional lower-dimensional elements, parametric nodes, 1 to 3 processes, replicated or read by every choice of the main process; 7 kinds of unreadable files, truncated after every line",
                technique="exhaustive enumeration of (mesh, distribution, output options) and of (mesh, file layout, processes) on the real code under a virtual MPI, written files parsed and compared with the model, read meshes compared with the cells of the file; also under AddressSanitizer",
                note="Files are parsed by an independent parser and every point, cell, array and piece reference is compared with the model; trees, corner order, joins, vertex numbers and node attributes of read meshes are compared with the cells in the file; unreadable files give no mesh on any process and leave nothing behind."),
    "C25": dict(quick=both("c25"), thorough=three("c25"),
                bounds="handles with 3 sets of competences on the catalogue meshes with faces (1 to 4 trees), uniform level 0 to 1 plus up to 2 (thorough 3) refined elements, 1 to 5 processes with chosen cuts, with and without ghosts, replicated and partitioned coarse meshes; histories of 1 to 2 (thorough 2 to 3) commits out of 9 (thorough 12) combinations of adapt, partition, balance and ghost with 6 verdict patterns over 10 meshes; all 16 sets of requests given up uncommitted; ready-made hypercube handles of all classes, levels 0 to 2, periodic or not",
                technique="exhaustive enumeration of (forest, distribution, competences, history of commits) on the real code under a virtual MPI, against the leaf-sequence model, exact geometry and exact face adjacency",
                note="Every query of every element and ghost is asked twice in two orders and compared with the model; the face list is compared with the exact adjacency (each face of each local element once, all sides, kind, orientation); callback calls, element data, forests and allocations are compared as well."),
    "C26": dict(quick=both("c26"), thorough=three("c26"),
                bounds="all constructors of t8_cmesh_examples.h but those of the CAD interface: single trees, hypercubes (8 classes, replicated, broadcast, partitioned, periodic), padded hypercubes of up to 3x3x3 (thorough 5x4x4) cubes on 4 boundaries with all periodicities, axis-aligned or not, partitioned or one per process, disjoint bricks with empty processes, bricks up to 3x3x3 (thorough 4x4x4), cakes, rows and long bricks of up to 8 (thorough 14) trees, hybrid and test meshes, disk, 4 sphere surfaces, 3 shells (levels 0 to 2, 1 to 3 layers; thorough 0 to 3, 1 to 5), cubed sphere for 3 radii, 20 p4est/p8est connectivities; 1 to 4 (thorough 5) processes",
                technique="exhaustive enumeration of (constructor, parameters, number of processes) on the real code under a virtual MPI, against exact face coincidence on a lattice of points",
                note="Every face of every tree is compared on a lattice of points with the face it is joined to, every pair of coinciding faces must be joined, boundary faces must lie on the boundary of the domain, volumes must add up; curved domains by radii and Euler characteristic."),
    "C27": dict(quick=both("c27"), thorough=three("c27"),
                bounds="C wrappers of the schemes: " + PATHS.format(q="2 to 5", t="3 to 8", dev="at most once") + ", with all faces, corners, children, orientations and ancestors as arguments; up to 4 references to a scheme; 11 geometries created and released in C",
                technique="bounded exhaustive enumeration of (element, arguments) with the C++ interface as reference model",
                note="Every C call is made next to the C++ call with the same arguments; results, output elements, packed bytes, texts and life cycles must be the same."),
    "C28": dict(quick=both("c28"), thorough=three("c28"),
                bounds="17 meshes (all classes, hybrid, periodic, disconnected, standalone scheme), " + "all forests and distributions reached by up to 2 (quick) or 3 (thorough) refinements or by chains of 3 to 8 refinements on 1 to 3 processes; all ancestors, leaves and children of leaves as arguments; all pairs of small forests and distributions for equality; 1 to 17 (40) processes for the least non-empty level",
                technique="bounded exhaustive exploration of forests, distributions and query arguments on the real code, with an explicit leaf-set model as oracle",
                note="Each query is compared with what the list of leaves, ghosts and trees of the model says."),
}
