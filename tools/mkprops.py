#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
SCH = ["src/t8_schemes/t8_scheme.cxx", "src/t8_schemes/t8_scheme.hxx",
       "src/t8_schemes/t8_default/*", "src/t8_schemes/t8_standalone/*"]
NOTBUILT = "The stable tests do not even compile this code (libsc too old); upstream's tests sample "

p("C01", "Refinement hierarchy of elements is a consistent tree",
  "For every element of every supported shape, in each available refinement scheme and at every level below the maximum, refining gives exactly the announced number of distinct children whose parent is that element, whose child numbers are 0..n-1 in order and whose levels are one higher; sibling, family, ancestor, nearest-common-ancestor and equality queries agree with that tree. Copying, initialising and setting an element to the root, and the queries for level, maximum level and number of children, siblings, faces and corners, agree with it too.",
  ["inputs", "configurations"], "all elements of all element shapes, both schemes, all levels up to the maximum",
  NOTBUILT + "recursion to a small fixed level; the tree must be consistent on all of 8^21 or so elements, down to the coordinates' last bit.",
  SCH, [("children/parent/child_id/family/nca", "t8_default_<shape>/, t8_d<shape>_bits.c, t8_standalone_implementation.hxx")],
  ["t8_scheme element_get_children/child/parent/sibling/child_id/ancestor_id/nca/family checks"])
p("C02", "Space-filling-curve index is an order-preserving bijection on each level",
  "On every level the elements of a tree are numbered 0..N-1 by their linear index, with N the announced count; setting an element from its index inverts the numbering, and successor, comparison, first and last descendant and descendant counts all agree with the order in which a depth-first traversal in child order visits the elements.",
  ["inputs", "configurations"], "all elements and pairs of elements, both schemes, all levels up to the maximum",
  NOTBUILT + "uniform levels up to about 4; carry propagation, type tables and 64-bit overflow only show on other paths or at deep levels.",
  SCH, [("linear_id/set_linear_id/successor/first,last_descendant/compare", "t8_d*_bits.c, t8_standalone_implementation.hxx")],
  ["t8_scheme element_get_linear_id, element_set_linear_id, element_construct_successor, element_get_first/last_descendant, element_compare, count_leaves_from_*"])
p("C03", "Children tile their parent without gaps or overlaps",
  "The reference coordinates of an element's corners span a non-degenerate element of the announced shape inside the reference tree; the children of every element are pairwise disjoint in their interior, lie inside it and together have exactly its volume. Mapping reference points of an element into the tree agrees with its corner coordinates, and the default and the standalone scheme describe the same subdivision where both support a shape with the same refinement.",
  ["inputs", "configurations"], "all elements of all shapes, both schemes, all levels up to the maximum",
  NOTBUILT + "vertex coordinates of a few elements; a wrong type table entry or corner rule shows only for particular element types and parents.",
  SCH, [("vertex/reference coordinates", "t8_d*_bits.c compute_integer_coords / compute_reference_coords, t8_standalone_implementation.hxx")],
  ["t8_scheme element_get_vertex_reference_coords, element_get_reference_coords, element_get_shape"])
p("C04", "Face neighbours inside a tree are mutual and geometrically adjacent",
  "For every element and face, the same-level neighbour across that face inside the tree exists exactly if the face does not lie on the tree's boundary; it shares exactly that face geometrically, the reported neighbour face number is right, and asking the neighbour across that face returns the original element and face.",
  ["inputs", "configurations"], "all elements, all their faces, both schemes, all levels up to the maximum",
  NOTBUILT + "levels up to about 4, mostly checking only the inverse; all types, all boundary positions and deep levels are outside.",
  SCH, [("face_neighbor_inside, is_root_boundary, tree_face", "t8_d*_bits.c, t8_standalone_implementation.hxx")],
  ["t8_scheme element_get_face_neighbor_inside, element_is_root_boundary, element_get_tree_face"])
p("C05", "Face hierarchy and cross-tree face transforms are consistent",
  "For every element and face: the children touching the face, their face numbers and their order agree with the subdivision of the face itself; restricting an element on the tree boundary to its face and extending it back is the identity; first and last face descendants are the first and last descendants touching the face. For every pair of trees glued along a face in any admissible orientation, the neighbour element constructed across the gluing touches the same points of the shared face, and crossing back returns to the start.",
  ["inputs", "configurations"], "all elements and faces of all shapes, all face-to-face gluings (shape pair, face pair, orientation) of two trees, both directions",
  NOTBUILT + "a few cmeshes; the combinations (face pair x orientation x sign x type) that hit a given branch of the transform are mostly absent.",
  SCH + ["src/t8_forest/t8_forest.cxx", "src/t8_eclass/t8_eclass.c"],
  [("children_at_face, face_child_face, face_parent_face, boundary_face, extrude_face, transform_face, face descendants", "t8_schemes/*"),
   ("t8_forest_element_face_neighbor", "src/t8_forest/t8_forest.cxx")],
  ["t8_scheme element_get_children_at_face, element_face_get_child_face, element_face_get_parent_face, element_get_boundary_face, element_extrude_face, element_transform_face, element_get_first/last_descendant_face", "t8_forest_element_face_neighbor"])
p("C06", "Uniform forests contain every element once, in order, evenly distributed",
  "A uniform forest of any level on any coarse mesh and any number of processes consists of exactly all elements of that level of every tree, each once, in curve order across ascending process ranks, with per-process counts that differ by at most one where the mesh allows a balanced split; the global content does not depend on the number of processes. The coarse-mesh uniform bounds predict exactly which elements each process gets.",
  ["inputs", "configurations", "schedules"], "all coarse meshes (shapes, mixtures, incl. pyramids and replicated or partitioned storage), levels, process counts incl. more processes than elements",
  NOTBUILT + "some process counts (1..8) with a few meshes; boundaries falling between and inside trees at every possible place need all (trees, level, P) combinations.",
  ["src/t8_forest/t8_forest.cxx", "src/t8_forest/t8_forest_private.cxx", "src/t8_cmesh/t8_cmesh.cxx", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx"],
  [("t8_forest_populate", "src/t8_forest/t8_forest.cxx"), ("t8_cmesh_uniform_bounds_*", "src/t8_cmesh/t8_cmesh.cxx, t8_cmesh_partition.cxx")],
  ["t8_forest_new_uniform and leaf iteration on every rank", "t8_cmesh_uniform_bounds_equal_element_count", "t8_cmesh_uniform_bounds_for_irregular_refinement"])
p("C07", "Adaptation applies exactly the callback's verdicts",
  "Adapting a forest replaces precisely the elements the callback marks: refined ones by their children, families voted for coarsening by their parent, removed ones by nothing, all others kept, with the result in curve order and never beyond the maximum level; recursive mode continues until the callback asks for no more. The callback is asked about every leaf in order, with a complete family flag exactly when a whole family is presented, and the source forest is left unchanged.",
  ["inputs", "histories", "configurations"], "all forests within bounds and all callback verdict functions, recursive and not, with and without removal, any partition",
  NOTBUILT + "a handful of fixed adapt rules; verdict patterns that break family detection or recursive coarsening are combinatorial.",
  ["src/t8_forest/t8_forest_adapt.cxx", "src/t8_forest/t8_forest.cxx"],
  [("t8_forest_adapt", "src/t8_forest/t8_forest_adapt.cxx"), ("family checks, incomplete trees", "src/t8_forest/t8_forest_adapt.cxx")],
  ["t8_forest_new_adapt / t8_forest_set_adapt + commit, callback arguments, leaves after commit"])
p("C08", "Repartitioning preserves the element sequence and honours the requested shares",
  "Partitioning a forest leaves the global sequence of leaves unchanged and gives every process a contiguous piece of it: by default all piece sizes differ by at most one, with a weight function the pieces are those of the weighted split, with explicit offsets exactly the requested ones. Afterwards every process agrees on element offsets, tree offsets and global first descendants, for any previous distribution including empty processes.",
  ["inputs", "configurations", "schedules"], "all leaf sequences, all old and new distributions of them over the processes, weight functions, send modes",
  NOTBUILT + "uniform or one adapted forest with one previous distribution; errors at empty ranks or tree boundaries need specific old/new offset pairs.",
  ["src/t8_forest/t8_forest_partition.cxx", "src/t8_forest/t8_forest.cxx", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.c"],
  [("t8_forest_partition", "src/t8_forest/t8_forest_partition.cxx"), ("weighted partition / set_partition_offset", "src/t8_forest/t8_forest_partition.cxx")],
  ["t8_forest_set_partition(+weight), t8_forest_set_partition_offset, leaves on every rank, offset arrays"])
p("C09", "Partitioning for coarsening never splits a family",
  "With partition-for-coarsening requested, no complete family of leaves is split between processes after the partition, the global sequence of leaves is preserved, and the partition differs from the plain one only in that boundaries that would split a family are moved to an end of that family.",
  ["inputs", "configurations", "schedules"], "all leaf sequences, distributions and process counts, families spanning two or more processes",
  NOTBUILT + "few adapted forests; a family spread over three or more ranks or starting at a rank's last element needs specific distributions.",
  ["src/t8_forest/t8_forest_partition_for_coarsening.cxx", "src/t8_forest/t8_forest_pfc_helper.cxx", "src/t8_forest/t8_forest_pfc_message.hxx", "src/t8_forest/t8_forest_partition.cxx"],
  [("pfc correction of offsets", "src/t8_forest/t8_forest_partition_for_coarsening.cxx")],
  ["t8_forest_set_partition (forest, from, 1) and leaves on every rank"])
p("C10", "2:1 balance yields the least balanced refinement",
  "Balancing a forest yields a forest in which leaves sharing part of a face, inside a tree or across trees, differ by at most one level; it is the coarsest such refinement of the input, contains no coarsened element, and does not depend on the number of processes, on how the input was distributed, or on whether repartitioning between rounds was allowed. A forest reports itself balanced exactly if it is.",
  ["inputs", "configurations", "schedules"], "all forests within bounds, all distributions, all message orders",
  NOTBUILT + "a few adapt rules and check only the absence of violation, not minimality or independence of the distribution.",
  ["src/t8_forest/t8_forest_balance.cxx", "src/t8_forest/t8_forest_adapt.cxx", "src/t8_forest/t8_forest_ghost.cxx"],
  [("t8_forest_balance / balance_adapt callback", "src/t8_forest/t8_forest_balance.cxx")],
  ["t8_forest_set_balance + commit, t8_forest_is_balanced, leaves on every rank"])
p("C11", "Ghost layer is exactly the set of remote face neighbours",
  "After commit with ghosts, each process holds as ghosts exactly the leaves of other processes that share part of a face with one of its own leaves, each once, with the right tree, grouped by owner in order; all ghost algorithms produce the same layer. The remote side agrees: the elements a process lists as sent to a neighbour are exactly those the neighbour holds as ghosts from it, in the same order.",
  ["inputs", "configurations", "schedules"], "all forests within bounds incl. unbalanced and with empty processes, all distributions, all ghost algorithm versions, all message arrival orders",
  NOTBUILT + "uniform or simple forests with one distribution and count ghosts or compare versions; completeness against geometry for every distribution is not checked.",
  ["src/t8_forest/t8_forest_ghost.cxx", "src/t8_forest/t8_forest.cxx"],
  [("remote discovery (balanced / unbalanced / top-down search), send and receive", "src/t8_forest/t8_forest_ghost.cxx")],
  ["t8_forest_set_ghost(_ext), t8_forest_get_num_ghosts, ghost trees/elements, remotes"])
p("C12", "Element data follows its element in ghost exchange and repartition",
  "Exchanging per-element data puts, for every ghost, the owner's value of exactly that element into the ghost's slot and leaves local values untouched; transferring data to a repartitioned forest gives every leaf the value it had before, for any element data size, any distribution and any message order.",
  ["inputs", "configurations", "schedules"], "all forests and distributions within bounds, data sizes, empty senders and receivers, message orders",
  NOTBUILT + "one distribution per mesh; slot mix-ups need particular remote orders, trees and empty ranks.",
  ["src/t8_forest/t8_forest_ghost.cxx", "src/t8_forest/t8_forest_partition.cxx"],
  [("t8_forest_ghost_exchange_data", "src/t8_forest/t8_forest_ghost.cxx"), ("t8_forest_partition_data", "src/t8_forest/t8_forest_partition.cxx")],
  ["t8_forest_ghost_exchange_data, t8_forest_partition_data"])
p("C13", "Leaf face neighbour queries are complete, symmetric and correctly indexed",
  "For every leaf and face, the reported neighbour leaves are exactly the leaves (local or ghost) that share part of that face, with correct indices, tree, dual face numbers and orientation, and none on the domain boundary; the relation is symmetric.",
  ["inputs", "configurations"], "all forests within bounds, balanced or not, with hanging faces and tree gluings in all orientations, all distributions",
  NOTBUILT + "uniform or once-adapted forests, mostly checking symmetry; hanging faces across rotated gluings and process borders are rarely hit.",
  ["src/t8_forest/t8_forest.cxx", "src/t8_forest/t8_forest_iterate.cxx"],
  [("t8_forest_leaf_face_neighbors(_ext)", "src/t8_forest/t8_forest.cxx")],
  ["t8_forest_leaf_face_neighbors, t8_forest_leaf_face_neighbors_ext"])
p("C14", "Search and iteration visit exactly the promised elements",
  "A search visits each local tree top-down, starting at the smallest element that contains all its local leaves, visits the descendants that contain local leaves, descends exactly where the callback allows, reports every reached leaf once with its index, and carries exactly the queries that stayed active; face iteration reaches exactly the leaves touching the face; replace iteration relates every old leaf to the new leaves that replace it, once and in order.",
  ["inputs", "histories", "configurations"], "all forests within bounds, all callback verdicts (which subtrees are entered, which queries stay active)",
  NOTBUILT + "callbacks that accept everything or one path; pruning patterns are combinatorial.",
  ["src/t8_forest/t8_forest_search/*", "src/t8_forest/t8_forest_iterate.cxx"],
  [("t8_forest_search, t8_search", "src/t8_forest/t8_forest_search/"), ("t8_forest_iterate_faces, t8_forest_iterate_replace", "src/t8_forest/t8_forest_iterate.cxx")],
  ["t8_forest_search, t8_search classes, t8_forest_iterate_faces, t8_forest_iterate_replace"])
p("C15", "Owner queries name exactly the process that holds an element",
  "For every element of the domain, leaf or not, the owner query returns the process that holds its first descendant, and the sets or bounds of owners of an element, of its faces and of its face neighbours are exactly (or, for bounds, contain exactly) the processes that hold leaves there, on every process and for every distribution with empty processes.",
  ["inputs", "configurations"], "all elements of all forests within bounds, all distributions incl. several empty processes in a row",
  NOTBUILT + "uniform partitions without empty ranks between non-empty ones.",
  ["src/t8_forest/t8_forest.cxx", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.c"],
  [("t8_forest_element_find_owner*, owners_at_face*, owners_bounds", "src/t8_forest/t8_forest.cxx")],
  ["t8_forest_element_find_owner, t8_forest_element_owners_at_face(_bounds), t8_forest_element_owners_at_neigh_face(_bounds), t8_forest_element_owners_bounds"])
p("C16", "Parallel results are independent of message timing and never deadlock",
  "Every collective operation on meshes and forests (commit, partition, balance, ghost, data exchange, coarse-mesh partition and broadcast, shared arrays) terminates on all processes with the same results for every legal arrival order of messages, for buffered and for synchronous sends, and for every assignment of processes to shared-memory nodes; all processes enter the same collectives in the same order and every message sent is received.",
  ["schedules", "configurations"], "all matchings of wildcard receives and probe answers, send buffering modes, node topologies",
  "Tests run on one MPI library with eager delivery on one node and whatever order the scheduler happens to produce; no other order is ever seen.",
  ["src/t8_forest/t8_forest_ghost.cxx", "src/t8_forest/t8_forest_partition.cxx", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx", "src/t8_data/t8_shmem.c", "src/t8_forest/t8_forest_partition_for_coarsening.cxx"],
  [("probe loops and request handling", "t8_forest_ghost.cxx, t8_cmesh_partition.cxx, t8_forest_partition.cxx")],
  ["every MPI call, intercepted", "results on every rank"])
p("C17", "Operations leave their inputs intact and release everything exactly once",
  "Derived forests and coarse meshes never change the objects they were derived from while those are referenced; after the last reference is dropped every allocation and duplicated communicator is released exactly once, for every order of creating, chaining, referencing and releasing objects, and no released or uninitialised memory is read.",
  ["histories", "configurations"], "all sequences of set/commit/ref/unref operations on forests, coarse meshes, schemes and shared arrays up to a bound",
  NOTBUILT + "a few fixed ref/unref sequences.",
  ["src/t8_forest/t8_forest.cxx", "src/t8_cmesh/t8_cmesh.cxx", "src/t8_schemes/t8_scheme.cxx", "src/t8_data/t8_shmem.c", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx", "src/t8_types/t8_refcount.*"],
  [("reference counters, set_* ownership transfer, destroy", "t8_forest.cxx, t8_cmesh.cxx")],
  ["memory accounting, communicator accounting, content of source objects before and after"])
p("C18", "Committed coarse meshes represent exactly what was specified",
  "A committed coarse mesh has exactly the trees, classes, attributes and face connections that were specified, whatever the order in which they were given; connections are symmetric with matching face and orientation numbers, unconnected faces are boundaries, and attributes of any size and count are returned unchanged under their key.",
  ["inputs", "histories"], "all small meshes (shapes, gluings, orientations, attribute sets) and all orders of the specifying calls",
  NOTBUILT + "shipped example meshes, specified in one order.",
  ["src/t8_cmesh/t8_cmesh.cxx", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx", "src/t8_cmesh/t8_cmesh_helpers.cxx"],
  [("stash, commit, trees", "t8_cmesh_internal/")],
  ["t8_cmesh_set_* + commit, t8_cmesh_get_face_neighbor, t8_cmesh_get_attribute, tree queries"])
p("C19", "Coarse-mesh partition preserves trees, attributes and connectivity",
  "Partitioning a coarse mesh by a uniform level or by explicit offsets, from any replicated or partitioned state and repeatedly, gives every process exactly its requested trees with unchanged class, attributes and global face neighbours, and as ghosts exactly the non-local face neighbours of its trees; copies and broadcasts preserve the mesh in the same sense.",
  ["inputs", "configurations", "schedules"], "all small meshes, all tree distributions incl. shared first trees and empty processes, all sequences of distributions up to a bound",
  NOTBUILT + "uniform and concentrated partitions of example meshes; shared trees combined with empty ranks and ghost bookkeeping are sampled only.",
  ["src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.c", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx", "src/t8_cmesh/t8_cmesh.cxx"],
  [("t8_cmesh_partition, offsets", "t8_cmesh_partition.cxx, t8_cmesh_offset.c")],
  ["t8_cmesh_set_partition_uniform/offsets, t8_cmesh_set_derive, t8_cmesh_bcast, tree and ghost queries"])
p("C20", "Vertex connectivity maps are mutually inverse",
  "For every assignment of global vertex numbers to tree corners, the map from trees to global vertices and the map from global vertices to (tree, corner) pairs are exact inverses of each other: every pair is listed once and in order, and nothing else is.",
  ["inputs"], "all global vertex numberings of small meshes",
  NOTBUILT + "a few fixed meshes.",
  ["src/t8_cmesh/t8_cmesh_vertex_connectivity/*"],
  [("tree_to_vertex / vertex_to_tree", "src/t8_cmesh/t8_cmesh_vertex_connectivity/")],
  ["t8_cmesh_set_global_vertices_of_tree, t8_cmesh_get_global_vertices_of_tree, t8_cmesh_get_vertex_to_tree_list"])
p("C21", "Shared arrays and distributed offsets agree on all processes",
  "Shared-memory arrays hold on every process exactly what a serial gather or prefix of the contributions gives, for every element type, count (including zero) and node layout; copy, indexed access and binary search agree with a plain array, and the tree-offset queries (first and last tree, owners, empty ranks, send and receive ranges) agree with their definition for every valid offset array.",
  ["inputs", "configurations"], "all contributions and offset arrays up to a bound, node topologies, shared array types",
  NOTBUILT + "one topology; offset arrays of uniform partitions.",
  ["src/t8_data/t8_shmem.c", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.c"],
  [("t8_shmem_array_*", "src/t8_data/t8_shmem.c"), ("t8_offset_*", "t8_cmesh_offset.c")],
  ["t8_shmem_array_allgather(v), t8_shmem_array_prefix, t8_shmem_array_copy, t8_shmem_array_binary_search, t8_offset_*"])
p("C22", "Serialised elements and data survive packing and sending",
  "Packing any sequence of elements or user data, sending it to any process and unpacking it yields the same sequence, uses no more than the announced size, and consumes exactly what was written, also when several items are packed one after another; element arrays return what was stored under every sequence of push, resize, truncate, copy and view operations.",
  ["inputs", "histories"], "all elements of all shapes and schemes, item counts incl. zero, operation sequences up to a bound",
  NOTBUILT + "a few element levels and fixed sizes.",
  ["src/t8_data/*", "src/t8_schemes/*"],
  [("element_MPI_Pack/Unpack/Pack_size", "t8_schemes/*"), ("t8_element_array_*", "src/t8_data/t8_containers.cxx"), ("t8_vector_handler / t8_data_handler", "src/t8_data/")],
  ["t8_scheme element_MPI_Pack/Unpack/Pack_size", "t8_element_array_*", "t8_vector_handler"])
p("C23", "Tree geometry is continuous and consistent with element geometry",
  "For every shape and element the geometric image of corners, centre, volume, face area, face normal and inside-tests agree with the mapping of the tree: shared faces of neighbouring leaves and trees map to the same points, leaf volumes add up to the tree volume, outward normals point outward, a point is reported inside exactly the leaves that contain it (up to tolerance), and the derivative of the map, where a geometry offers one, is that of the queried tree at the queried points.",
  ["inputs", "configurations"], "all elements up to a level of all shapes and gluings, a grid of query points",
  NOTBUILT + "single elements or random points.",
  ["src/t8_forest/t8_forest.cxx", "src/t8_geometry/*"],
  [("t8_forest_element_* geometry", "src/t8_forest/t8_forest.cxx"), ("geometry evaluation", "src/t8_geometry/")],
  ["t8_forest_element_coordinate/centroid/volume/diam, t8_forest_element_face_*, t8_forest_element_points_inside, t8_geometry_evaluate, t8_geometry_jacobian, t8_lagrange_element"])
p("C24", "Written and read mesh files describe exactly the mesh",
  "The ASCII VTK output of a forest, joined over all processes, contains exactly one cell per leaf (and ghost, if requested) with the leaf's corner coordinates, type, level, tree, element and rank numbers and user data; reading a Gmsh file yields exactly the listed cells with the listed vertices and with face connections exactly where cells share all face vertices.",
  ["inputs", "configurations"], "all small forests, distributions and write options; all small Gmsh meshes in all supported variants and vertex orders",
  NOTBUILT + "only whether writing succeeds; a few stored msh files.",
  ["src/t8_vtk/t8_vtk_write_ASCII.cxx", "src/t8_vtk/t8_vtk.c", "src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx"],
  [("t8_forest_vtk_write_ASCII", "src/t8_vtk/"), ("t8_cmesh_from_msh_file", "src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx")],
  ["written .vtu/.pvtu files", "t8_cmesh_from_msh_file"])
p("C25", "A mesh handle always shows exactly the elements of its forest",
  "After construction and after every commit, in whatever combination adapt, partition, balance and ghost were requested, a mesh handle lists exactly the local leaves and ghosts of its forest in order; every geometric, topological and neighbour query on an element gives the value of that leaf, whether or not it was cached and in whatever order it is asked; element data reaches exactly the ghosts of the element; the list of faces contains every face of every local element exactly once, with all its sides and the right kind. The adapt callback sees the handle's own elements, and giving up a handle, with or without uncommitted changes, releases everything.",
  ["inputs", "histories", "configurations"], "all small forests, distributions, competence sets and histories of commits",
  NOTBUILT + "single hypercube meshes with one adaptation; a stale cache, a missed face kind or a leaked request shows only for particular histories, hanging faces or process boundaries.",
  ["mesh_handle/*"],
  [("mesh::commit / set_adapt / update_elements", "mesh_handle/mesh.hxx"), ("element queries and caches", "mesh_handle/element.hxx, mesh_handle/competences/cache_element_competences.hxx"), ("data exchange, ranks, face vector", "mesh_handle/competences/"), ("adapt registry", "mesh_handle/internal/adapt.hxx"), ("ready-made meshes", "mesh_handle/constructor_wrappers.hxx")],
  ["t8_mesh_handle::mesh and its elements", "get_unique_face_vector, get_element_face_vector, get_rank", "set/get/exchange element data"])
p("C26", "Ready-made coarse meshes are the meshes they are announced to be",
  "Every ready-made coarse-mesh constructor, for all its parameters, any number of processes and in replicated, broadcast, partitioned and process-local form, gives the announced number and classes of trees, all of positive volume and together filling the announced domain (unit cube, box, brick, cake, disk, sphere, shell) in the announced order; two tree faces are joined exactly if they coincide in space (or are opposite in a periodic direction), mutually and with the orientation under which every point of the common face has the same position seen from both sides. Meshes made from a p4est or p8est connectivity have exactly its trees, vertices and connections. All processes agree, and everything is released.",
  ["inputs", "configurations"], "all numbers of cubes, layers, levels, periodicities, classes, boundaries, partitions and process counts",
  "Tests only require that the example meshes can be committed and that their trees have no negative volume; a face joined to the wrong partner or with the wrong orientation commits without complaint and only corrupts neighbours, ghosts and balance of forests built on it.",
  ["src/t8_cmesh/t8_cmesh_examples.*"],
  [("t8_cmesh_new_*", "src/t8_cmesh/t8_cmesh_examples.cxx"), ("joins from vertices", "src/t8_cmesh/t8_cmesh_helpers.cxx"), ("disk and sphere geometries", "src/t8_geometry/t8_geometry_implementations/t8_geometry_examples.cxx")],
  ["t8_cmesh_new_hypercube, _pad, _pad_ext, _hybrid", "t8_cmesh_new_periodic*, _brick_*, _disjoint_bricks, *_cake, *_sphere*, *_shell*", "t8_cmesh_new_from_p4est, _from_p8est"])
p("C27", "The C interface answers exactly as the C++ interface",
  "For every element of every class of both schemes and for all arguments, each C function on elements (hierarchy, curve, faces, coordinates, packing, text, creation and release) returns the same result and fills the same output as the C++ scheme it stands for; references taken and released through C keep a scheme alive exactly as long as they are held; geometries created through C are of the announced kind, call the given functions, and are gone after their release.",
  ["inputs", "histories"], "all elements and arguments within bounds, all reference histories within bounds",
  NOTBUILT + "the C wrappers are not called by any test.",
  ["src/t8_schemes/t8_scheme.cxx", "src/t8_geometry/t8_geometry_implementations/*.cxx"],
  [("t8_element_*, t8_scheme_ref/unref", "src/t8_schemes/t8_scheme.cxx"), ("t8_geometry_*_new, t8_geometry_*_destroy", "src/t8_geometry/t8_geometry_implementations/")],
  ["t8_scheme.h, t8_geometry_*.h"])
p("C28", "Forest numbering and membership queries agree with the leaves",
  "On every forest, distribution and process, the queries about it agree with the trees, leaves and ghosts it has: an element is reported a leaf, a ghost, or to have leaf descendants exactly if it is or has; the first leaf or ghost related to an element is found; local, ghost, global and coarse-mesh tree numbers are inverse to each other; element numbers, offsets, counts and tree lookups by element number are consistent; shared first and last trees are reported as shared; two forests compare equal exactly if their local trees hold the same leaves; the reported least uniform level that leaves no process empty is the least one.",
  ["inputs", "configurations"], "all small forests, distributions, elements and process counts",
  NOTBUILT + "queries on a few uniform forests; an error shows only for particular positions of an element relative to leaves, ghosts and process boundaries.",
  ["src/t8_forest/t8_forest.cxx", "src/t8_forest/t8_forest_private.h", "src/t8_forest/t8_forest_ghost.cxx"],
  [("t8_forest_element_is_leaf, _is_leaf_or_ghost, _has_leaf_desc, t8_forest_bin_search_*", "src/t8_forest/t8_forest.cxx"), ("t8_forest_get_local_id, _ltreeid_to_cmesh_ltreeid, _cmesh_ltreeid_to_ltreeid, _get_tree_element_offset", "src/t8_forest/t8_forest.cxx"), ("t8_forest_first/last_tree_shared, t8_forest_is_equal, t8_forest_min_nonempty_level", "src/t8_forest/t8_forest.cxx")],
  ["t8_forest_general.h queries"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
