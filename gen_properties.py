#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m.strip(), "where": ", ".join(files)} for m in mechanism.split(";")]}
    if state: a["state"] = state
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Tree LBC yields a complete, dependence-respecting schedule",
 "For every elimination tree (forest), cost vector and tuning parameters, the coarsened schedule that the tree variant of LBC returns contains every node exactly once, with well-formed level, partition and node arrays and the true number of partitions. For every node, its parent is either in a strictly later coarsened level or later in the same partition of the same level, so the partitions of one level can run in any order or concurrently. The entry point that starts from a matrix (lower half or general) gives the same guarantee with respect to every dependence of that matrix's triangular solve, including when its elimination tree is computed internally.",
 ["inputs", "configurations"],
 "every forest on 1..n nodes (parent > child), matrix whose etree is taken, positive node costs, number of inner parts, minimum level distance and division rate",
 "The demos run one 16x16 random matrix and the Catch test checks only the final vector of a few fixed sizes; chains, stars, single nodes, diagonal matrices and small level counts are never scheduled.",
 ["src/lbc_tree.cpp", "src/lbc_csc.cpp", "src/lbc_utils.cpp", "utils/sparse_inspector.cpp", "utils/sparse_utilities.cpp"],
 "level sets of the tree, height partitioning, post-order splitting of each level band into subtrees, worst-fit bin packing",
 observe="level/partition/node pointer arrays returned by get_coarse_levelSet_tree and get_coarse_levelSet_DAG_CSC_tree")

prop("C02", "DAG LBC variants yield complete, dependence-respecting schedules",
 "For every lower-triangular sparsity pattern with a full diagonal, node costs and tuning parameters, each DAG variant of LBC (connected components with and without bin packing, the 03 variant and its parallel version with and without bin packing) returns a schedule with every column exactly once, well-formed pointers and the true number of partitions. Each dependence goes to a strictly later coarsened level or to a later position inside the same partition. A dependence never crosses two partitions of one coarsened level.",
 ["inputs", "configurations"],
 "every lower-triangular pattern from diagonal to dense (chains, stars, bands, blocks, disconnected pieces), positive costs, inner parts, minimum level distance, division rate, thread count, bin packing on or off",
 "The demos call one variant on one fixed 16x16 matrix; whether two components that clash are merged correctly depends on the order and multiplicity of clashes that only particular patterns produce.",
 ["src/lbc_csc.cpp", "src/lbc_csc_dag.cpp", "src/lbc_utils.cpp", "utils/sparse_inspector.cpp", "utils/sparse_utilities.cpp"],
 "wavefronts, height partitioning of the wavefronts, DFS/BFS connected components inside each level band, alias merging of clashing components, worst-fit bin packing",
 observe="level/partition/node pointer arrays")

prop("C03", "Blocked LBC yields a valid schedule of the supernodes",
 "For every supernodal (blocked compressed column) lower-triangular pattern, node costs and tuning parameters, the blocked LBC inspector returns a schedule in which every block occurs exactly once, and its true number of partitions. Each block-level dependence goes to a strictly later coarsened level or later within the same partition. The block wavefront builder it relies on assigns every block exactly one wavefront, strictly later than those of all blocks it depends on.",
 ["inputs", "configurations"],
 "every supernode partition of the columns of every lower-triangular pattern whose columns in a supernode share their off-block rows, costs and tuning parameters",
 "No test or demo calls the blocked variant at all.",
 ["src/lbc_blocked.cpp", "src/lbc_utils.cpp", "utils/sparse_inspector.cpp", "utils/sparse_utilities.cpp"],
 "block wavefronts, DFS over the row structure of blocks, alias merging, bin packing",
 observe="level/partition/node pointer arrays of getCoarseLevelSet_DAG_BCSC02; level arrays of build_levelSet_BCSC")

prop("C04", "HDAGG-family inspectors yield complete, dependence-respecting schedules",
 "For every lower-triangular dependence DAG, positive cost vector and core count, the hybrid aggregation inspector, its second-generation greedy variant and the coarsened-level builder return schedules in which every node occurs exactly once and every dependence goes to a strictly later coarsened level or later within the same partition. This holds with bin packing on or off and with post-order or index order inside a partition. The returned pointer arrays are well formed: start at 0, never decrease and end at the number of partitions and nodes.",
 ["inputs", "configurations"],
 "every lower-triangular DAG with diagonal entries, integer-valued positive costs, 1..many cores, bin packing and post-order flags",
 "Only one HDAGG demo path is built and it is not one of the passing tests; merge decisions depend on the costs, core count and the shape of consecutive wavefronts.",
 ["src/hdagg/hdagg.cpp", "include/aggregation/hdagg.h"],
 "sparsification, wavefronts, greedy merging of wavefronts into coarsened levels via connected components, bin packing of components to cores",
 observe="coarse_level_no, coarse_level_ptr, coarse_part_ptr, coarse_node_ptr")

prop("C05", "Coarsened levels respect the requested parallelism and balance",
 "Inspectors that bin-pack never emit more partitions in a coarsened level than the requested number of parts (LBC with at least two inner parts) and emit exactly one partition per core (HDAGG family with bin packing). Worst-fit packing puts every input part wholly into exactly one bin, each next heaviest part into a currently lightest bin, conserves total cost and reports every bin's true cost. Turning bin packing off or on changes only the grouping of components into partitions, not which nodes a coarsened level holds.",
 ["inputs", "configurations"],
 "every list of parts with costs and bin count; every tree or DAG and part/core count passed to the inspectors",
 "Tests check only numerical results of a solve, which stay right when packing is unbalanced, loses cost or exceeds the requested parallelism.",
 ["src/lbc_utils.cpp", "src/lbc_tree.cpp", "src/lbc_csc.cpp", "src/lbc_csc_dag.cpp", "src/hdagg/hdagg.cpp"],
 "worst_fit_bin_pack, find_min, height partitioning, HDAGG chunk assignment")

prop("C06", "Level-set builders return the exact wavefronts and reject cycles",
 "Every level-set builder (compressed-column, queue-based, tree, supernodal, multi-graph and HDAGG forms) places each node in the wavefront equal to its longest dependence path, lists every node exactly once and returns the number of wavefronts. An input graph containing a cycle is reported with -1 by the builders that promise it; an acyclic graph is never reported as cyclic, even when it has as many wavefronts as nodes. Derived depth and node-to-level maps agree with those wavefronts.",
 ["inputs"],
 "every DAG given as lower-triangular pattern from empty off-diagonal to full chain, every forest, every digraph with a cycle for the builders that detect it",
 "The existing tests use a handful of random matrices and compare only the solve; chains (as many levels as nodes) and cyclic inputs are never given.",
 ["utils/sparse_inspector.cpp", "src/hdagg/hdagg.cpp"],
 "in-degree peeling, per-level scan, tree level propagation")

prop("C07", "Grouping yields a partition of the nodes whose quotient is acyclic",
 "Every node-grouping method (tree grouping depth-first and breadth-first, plain and post-order chain grouping, first-off-diagonal grouping for triangular solve and incomplete Cholesky, naive fixed-size blocks) returns groups that partition the nodes: every node in exactly one group, well-formed group pointers, group count equal to the number of groups. Contracting each group leaves an acyclic graph, so groups can be scheduled as units; tree and chain groupings number the groups so that the group graph stays lower triangular. Inverse maps (node to group) agree with the groups, and methods whose groups are executed as listed list members in dependence order.",
 ["inputs", "configurations"],
 "every lower-triangular DAG (including sparsified ones), every optional size-restriction flag and every block size",
 "No stable test runs a grouping; a lost or duplicated node shows up only for particular sharing patterns between parents and children.",
 ["src/hdagg/hdagg.cpp", "src/group.cpp", "src/group_utils.cpp"],
 "reverse traversal from sinks following single-child edges; linked-list chaining by the first off-diagonal entry")

prop("C08", "Contracted DAGs are exactly the quotient of the original DAG",
 "Building the DAG of groups, of scheduled partitions, or the group-level dependence lists from a node-to-group assignment yields an edge between two distinct groups exactly when some dependence joins their members: none missing, none invented. Lists free of duplicates where documented, sorted where the consumers rely on it, and the diagonal/self entry convention is kept. The derived groups and partitions list each original node exactly once.",
 ["inputs"],
 "every DAG and every grouping of its nodes with acyclic quotient; every valid schedule of the DAG",
 "No test inspects the contracted graphs; a missing edge only changes a result when the two groups race.",
 ["src/hdagg/hdagg.cpp", "src/group_utils.cpp", "src/group.cpp"],
 "buildGroupDAG, getFinalScheduleDAG, Group_DAG, fs_csr_inspector_dep, fs_ic0csc_inspector_group, collection grouping DAG")

prop("C09", "Sparsification removes only redundant dependences",
 "Partial sparsification of a dependence DAG, with or without clique simplification, returns a well-formed graph on the same nodes whose edges are a subset of the input edges. Every ordering between two nodes implied by the input (reachability) is still implied by the output, so wavefronts and all valid schedules are unchanged. Exactly the edges bypassed by a two-hop path are removed, after clique simplification has turned every maximal run of columns forming a clique with equal rows below into a chain.",
 ["inputs", "configurations"],
 "every lower-triangular DAG with sorted columns and diagonal entries, clique simplification on or off",
 "No stable test runs the sparsifier; over-removal only shows when a schedule happens to depend on the one lost edge.",
 ["src/hdagg/hdagg.cpp"],
 "two-hop (transitive) edge removal with a per-row sweep, clique detection")

prop("C10", "Schedule expansion keeps validity and content",
 "Ungrouping a schedule of groups, converting a grouped schedule to supernodes and two-dimensional tiling of a schedule keep the levels and partitions, and every original node (or loop iteration) occurs exactly once in the partition its group was assigned to. After ungrouping with index order or post-order, nodes inside a partition respect every dependence. Tiling by any tile size enumerates every nonzero iteration of every scheduled row exactly once.",
 ["inputs", "configurations"],
 "every DAG, every grouping and valid schedule of its groups, tile sizes 1..n, order flags",
 "No stable test expands grouped schedules.",
 ["src/hdagg/hdagg.cpp"],
 "ungroupingScheduleAndApplyOrdering, convertCNScheduleToSuperNode, twoDReordering, post-order computation")

prop("C11", "Scheduled triangular solve equals the serial solve in every interleaving",
 "Solving a lower-triangular system by following any schedule the inspectors produce gives the serial forward-substitution result, for every order in which the partitions of one coarsened level are interleaved. The repository's own level-set, LBC and grouped executors return the same vector as its serial kernels. Right-hand sides generated for an all-ones solution are solved to all ones.",
 ["inputs", "schedules", "configurations"],
 "every lower-triangular matrix with nonzero diagonal, right-hand side, inspector, tuning parameters, and every interleaving of the partitions of a level (harness-driven)",
 "The tests run serially with OpenMP off, so the partitions always execute in one fixed order and a missing dependence is invisible.",
 ["src", "example/sptrsv_src/executor.cpp", "example/sptrsv_src/sptrsv.cpp", "utils/test_utils.cpp"],
 "inspector schedule + executor; harness executes partitions of a level step by step in random interleavings")

prop("C12", "Format conversions and structural transforms preserve the matrix",
 "Converting between compressed column and row form, transposing, taking a lower or upper half, expanding a half to full, symmetrising, permuting symmetrically, copying, densifying and shifting to one-based indices all represent exactly the mathematically expected matrix, values included, for square and rectangular shapes. Row or column indices in the results are sorted wherever the operation sorts, dimensions and nonzero counts are right, and round trips return the original matrix. Inputs are not modified.",
 ["inputs"],
 "every sparse matrix shape (empty rows/columns, rectangular, dense, diagonal), values, half/general storage, permutation",
 "The tests transform only a few random square symmetric matrices.",
 ["utils/sparse_utilities.cpp", "utils/sparse_io.cpp", "include/aggregation/def.h"],
 "counting-sort style transposition and compression")

prop("C13", "Matrix Market write/read round trips preserve matrices exactly",
 "A matrix or dense array written with the full-precision writers and read back is identical: dimensions, stored half or general shape, index structure and every value. Entries may appear in the file in any order, pattern files read as all-ones, and comment lines are skipped. Inserting diagonals in empty columns adds an explicit zero diagonal to exactly the columns that hold no entry and have a diagonal position, and changes nothing else; writers report failure only when they fail.",
 ["inputs"],
 "every sparse or dense matrix, value, entry order, symmetry kind, comments and whitespace allowed by the format",
 "No test reads or writes files other than through fixed inputs.",
 ["utils/sparse_io.cpp", "include/aggregation/sparse_io.h"],
 "header parsing, triplet reading and compression, templated printers",
 observe="CSC/Dense objects read back from files")

prop("C14", "Malformed Matrix Market input is rejected cleanly",
 "Reading a malformed matrix file (bad banner, unsupported or mismatching type or format, truncated body, non-numeric fields, indices out of range) raises one of the documented Matrix Market exceptions (or, from the null-returning reader, yields no matrix) instead of crashing, hanging or corrupting memory. Whatever bytes are read, a reader either rejects them so or returns a structurally valid matrix whose indices lie inside its dimensions. A valid file is never rejected, however many were read before: the reader closes its file whatever the outcome.",
 ["inputs"],
 "arbitrary bytes, and mutations of valid files (truncation, token edits, out-of-range indices), read one after the other",
 "No test feeds malformed input.",
 ["utils/sparse_io.cpp", "include/aggregation/exceptions.h"],
 "header and triplet validation")

prop("C15", "Elimination trees and row patterns are exact",
 "For every symmetric pattern, the computed elimination tree has as parent of each column the smallest row index below the diagonal in that column of the Cholesky factor, or none, in both etree implementations; for a general matrix the tree is that of its normal equations. The row-pattern computations return exactly the nonzero columns of each row of the factor in topological order and restore their workspace. The tree converted to a graph contains exactly the edges between children and parents.",
 ["inputs"],
 "every symmetric sparsity pattern from diagonal to dense, every row",
 "The etree is used indirectly on one or two matrices and never compared to a reference factorisation.",
 ["utils/etree.cpp", "utils/sparse_inspector.cpp", "src/hdagg/hdagg.cpp", "utils/sparse_utilities.cpp"],
 "path-compressed ancestor walk (compute_etree, computeParents), ereach, buildETree, tree_to_csc")

prop("C16", "Symbolic Cholesky factorisation is exact",
 "Post-ordering a forest returns a permutation in which every node follows all its descendants and each subtree is contiguous, with children in order of weight when weights are given. Row and column counts equal the exact counts of the Cholesky factor of every symmetric pattern, and the flop count follows from them. The constructed factor pattern is exactly the fill pattern, sorted with the diagonal first, also after the internally chosen fill-reducing ordering.",
 ["inputs"],
 "every forest, weight vector and symmetric pattern",
 "The demos use the factor only as an input matrix and compare nothing.",
 ["utils/lfactor_creation.cpp", "utils/etree.cpp", "utils/sparse_inspector.cpp"],
 "postorder DFS, skeleton-matrix row/column counts, ereach-driven pattern construction")

prop("C17", "Orderings and partitionings are valid",
 "Nested-dissection orderings return a permutation of the rows for every structurally symmetric pattern, the same one whether one half or the full matrix is stored; minimum-degree ordering does so for every square pattern, bounds the fill it reports, and refuses invalid arguments or exhausted memory leaving nothing behind. Graph partitionings assign every row a part number inside the requested range; with coarsening, each row gets the part of its coarse row. Permutation inverses and in-place reorderings compose to the identity, and coarsening a matrix k-fold keeps exactly the coarse couplings.",
 ["inputs", "configurations"],
 "every structurally symmetric pattern, stored in full or as either half (including diagonal, disconnected and missing diagonals), number of parts up to the number of rows, coarsening factor, permutation",
 "Two fixed matrices are ordered in the tests; partitioning is not tested.",
 ["utils/metis_interface.cpp", "utils/sparse_utilities.cpp", "utils/external/amd_order.c", "utils/external/amd_2.c", "utils/external/amd_aat.c"],
 "adjacency construction without diagonal for METIS, mapping coarse parts back")

prop("C18", "Blocked (supernodal) storage represents the same matrix",
 "Detecting supernodes partitions the columns into the maximal contiguous blocks whose columns share their structure below a dense diagonal block, a block extending its first column by at most the given limit of further columns. The blocked matrix built from a sparse lower-triangular matrix represents exactly the same values, with explicit zeros only as padding, and its stored size equals the computed size. Compressing it back to a block-level graph gives exactly the block dependences.",
 ["inputs", "configurations"],
 "every lower-triangular matrix with full diagonal and every supernode size limit or given contiguous supernode partition compatible with its structure",
 "No test builds a blocked matrix.",
 ["utils/BCSCMatrix.cpp", "utils/sparse_inspector.cpp"],
 "supernode scan, size computation, filling of padded dense blocks, compression to block graph")

prop("C19", "Cost models count exactly the touched nonzeros and conserve totals",
 "Per-node kernel costs equal the number of nonzeros the named kernel touches for that node, and the cost of a group equals the sum over its members. Subtree costs equal the sum of the weights in each subtree, per-column nonzero counts and the operation and access counts of the serial kernels are exact. Connected components found between two levels are exactly those of the induced subgraph and their costs add up to the costs of the nodes covered.",
 ["inputs", "configurations"],
 "every lower-triangular matrix, kernel kind, grouping, forest with weights, and range of levels",
 "Costs only influence balance, never the numerical result that tests look at.",
 ["src/hdagg/hdagg.cpp", "utils/sparse_utilities.cpp", "example/sptrsv_src/executor.cpp"],
 "costComputation, compute_subtree_cost, compute_nnz_per_col, computeCC, parallel_cc")

prop("C20", "Weight-based partitioners cover all elements within bounds",
 "Partitioning a weighted list returns monotone boundaries from 0 to the number of elements over the requested number of parts, where each part is closed as soon as its target weight is reached and the last part takes the remainder. Partitioning a DAG by breadth-first traversal, started from each smallest unvisited node in turn, puts every node in exactly one of the requested parts, closed by the same rule. Omitted target weights default to an even share.",
 ["inputs", "configurations"],
 "every weight vector, part count, target weight (given or omitted), DAG",
 "Not exercised by any test.",
 ["utils/utils.cpp"],
 "partition_by_weight, partition_by_bfs")

prop("C21", "Merged graphs keep every dependence of their parts",
 "Fusing several graphs of equal dimension, with one-to-one or given inter-graph dependences, yields a graph whose edges are exactly the shifted edges of each part plus the inter-graph edges. Joint level sets over blocked and unblocked matrices, and over a sequence of identical kernels, respect every dependence of the fused graph and list each node once. Row indices lie inside the fused dimension and pointers are well formed.",
 ["inputs", "configurations"],
 "every list of 1..k lower-triangular graphs of equal size, dependence matrices, block partitions",
 "Not exercised by any test.",
 ["utils/sparse_utilities.cpp", "utils/sparse_inspector.cpp"],
 "merge_graph, merge_DAGs_with_partial_order, merge_graphs, bcsc_csc_bcsc_levelset, level_set_multi_graphs")

prop("C22", "Tree utilities agree with their definitions on every forest",
 "Children lists contain exactly each node's children, and node depth and tree height (all implementations, unweighted or with non-negative weights) equal the longest weighted path to a root. Splitting a forest in post-order returns exactly one part per tree of member nodes, with each member node in exactly one part, and reports each part's true cost and the node-to-part map. Members of a part appear in an order that executes children before parents.",
 ["inputs", "configurations"],
 "every forest (with marked non-member nodes where supported), weight vector, number of parts",
 "Only used inside the tree LBC of one demo matrix.",
 ["utils/sparse_utilities.cpp"],
 "populate_children, get_node_depth, get_tree_height*, post_order_spliting")

prop("C23", "Inspection is pure: deterministic and leaves its inputs untouched",
 "Every inspector, transform and symbolic analysis leaves the index, pointer, value and cost arrays it is given unchanged. Calling it again with the same input, after arbitrary other calls and with differently filled fresh memory, returns the identical result. No call reads or writes outside the arrays that its interface documents.",
 ["inputs", "histories", "configurations"],
 "every input accepted by the entry points and every history of earlier calls in the same process",
 "Tests run each function once per process and never compare inputs before and after.",
 ["src", "utils"],
 "workspace allocation and initialisation in every inspector")

prop("C24", "Small numeric and comparison utilities obey their contracts",
 "Overflow-checked size arithmetic returns the exact result or reports overflow. Medians, sums, norms, residuals and copies equal their definitions on every range, and comparisons say equal exactly when all elements agree within tolerance and contain no NaN. Random generators honour dimension, uniqueness, diagonal, bounds and seed reproducibility.",
 ["inputs"],
 "every argument value, including ranges that are empty, partial or at type limits",
 "The tests use the comparison helper itself as oracle and never check it.",
 ["utils/utils.cpp", "utils/test_utils.cpp", "include/aggregation/test_utils.h", "include/aggregation/utils.h", "utils/sparse_utilities.cpp"],
 "mult_size_t/add_size_t, time_median, is_equal, rhs_init, random matrix generators")

prop("C25", "LBC cuts the wavefronts into bands and packs whole components by true cost",
 "Every coarsened level of an LBC schedule is a contiguous band of wavefronts covering them all; the DAG variants give the first band the configured minimum number of wavefronts and each further band the division rate, the tree and blocked variants cut that minimum before the narrow wavefronts at the root, and a shallow DAG stays in one level. Partitions hold whole connected components of their band: one each without bin packing, otherwise packed by their true costs, heaviest first into the lightest partition, whatever the levels before contained. With at least two inner parts, no level but the last is serialised while it has components to run in parallel.",
 ["inputs", "configurations"],
 "every forest, DAG and supernodal pattern, integer costs, inner parts, minimum level distance, division rate, bin packing on or off, thread count of the parallel variant",
 "A solve gives the right answer with any valid schedule, so tests cannot see a level that is cut in the wrong place, serialised or unbalanced.",
 ["src/lbc_csc.cpp", "src/lbc_csc_dag.cpp", "src/lbc_blocked.cpp", "src/lbc_tree.cpp", "src/lbc_utils.cpp"],
 "height_partitioning_DAG_trng and height_partitioning; connected components of a band with alias merging; component costs; worst-fit packing",
 observe="level/partition/node pointer arrays")

prop("C26", "Several OpenMP threads give the result of one, under every interleaving",
 "Built with OpenMP, every parallel executor run with any number of threads on a valid schedule returns exactly the serial solution without conflicting accesses, and several threads share the partitions of a level. Parallel inspection code (parallel LBC, HDAGG and GLC_V2, component search, group DAG, cost models, supernode conversion, sparsification) returns the same schedule, components and costs as with one thread; where several answers are right (clique sparsification), it still returns a right one. No team of threads deadlocks.",
 ["inputs", "schedules", "configurations"],
 "every matrix and DAG, thread count from 1 to 6, assignment of iterations to threads and interleaving of the threads' memory accesses",
 "The repository's own build leaves OpenMP off, so no test ever runs two threads; with real threads a lost update or a missing barrier shows only under rare timing.",
 ["src/lbc_csc_dag.cpp", "src/hdagg/hdagg.cpp", "src/group_utils.cpp", "example/sptrsv_src/sptrsv.cpp", "example/sptrsv_src/executor.cpp"],
 "omp parallel / for / single / barrier / atomic / reduction in the executors, computeCC, parallel_cc, process_l_partition, partialSparsification, buildGroupDAG, costComputation",
 observe="solution vector; level/partition/node arrays; component labels and costs")

prop("C27", "The evaluation harness, its tables and the demos report faithfully",
 "An evaluation runs the analysis once, starts every timed run from the same vectors, reports the median time, and announces a wrong solution exactly when the solution differs from the reference. A result table holds its header and exactly the completed records in order, across sessions that append to it or recreate it, and a record is in the file as soon as it is stored. The matrices prepared for a run are one symmetric relabelling of the input, every strategy of the solver demo returns the serial solution, and the demo programs run every valid matrix file to the end with a schedule of all its unknowns.",
 ["inputs", "histories", "configurations"],
 "every sequence of table operations and sessions, number of runs and timing values, matrix file, strategy and command-line parameters",
 "The demos are run by the tests on one matrix and their output is not examined; the table writer and the harness have no test.",
 ["utils/FusionDemo.cpp", "include/aggregation/FusionDemo.h", "include/aggregation/csv_utils.h", "include/aggregation/def.h", "example/sptrsv_demo_utils.h"],
 "FusionDemo::evaluate, generate_matrices_from_mtx, print_common, CSVManager records, timing_measurement",
 observe="text of the table file and of standard output, solution vectors, call order of the virtual functions")

prop("C28", "Groupings merge exactly the chains, subtrees and supernodes they define",
 "Subtree grouping merges every node with one successor into that successor's group and nothing else; chain grouping merges exactly the maximal chains whose inner edges are the only edge out of their source and into their target; with a size restriction each subtree is cut into full pieces and one rest. The row and column groupings merge exactly the consecutive rows or columns linked through the defining off-diagonal entry (the second incomplete-Cholesky variant also attaches each column to the first that needs it). The average supernode width reported for a schedule is that of the supernodes lying within one part.",
 ["inputs", "configurations"],
 "every DAG, size restriction on or off, every grouping and schedule for the supernode average",
 "Any grouping with an acyclic quotient gives right solves, so tests cannot see grouping silently degrade to single nodes or merge too little.",
 ["src/group.cpp", "src/hdagg/hdagg.cpp"],
 "treeBasedGrouping*, chainGrouping, computePostOrderAndGroup, inspection_spicocsc_*, inspection_sptrsvcsr_*, aggressiveSupernodeGrouping",
 observe="group pointer and member arrays")

prop("C29", "HDAGG merges wavefronts while cores stay balanced and deals components by cost",
 "Every level of an HDAGG or GLC_V2 schedule of several wavefronts is balanced: with its components dealt in order to the cores, the loads diverge from an even share by less than the threshold; a level ends before the last wavefront only if the next wavefront would bring the accumulated divergence over the threshold or leave a core idle. Without bin packing each partition is one connected component of the level; with it each core gets exactly the consecutive components that fill its share of the remaining true cost, the last core the rest. The fixed-step variant cuts the wavefronts every 6 or 9 levels by average column size and keeps plain wavefronts for very sparse graphs.",
 ["inputs", "configurations"],
 "every DAG, positive integer costs, number of cores, bin packing on or off",
 "Any valid schedule solves correctly, so tests cannot see all work of a level dealt to one core or wavefronts merged without balance.",
 ["src/hdagg/hdagg.cpp"],
 "HDAGG, GLC_V2, computeCC, computeSchedule chunk sizes, build_coarsened_level_parallel",
 observe="merge vector and level/partition/node arrays")

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
