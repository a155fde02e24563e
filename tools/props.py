"""Source of properties.jsonl: python3 tools/props.py > properties.jsonl"""
import json
P = []


def p(id, title, statement, over, text, tests, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))


G = 'lib/algorithms/global_mincut/'
D = 'lib/data_structure/'
C = 'lib/coarsening/'
M = 'lib/algorithms/multicut/'

p('M01', 'Sequential exact minimum cut algorithms return the minimum cut value',
  'For every connected undirected graph with positive edge weights, the exact sequential algorithms (Nagamochi-Ono-Ibaraki, the recursive cactus algorithm) return exactly the weight of a global minimum cut. '
  'This holds on both graph representations, with every priority queue, with and without limiting the queue by the current bound, for every random seed and every edge selection.',
  ['inputs', 'configurations'], 'all connected weighted graphs (also with weights whose sums exceed 32 bits), queue kinds, limiting on or off, graph types, seeds, edge selections',
  'tests run a handful of fixed graphs with one queue and unit-like weights; the repository has no oracle that computes the true value for new inputs',
  [G + 'noi_minimum_cut.h', G + 'cactus/cactus_mincut.h', G + 'minimum_cut_helpers.h', 'lib/algorithms/flow/excess_scaling.h', D + 'priority_queues/fifo_node_bucket_pq.h'],
  [('CAPFOREST scan certificates', G + 'noi_minimum_cut.h'), ('trivial cut bound after contraction', C + 'contract_graph.h')],
  ['return value of perform_minimum_cut / findAllMincuts', 'RESULT line of the mincut executable'])
p('M02', 'Parallel exact minimum cut is correct for any thread count and schedule',
  'For every connected weighted graph the shared-memory parallel exact algorithms return exactly the minimum cut weight, whatever the number of threads, the random seed and the order in which the threads run.',
  ['inputs', 'schedules', 'configurations'], 'all connected weighted graphs, 1..8 threads, all interleavings, queue kinds',
  'tests run one schedule per input on a few graphs',
  ['lib/parallel/algorithm/exact_parallel_minimum_cut.h', G + 'noi_minimum_cut.h', 'lib/parallel/data_structure/union_find.h', 'lib/parallel/coarsening/contract_graph.h', 'lib/parallel/algorithm/parallel_cactus.h'],
  [('visited flags partition the scan between threads', 'lib/parallel/algorithm/exact_parallel_minimum_cut.h'), ('lock-free union-find', 'lib/parallel/data_structure/union_find.h')],
  ['return value of perform_minimum_cut / findAllMincuts'])
p('M03', 'Heuristic and approximate cut values are weights of real cuts',
  'For every connected weighted graph each inexact algorithm (VieCut, Matula, Padberg-Rinaldi, Karger-Stein) returns the weight of some cut of the graph: never below the minimum cut and never above the minimum weighted degree. '
  'The approximation algorithm of Matula is at most (2+epsilon) times the minimum cut.',
  ['inputs', 'configurations'], 'all connected weighted graphs, seeds, thread counts (parallel VieCut), queue kinds',
  'tests check a few graphs, mostly that the heuristic is exactly optimal there',
  [G + 'viecut.h', G + 'matula_approx.h', G + 'padberg_rinaldi.h', G + 'ks_minimum_cut.h', C + 'label_propagation.h', C + 'contraction_tests.h', 'lib/parallel/coarsening/label_propagation.h'],
  [('contraction keeps cut weights', C + 'contract_graph.h'), ('bounds only from trivial cuts of contracted graphs', G + 'minimum_cut_helpers.h')],
  ['return value of perform_minimum_cut'])
p('M04', 'A saved cut is a proper bipartition of the reported weight',
  'When an algorithm is asked to save its cut, the two sides it marks on the input graph are both non-empty, and the total weight of the input edges between them equals the value it returned. This holds for every global minimum cut algorithm, exact or not, sequential or parallel.',
  ['inputs', 'configurations', 'schedules'], 'all connected weighted graphs, all algorithms, graph types, queues, seeds and thread counts',
  'tests check the saved cut for a few inputs and algorithms only',
  [G + 'minimum_cut_helpers.h', G + 'noi_minimum_cut.h', G + 'viecut.h', G + 'matula_approx.h', G + 'padberg_rinaldi.h', G + 'ks_minimum_cut.h', 'lib/parallel/algorithm/exact_parallel_minimum_cut.h', G + 'cactus/cactus_mincut.h'],
  [('partition index projected through contractions', G + 'minimum_cut_helpers.h')],
  ['getNodeInCut on the input graph after the call', 'cut file written by the mincut executable'])
p('M05', 'The cactus represents exactly the minimum cuts of the graph',
  'For every connected weighted graph the returned cactus is a tree of cycles and tree edges whose vertices partition the vertices of the input (possibly with empty ones), and the cuts of the cactus that separate input vertices - a tree edge of full weight, or two half-weight edges of one cycle - are exactly all minimum cuts of the graph, none missing and none too many. '
  'This holds sequentially and in parallel, for every edge selection, queue, seed and thread count.',
  ['inputs', 'configurations', 'schedules'], 'all connected weighted graphs, edge selections, queues, seeds, thread counts',
  'tests compare the number of cactus vertices on a few structured graphs',
  [G + 'cactus/cactus_mincut.h', G + 'cactus/recursive_cactus.h', G + 'cactus/heavy_edges.h', G + 'cactus/graph_modification.h', 'lib/parallel/algorithm/parallel_cactus.h', 'lib/algorithms/flow/excess_scaling.h', 'lib/algorithms/misc/strongly_connected_components.h'],
  [('edges in no minimum cut are contracted', G + 'cactus/heavy_edges.h'), ('recursive s-t cacti merged', G + 'cactus/recursive_cactus.h')],
  ['cactus returned by findAllMincuts'])
p('M06', 'Most balanced and lowest conductance minimum cut selection is optimal',
  'When asked for the most balanced minimum cut, the reported cut is a minimum cut whose smaller side is as large as that of any minimum cut of the graph; when asked for lowest conductance, no minimum cut has lower conductance than the reported one.',
  ['inputs', 'configurations'], 'all connected weighted graphs, edge selections, sequential and parallel, both optimisation goals',
  'tests check the balance of one or two graphs',
  [G + 'cactus/most_balanced_minimum_cut.h', G + 'cactus/balanced_cut_dfs.h', G + 'cactus/cactus_mincut.h'],
  [('dynamic programme over the cactus', G + 'cactus/balanced_cut_dfs.h')],
  ['edges returned by findAllMincuts', 'getNodeInCut on the input graph'])
p('D01', 'Dynamic minimum cut value matches the current graph after every update',
  'After every edge insertion or deletion in any history of updates, the value reported by the dynamic algorithm equals the minimum cut of the current graph (zero while it is disconnected), and the graph it maintains is the start graph with exactly those updates applied.',
  ['histories', 'inputs', 'configurations'], 'all start graphs, all histories of insertions and deletions, sequential and parallel',
  'tests replay a few short hand-written histories',
  ['lib/algorithms/global_mincut/dynamic/dynamic_mincut.h', 'lib/algorithms/global_mincut/dynamic/cactus_path.h', 'lib/algorithms/global_mincut/cactus/cactus_mincut.h'],
  [('insertion contracts the path in the cactus', 'lib/algorithms/global_mincut/dynamic/dynamic_mincut.h'), ('deletion bounded by one flow problem', 'lib/algorithms/global_mincut/dynamic/dynamic_mincut.h')],
  ['return values of addEdge, removeEdge and initialize', 'maintained graph'])
p('D02', 'Dynamic cactus represents the minimum cuts after every update',
  'After every edge insertion or deletion in any history that leaves the graph connected, the maintained cactus represents exactly all minimum cuts of the current graph.',
  ['histories', 'inputs', 'configurations'], 'all start graphs, all histories of insertions and deletions, sequential and parallel',
  'tests compare cactus sizes after a few hand-written updates',
  ['lib/algorithms/global_mincut/dynamic/dynamic_mincut.h', 'lib/algorithms/global_mincut/dynamic/cactus_path.h', G + 'cactus/recursive_cactus.h'],
  [('path contraction', 'lib/algorithms/global_mincut/dynamic/cactus_path.h'), ('cache of cacti', 'lib/algorithms/global_mincut/dynamic/dynamic_mincut.h')],
  ['getCurrentCactus after every update'])
p('R01', 'Certified reductions never destroy all minimum cuts',
  'Whenever the scan of the exact algorithm (sequential or parallel) or a test on edge and triangle weights marks two vertices for contraction, no cut of weight below the bound it was given separates them. '
  'The Padberg-Rinaldi tests keep at least one minimum cut that is not a single vertex, so the smaller of the minimum degree and the minimum cut of the contracted graph is the minimum cut of the graph; asked to keep all cuts, they never merge vertices that a minimum cut separates.',
  ['inputs', 'configurations', 'schedules'], 'all connected weighted graphs, bounds, queues, seeds and thread counts',
  'tests only see the final value of a few runs',
  [G + 'noi_minimum_cut.h', 'lib/parallel/coarsening/contraction_tests.h', G + 'cactus/heavy_edges.h', C + 'sparsify.h'],
  [('connectivity certificates r(e) >= bound', G + 'noi_minimum_cut.h'), ('local tests on degrees and triangles', C + 'contraction_tests.h')],
  ['union-find returned by each reduction, compared with all cuts of the graph'])
p('C01', 'Contracting a graph by a clustering preserves all weights between clusters',
  'Contracting a graph according to any clustering yields one vertex per non-empty cluster, and between two clusters one edge whose weight is the total weight of the input edges between them, and no self-loop; every input vertex is mapped to the vertex of its cluster. '
  'All contraction procedures (dense, sparse, from union-find, sequential and parallel) agree on this.',
  ['inputs', 'schedules', 'configurations'], 'all graphs and clusterings, graph types, thread counts and schedules',
  'tests contract a few fixed patterns with two blocks',
  [C + 'contract_graph.h', 'lib/parallel/coarsening/contract_graph.h', D + 'mutable_graph.h'],
  [('per-block accumulation / concurrent hash table', 'lib/parallel/coarsening/contract_graph.h')],
  ['contracted graph and mapping'])
p('C02', 'Sampled contraction and vertex removal keep the weights of what remains',
  'For every connected graph, contraction factor, kind of sampling, seed and number of threads, the graph contracted along sampled edges is the quotient of the input by connected parts: every vertex is assigned one part, each edge of the result has the total weight of the edges between its two parts, and no weight between parts is lost. The graph left after removing the vertices of high weighted degree is the induced subgraph of exactly those vertices whose weighted degree is below the percentile, with its weights and the reported new numbers. The input graph is unchanged.',
  ['inputs', 'configurations', 'schedules'], 'all graphs, factors, samplings, seeds and thread counts', 'not tested',
  ['lib/coarsening/sparsify.h', 'lib/parallel/coarsening/sparsify.h'],
  [('sampling with union-find', 'lib/parallel/coarsening/sparsify.h'), ('removal by percentile', 'lib/coarsening/sparsify.h')], ['returned graph', 'partition indices and index vector'])
p('G01', 'Dynamic graph keeps structure and weights under any operation history',
  'For any history of edge and vertex insertions, deletions, contractions of edges, edge sets and vertex sets, splits and copies, the mutable graph stays consistent - reverse edges point back at each other with equal weights, degrees and totals are correct - and equals the abstract weighted graph with the same operations applied. '
  'The positions reported for original vertices and the vertices contained in each vertex always agree.',
  ['histories', 'inputs'], 'all graphs and operation histories',
  'tests apply single operations to small cliques',
  [D + 'mutable_graph.h'], [('reverse edge indices', D + 'mutable_graph.h'), ('contained vertices and current positions', D + 'mutable_graph.h')],
  ['public queries of the graph after every operation'])
p('G02', 'Graph construction, conversion, copy and serialisation preserve the graph',
  'A graph built from an edge list, converted between the static and the mutable representation, copied, serialised and deserialised, or restricted to a vertex set is the same weighted graph (respectively its induced subgraph), and degree, edge and weight queries agree with it; a flow network built from it has each of its arcs with a residual arc back, and keeps the flow it is given.',
  ['inputs'], 'all weighted graphs including isolated vertices and several components',
  'tests convert a few fixed graphs',
  [D + 'graph_access.h', D + 'mutable_graph.h', 'lib/tools/graph_extractor.h'], [('CSR arrays', D + 'graph_access.h'), ('flat encoding', D + 'mutable_graph.h')],
  ['public queries of the resulting graphs'])
p('S01', 'Priority queues return an element of maximum priority',
  'For every history of insertions, priority changes, deletions and removals, every node priority queue reports the current size, membership and priority of each element and removes an element of the currently highest priority, each element exactly once.',
  ['histories'], 'all operation histories (within each queue\'s documented key range)',
  'tests perform a few operations per queue',
  [D + 'priority_queues/fifo_node_bucket_pq.h', D + 'priority_queues/node_bucket_pq.h', D + 'priority_queues/bucket_pq.h', D + 'priority_queues/vecMaxNodeHeap.h', D + 'priority_queues/maxNodeHeap.h'],
  [('bucket index / heap order', D + 'priority_queues')], ['results of every operation'])
p('S02', 'Sequential union-find maintains the partition generated by the unions',
  'After any history of unions and finds, two elements have the same representative exactly if they are connected by the unions performed, and the reported number of sets is the number of classes.',
  ['histories'], 'all histories of operations', 'tests perform a few unions',
  [D + 'union_find.h'], [('path compression, union by rank', D + 'union_find.h')], ['find, union, number of sets'])
p('S03', 'Concurrent union-find is linearizable under any interleaving',
  'For any number of threads performing unions, finds and same-set queries concurrently, every result is consistent with some sequential order of the operations; afterwards the classes are exactly those generated by all unions, exactly one of the racing unions of two classes reports success, and every operation ends.',
  ['schedules', 'histories'], 'all histories of concurrent operations and all interleavings of their atomic steps',
  'the stable tests only exercise one thread or one free-running schedule',
  ['lib/parallel/data_structure/union_find.h'], [('compare-and-swap on parents and ranks', 'lib/parallel/data_structure/union_find.h')],
  ['results of Union, Find, SameSet; classes after all threads ended'])
p('S04', 'Random helpers permute without losing elements, stay in range and repeat with their seed',
  'Every permutation helper of random_functions leaves exactly the elements it was given (with initialisation: exactly 0 to n-1) for vectors of any length, and does move elements of vectors that are not tiny; integers are drawn from the closed range asked for, every value of which can occur, doubles and booleans likewise; after setting equal seeds every sequence of calls gives equal results, and a copy of the generator does not disturb it.',
  ['inputs', 'histories'], 'all lengths, element types, seeds and ranges', 'no test covers them',
  ['lib/tools/random_functions.h'], [('generator shared by all helpers', 'lib/tools/random_functions.h')], ['vectors and numbers returned'])
p('F01', 'Flow algorithms return maximum flows and minimum source-sink cuts',
  'For every weighted undirected graph, source and sinks, the push-relabel maximum flow algorithm returns the weight of a minimum cut between the source and the sinks, and the source set it reports is the source side of such a cut. With a limit, a result below the limit is exact and otherwise the maximum flow is at least the limit. '
  'This holds for any sequence of flow problems on the same graph, whether flow is stored on the edges or separately, and the graph itself stays as it was.',
  ['inputs', 'configurations'], 'all graphs, sources, sinks, limits, sequences of problems on one graph; all variants of the algorithm',
  'tests check a few grid graphs',
  ['lib/algorithms/flow/push_relabel.h', 'lib/data_structure/mutable_graph.h'],
  [('preflow with labels, gap and global relabelling', 'lib/algorithms/flow/push_relabel.h')], ['returned value and source set'])
p('T01', 'Multiterminal cut returns an optimal solution that separates the terminals',
  'For every weighted graph and set of terminals, the exact multiterminal algorithm returns the minimum total weight of edges whose removal separates all terminals from each other, and the block assignment it reports puts each terminal into its own block and has exactly that weight.',
  ['inputs', 'configurations'], 'all weighted graphs and terminal sets, also disconnected ones', 'tests solve a few symmetric graphs',
  [M + 'multiterminal_cut.h', M + 'branch_multicut.h', M + 'kernelization_criteria.h', M + 'maximum_flow.h', M + 'problem_management.h'],
  [('reductions on single problems', M + 'kernelization_criteria.h'), ('branching on an edge', M + 'branch_multicut.h'), ('flow bounds', M + 'maximum_flow.h')],
  ['return value of multicut', 'written solution'])
p('T02', 'Multiterminal optimum does not depend on threads, schedule or options',
  'The value of an exact multiterminal cut is the same for every number of threads, every schedule, every choice of branching queue, edge selection and reduction options, and the run ends.',
  ['schedules', 'configurations', 'inputs'], 'thread counts, interleavings, queue types, edge selections (one MPI process)',
  'tests use one configuration each',
  [M + 'branch_multicut.h', M + 'problem_queues/per_thread_problem_queue.h', M + 'problem_management.h', M + 'mpi_communication.h'],
  [('global upper bound shared by workers', M + 'problem_management.h'), ('termination detection', M + 'branch_multicut.h')],
  ['return value of multicut'])
p('T03', 'Branching queue hands out every subproblem exactly once',
  'For any number of threads adding and pulling subproblems, every subproblem added is handed out at most once and none is lost while it can still improve on the bound; the queue reports empty only when it is.',
  ['schedules', 'histories'], 'all interleavings of producers and consumers, all queue types and bounds', 'not tested at all',
  [M + 'problem_queues/per_thread_problem_queue.h'], [('per-thread locked queues', M + 'problem_queues/per_thread_problem_queue.h')], ['problems added and pulled, size, empty'])
p('T04', 'Inexact multiterminal cuts and local search give valid, never worse solutions',
  'With inexact branching the returned value is the weight of a real partition that separates all terminals, so at least the optimum. Local search never worsens the solution it is given, keeps terminals in their blocks, and reports exactly the improvement it achieved.',
  ['inputs', 'configurations'], 'all graphs, terminals and start solutions', 'tests run single small instances',
  [M + 'local_search.h', M + 'branch_multicut.h', M + 'kernelization_criteria.h'], [('flow based refinement of block pairs', M + 'local_search.h')],
  ['solution vector and return value of local search', 'return value of multicut'])
p('T05', 'Every multiterminal reduction keeps the optimum',
  'For every weighted graph, set of terminals and bound, each reduction of the multiterminal cut solver (isolating cuts, deletion of edges between terminals, and every kernelization rule: degrees, heavy edges, shared and equal neighbourhoods, articulation points, bridges, cliques, flows from non-terminals) leaves a problem whose optimum plus the weight deleted equals the optimum of the original whenever that is below the bound, never merges two terminals, and sets lower and upper bounds and block assignments that are correct.',
  ['inputs', 'configurations'], 'all graphs, terminal sets, bounds, reduction options, sequential and parallel flows', 'tests only look at the final result on symmetric graphs',
  [M + 'kernelization_criteria.h', M + 'maximum_flow.h', M + 'graph_contraction.h', 'lib/algorithms/misc/equal_neighborhood.h', 'lib/algorithms/misc/maximal_clique.h', 'lib/algorithms/misc/find_articulation_points.h', 'lib/algorithms/misc/find_bridges.h'],
  [('kernelization rules', M + 'kernelization_criteria.h'), ('contraction of isolating blocks', M + 'graph_contraction.h'), ('source sets', M + 'maximum_flow.h')], ['optimum of the reduced problem, bounds, blocks'])
p('T06', 'Reaching the time limit at any moment leaves a valid multiterminal solution',
  'Whenever the time limit of a multiterminal cut run is reached - before the first branching, between any two subproblems, inside local search, with any number of threads and options - the run ends by itself and returns a block assignment that keeps every terminal vertex in its block, has exactly the returned weight, and is at most twice the optimum (the search starts from the isolating cuts of all terminals but one). A run that ends before the limit returns what it returns without a limit.',
  ['schedules', 'configurations', 'inputs', 'histories'], 'all moments at which the limit can be reached, all inputs, options, thread counts and interleavings', 'no test sets a time limit',
  [M + 'branch_multicut.h', M + 'local_search.h', M + 'problem_management.h'],
  [('draining of the queues after the limit', M + 'branch_multicut.h'), ('best solution so far', M + 'problem_management.h')],
  ['return value of multicut', 'written solution'])
p('T07', 'Subproblems survive being sent, and several MPI processes agree on the optimum',
  'A multiterminal cut subproblem sent from one MPI process to another arrives as it was: lower and upper bound, weight of edges already deleted, terminals with their state, mapping of original vertices, and graph. Several MPI processes of one solver thread each that work on the same graph and terminals, in whatever order and with whatever delay their messages arrive, all end, and each returns the weight of a minimum multiterminal cut and writes an assignment of all vertices that keeps the terminals apart and has this weight.',
  ['schedules', 'inputs', 'histories'], 'all subproblems; all orders and delays of messages between any number of processes', 'no test uses more than one process',
  [M + 'mpi_communication.h', M + 'branch_multicut.h'],
  [('sendProblem, recvProblem', M + 'mpi_communication.h'), ('waiting, termination and bound exchange', M + 'mpi_communication.h'), ('distribution of problems', M + 'branch_multicut.h')],
  ['messages sent and received', 'return value of multicut in every process', 'written solutions'])
p('A01', 'k-core decomposition is exact',
  'For every graph the decomposition assigns each vertex the largest k such that it belongs to a subgraph of minimum degree k, and the core graph extracted for a k no larger than the largest core number is a largest connected component of the subgraph induced by the vertices of core number at least k, with its edge weights.',
  ['inputs'], 'all graphs and k', 'tests check one or two graphs',
  ['lib/algorithms/misc/core_decomposition.h'], [('bucket peeling', 'lib/algorithms/misc/core_decomposition.h')], ['core numbers, extracted graph'])
p('A02', 'Structure algorithms report components, bridges, articulation points correctly',
  'For every graph the connected components, strongly connected components, bridges, articulation points, breadth-first distances and highest degree vertices reported are exactly those of the graph.',
  ['inputs'], 'all graphs', 'tests check a few fixed graphs',
  ['lib/algorithms/misc/strongly_connected_components.h', 'lib/algorithms/misc/graph_algorithms.h', 'lib/algorithms/misc/find_bridges.h', 'lib/algorithms/misc/find_articulation_points.h'], [('depth-first search low points', 'lib/algorithms/misc')], ['returned values'])
p('I01', 'Graph files are read and written faithfully',
  'Every well-formed METIS file (with or without edge or vertex weights, comments, any amount of blank space) is read as exactly the graph it describes, and a graph written to a file reads back as the same graph, as do vectors and partitions.',
  ['inputs'], 'all graphs, formats, layouts of white space and comments', 'tests read two small files',
  ['lib/io/graph_io.h'], [('line by line parser', 'lib/io/graph_io.h')], ['graph after reading, bytes written'])
p('I02', 'Executables report correct results for every supported option combination',
  'mincut (and mincut_parallel), mincut_heavy, mincut_contract, mincut_recursive, multiterminal_cut, dynamic_mincut, dynmc_from_static, balanced_small_cut, kcore, largest_cc, temporal_largest_cc and make_graph_weighted terminate normally on every graph file and combination of their options and report correct results: exact algorithms print the weight of a minimum cut, inexact ones never less than it; a multiterminal cut is a minimum one unless an inexact option is given and always the weight of some cut between the terminals; the values printed over a sequence of edge updates are those of the evolving graph; contraction programs print a value that is the weight of a cut of the graph they were given; every cut, partition, core, component or graph they write on request is what the output is documented to be and has the weight reported with it.',
  ['inputs', 'configurations'], 'all input files and option combinations', 'the executables are not tested',
  ['app/mincut.cpp', 'app/multiterminal_cut.cpp', 'app/kcore.cpp', 'app/mincut_contract.cpp', 'app/mincut_recursive.cpp', 'app/dynamic_mincut.cpp', 'app/balanced_small_cut.cpp', 'app/mincut_heavy.cpp', 'app/largest_cc.cpp', 'app/make_graph_weighted.cpp'],
  [('option parsing and output', 'app')], ['standard output', 'written files'])
p('X01', 'No input triggers memory errors, undefined behaviour or failed assertions',
  'On every valid input and option combination no algorithm reads or writes outside its objects, uses freed or uninitialised memory, executes undefined arithmetic or conversions, or fails one of the internal assertions.',
  ['inputs', 'configurations', 'histories'], 'all valid inputs to all library entry points', 'tests run without sanitizers and, in the shipped build, without assertions',
  ['lib'], [('index computations and invariants asserted throughout', 'lib')], ['sanitizer reports, assertion failures, signals'])
p('X02', 'Results are reproducible and inputs are left unmodified',
  'Sequential algorithms called twice with the same graph, options and seed return the same value and the same cut, independent of what ran before in the process. A caller\'s graph keeps its vertices, edges and weights across every algorithm that does not document otherwise.',
  ['inputs', 'configurations', 'histories'], 'all algorithms, graphs, options, seeds and preceding calls', 'tests call each algorithm once on fresh state',
  ['lib/tools/random_functions.h', 'lib/common/configuration.h', G + 'noi_minimum_cut.h'], [('single seeded generator', 'lib/tools/random_functions.h'), ('copies made before contraction', G)],
  ['values, cuts and graphs before and after'])

if __name__ == '__main__':
    for q in P:
        q['anchors']['files'] = list(dict.fromkeys(q['anchors']['files']))
        print(json.dumps(q))
