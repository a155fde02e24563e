"""What each property's check runs.  counts are cases, never seconds."""
SAN = ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1']
VARIANTS = {
    # sequential library, address+undefined-behaviour sanitizers, the project's own assertions on
    'seq-asan': dict(flags=SAN + ['-fopenmp']),
    # as shipped: optimised, assertions off
    'seq-rel': dict(flags=['-O2', '-DNDEBUG', '-fopenmp']),
    'par-asan': dict(flags=SAN + ['-fopenmp', '-DPARALLEL']),
    # every memory access, lock and OpenMP construct is a yield point of harness/sched.cpp
    'seq-sched': dict(flags=['-O1', '-g1', '-fopenmp', '-D_GLIBCXX_ASSERTIONS'], sched=True),
    'par-sched': dict(flags=['-O1', '-g1', '-fopenmp', '-D_GLIBCXX_ASSERTIONS', '-DPARALLEL'], sched=True),
    # for valgrind's memcheck: use of uninitialised memory
    'seq-vg': dict(flags=['-O1', '-g1', '-fno-inline-functions', '-fopenmp']),
    'par-vg': dict(flags=['-O1', '-g1', '-fno-inline-functions', '-fopenmp', '-DPARALLEL']),
    'par-rel': dict(flags=['-O2', '-DNDEBUG', '-fopenmp', '-DPARALLEL']),
}
SPECS = {}


def S(pid, rule, jobs, **kw):
    SPECS[pid] = dict(rule=rule, jobs=jobs, **kw)


def J(src, variant, quick, thorough, **kw):
    return dict(src=src, variant=variant, quick=quick, thorough=thorough, **kw)


S('S01', 'one case = one random operation history on one of the five queues, compared with a map after every '
  'operation; non-trivial = distinct (queue, operation sequence)',
  [J('pq.cpp', 'seq-asan', 8000, 200000), J('pq.cpp', 'seq-rel', 16000, 800000)])
S('S02', 'one case = one random union/find history compared with explicit labels; non-trivial = distinct '
  'history on more than two elements',
  [J('uf.cpp', 'seq-asan', 8000, 200000), J('uf.cpp', 'seq-rel', 16000, 400000)])
S('S04', 'one case = one seed and one length: every permutation helper on vectors of three element types, closed ranges, streams '
  'for equal and different seeds; non-trivial = distinct (seed, length)',
  [J('misc.cpp', 'seq-asan', 2000, 40000, mode='rand'), J('misc.cpp', 'seq-rel', 8000, 200000, mode='rand')])
S('G01', 'one case = one random history of contractions, deletions, insertions, splits and copies on one graph, '
  'compared with a model of sets and weights after every operation; non-trivial = distinct history on a graph with '
  'more than one edge', [J('mgraph.cpp', 'seq-asan', 12000, 400000, limit=10), J('mgraph.cpp', 'seq-rel', 24000, 1000000, limit=10)])
S('G02', 'one case = one random (possibly disconnected, weighted) graph built, queried, converted, copied, serialised '
  'and split; non-trivial = distinct graph (and contraction history)',
  [J('ggraph.cpp', 'seq-asan', 8000, 300000, limit=10), J('ggraph.cpp', 'seq-rel', 16000, 600000, limit=10)])
MC = 'one case = one random graph, algorithm, graph type, queue, limiting, edge selection, thread count and seed; non-trivial = distinct (graph with more than one edge, algorithm, queue)'
S('M01', MC, [J('mincut.cpp', 'seq-rel', 12, 1500, mode='exact:big', shards=64, limit=150), J('mincut.cpp', 'seq-asan', 16000, 200000, mode='exact:small'),
              J('mincut.cpp', 'seq-rel', 100000, 2000000, mode='exact:small'),
              J('mincut.cpp', 'seq-rel', 12000, 200000, mode='exact:mid'), J('mincut.cpp', 'seq-rel', 12000, 200000, mode='exact:large')])
S('M02', MC, [J('mincut.cpp', 'par-rel', 6, 1000, mode='exact:big', shards=64, limit=150), J('mincut.cpp', 'par-asan', 4000, 60000, mode='exact:small'),
              J('mincut.cpp', 'par-rel', 30000, 400000, mode='exact:small'),
              J('mincut.cpp', 'par-rel', 4000, 40000, mode='exact:mid'), J('mincut.cpp', 'par-rel', 2000, 40000, mode='exact:large')])
S('M03', MC, [J('mincut.cpp', 'seq-rel', 24, 1500, mode='heur:big', shards=64, limit=150), J('mincut.cpp', 'par-rel', 16, 1000, mode='heur:big', shards=64, limit=150),
              J('mincut.cpp', 'seq-asan', 16000, 200000, mode='heur:small'), J('mincut.cpp', 'seq-rel', 80000, 1000000, mode='heur:small'),
              J('mincut.cpp', 'seq-rel', 12000, 200000, mode='heur:mid'), J('mincut.cpp', 'seq-rel', 6000, 100000, mode='heur:large'),
              J('mincut.cpp', 'par-rel', 8000, 200000, mode='heur:small'), J('mincut.cpp', 'par-rel', 3000, 60000, mode='heur:mid')])
S('M04', MC, [J('mincut.cpp', 'seq-rel', 16, 1500, mode='save:big', shards=64, limit=150), J('mincut.cpp', 'par-rel', 12, 1000, mode='save:big', shards=64, limit=150),
              J('mincut.cpp', 'seq-asan', 16000, 200000, mode='save:small'), J('mincut.cpp', 'seq-rel', 80000, 1000000, mode='save:small'),
              J('mincut.cpp', 'seq-rel', 8000, 200000, mode='save:mid'),
              J('mincut.cpp', 'par-rel', 12000, 200000, mode='save:small'), J('mincut.cpp', 'par-rel', 3000, 60000, mode='save:mid')])
S('X02', MC, [J('mincut.cpp', 'seq-rel', 60000, 1000000, mode='det:small'), J('mincut.cpp', 'seq-rel', 4000, 100000, mode='det:mid')])
CA = 'one case = one random connected graph, graph type, queue, edge selection, thread count and seed; the cactus is decoded into the set of cuts it stands for and compared with all minimum cuts from an independent enumeration; non-trivial = distinct graph with more than one minimum cut'
for _p, _w in (('M05', 'all'), ('M06', 'best')):
    S(_p, CA, [J('cactus.cpp', 'seq-asan', 4000, 60000, mode=_w + ':small'), J('cactus.cpp', 'seq-rel', 60000, 1000000, mode=_w + ':small'),
               J('cactus.cpp', 'seq-rel', 800, 60000, mode=_w + ':mid'), J('cactus.cpp', 'seq-rel', 8000, 100000, mode=_w + ':rich'),
               J('cactus.cpp', 'seq-rel', 32, 1500, mode=_w + ':big'),
               J('cactus.cpp', 'par-rel', 3000, 100000, mode=_w + ':small'), J('cactus.cpp', 'par-rel', 1000, 30000, mode=_w + ':rich'),
               J('cactus.cpp', 'par-rel', 16, 800, mode=_w + ':big')])
SPECS['M05']['jobs'].insert(0, J('cactus.cpp', 'seq-rel', 1, 1, mode='deep', limit=300))
DY = 'one case = one history of edge insertions and deletions on a random start graph; after every update the value (and the decoded cactus) is compared with all cuts of a model; evaluations = updates; non-trivial = distinct history'
for _p, _w in (('D01', 'value'), ('D02', 'cactus')):
    S(_p, DY, [J('dynamic.cpp', 'seq-rel', 320, 6000, mode=_w + ':hub'), J('dynamic.cpp', 'seq-rel', 24, 1000, mode=_w + ':long', limit=120),
               J('dynamic.cpp', 'seq-asan', 4000, 60000, mode=_w + ':small'), J('dynamic.cpp', 'seq-rel', 60000, 1000000, mode=_w + ':small'),
               J('dynamic.cpp', 'seq-rel', 6000, 60000, mode=_w + ':mid'),
               J('dynamic.cpp', 'par-rel', 3000, 60000, mode=_w + ':small'), J('dynamic.cpp', 'par-rel', 400, 20000, mode=_w + ':mid')])

CO = 'one case = one graph and one clustering contracted by one of the procedures and compared arc by arc with the quotient graph computed from the definition; non-trivial = distinct (graph, clustering) with more than one and fewer than n clusters'
S('C01', CO, [J('contract.cpp', 'seq-asan', 16000, 300000, mode='con:small'), J('contract.cpp', 'seq-rel', 80000, 2000000, mode='con:small'),
              J('contract.cpp', 'seq-rel', 1600, 60000, mode='con:large'),
              J('contract.cpp', 'par-asan', 8000, 100000, mode='con:small'), J('contract.cpp', 'par-asan', 400, 10000, mode='con:large'),
              J('contract.cpp', 'par-rel', 40000, 600000, mode='con:small'), J('contract.cpp', 'par-rel', 2400, 60000, mode='con:large')])
S('C02', 'one case = one connected graph contracted along randomly sampled edges, compared with the quotient graph by the reported parts and by the parts its edge weights reveal (every weight has a bit of its own), or with its vertices of high degree removed, compared with the induced graph; non-trivial = distinct (graph, procedure, seed or limit) with some but not all merged or removed',
  [J('contract.cpp', 'seq-asan', 8000, 200000, mode='spars:small'), J('contract.cpp', 'seq-rel', 40000, 1000000, mode='spars:small'), J('contract.cpp', 'seq-rel', 800, 40000, mode='spars:large'),
   J('contract.cpp', 'par-asan', 8000, 100000, mode='spars:small'), J('contract.cpp', 'par-rel', 24000, 600000, mode='spars:small'), J('contract.cpp', 'par-rel', 1600, 40000, mode='spars:large')])
RE = 'one case = one reduction run on one graph with one bound; the classes of the union-find it returns are compared with all cuts (small) or pairwise maximum flows (mid); non-trivial = distinct (graph, reduction, bound) in which something was merged'
S('R01', RE, [J('contract.cpp', 'seq-asan', 16000, 300000, mode='red:small'), J('contract.cpp', 'seq-rel', 120000, 3000000, mode='red:small'),
              J('contract.cpp', 'seq-rel', 12000, 300000, mode='red:mid'),
              J('contract.cpp', 'par-asan', 8000, 100000, mode='red:small'), J('contract.cpp', 'par-rel', 60000, 1000000, mode='red:small'),
              J('contract.cpp', 'par-rel', 8000, 200000, mode='red:mid')])
FL = 'one case = one graph and up to five flow problems on it, one after the other (fresh or reused object, flow on the edges or in own storage, with limit, one or several sinks, generator seeded again), each compared with Dinic; non-trivial = distinct (graph, source, sinks) with positive flow'
S('F01', FL, [J('flow.cpp', 'seq-asan', 16000, 300000, mode='small'), J('flow.cpp', 'seq-rel', 80000, 2000000, mode='small'),
              J('flow.cpp', 'seq-rel', 12000, 300000, mode='mid'), J('flow.cpp', 'seq-rel', 400, 20000, mode='big')])
MT = 'one case = one weighted graph and one set of terminals (single vertices, areas, or chosen by the program); the value and the written solution are compared with an independent branch and bound (two terminals: with Dinic); non-trivial = distinct (graph, terminals) with at least two terminals in one component'
S('T01', MT, [J('multicut.cpp', 'seq-asan', 3000, 80000, mode='opt:small', limit=40), J('multicut.cpp', 'seq-rel', 60000, 1500000, mode='opt:small', limit=40),
              J('multicut.cpp', 'seq-rel', 3000, 120000, mode='opt:mid', limit=200), J('multicut.cpp', 'seq-rel', 600, 20000, mode='opt:large', limit=200)])
S('T02', MT + '; options, number of threads and queue are drawn at random', [J('multicut.cpp', 'seq-asan', 1600, 60000, mode='vary:small', limit=40), J('multicut.cpp', 'seq-rel', 40000, 1500000, mode='vary:small', limit=40),
              J('multicut.cpp', 'seq-rel', 3000, 100000, mode='vary:mid', limit=200), J('multicut.cpp', 'seq-rel', 400, 20000, mode='vary:large', limit=200)])
S('T04', MT + '; local search: one case = one graph, terminals, fixed vertices and solution, the weight of which is recomputed before and after',
  [J('multicut.cpp', 'seq-asan', 2400, 60000, mode='inexact:small', limit=40), J('multicut.cpp', 'seq-rel', 40000, 1000000, mode='inexact:small', limit=40),
   J('multicut.cpp', 'seq-rel', 2000, 80000, mode='inexact:mid', limit=200), J('multicut.cpp', 'seq-rel', 400, 20000, mode='inexact:large', limit=200),
   J('multicut.cpp', 'seq-asan', 2400, 60000, mode='ls:small'), J('multicut.cpp', 'seq-rel', 40000, 1000000, mode='ls:small'), J('multicut.cpp', 'seq-rel', 2400, 60000, mode='ls:mid')])

S('T05', 'one case = one weighted graph, terminals and one reduction of the solver (kernelization, isolating cuts, edges between terminals, two-terminal flow, flows from non-terminals, equal neighbourhoods, articulation points, bridges, cliques); the optimum before and after, from an independent branch and bound, must agree; non-trivial = distinct (graph, terminals, reduction) in which something was merged',
  [J('kernel.cpp', 'seq-asan', 8000, 200000, mode='small'), J('kernel.cpp', 'seq-rel', 80000, 2000000, mode='small'), J('kernel.cpp', 'seq-rel', 24000, 600000, mode='mid')])
S('T06', MT + '; the clock the solver reads is replaced by one that passes the time limit at a drawn reading',
  [J('multicut.cpp', 'seq-asan', 1600, 60000, mode='limit:small', limit=40), J('multicut.cpp', 'seq-rel', 24000, 1000000, mode='limit:small', limit=40),
   J('multicut.cpp', 'seq-rel', 3000, 100000, mode='limit:mid', limit=200), J('multicut.cpp', 'seq-rel', 400, 20000, mode='limit:large', limit=200)])
S('A01', 'one case = one graph (also disconnected, weighted, with isolated vertices) whose core numbers and up to three extracted cores are compared with repeated deletion; non-trivial = distinct graph with a core number above one',
  [J('misc.cpp', 'seq-asan', 8000, 200000, mode='core:small', limit=10), J('misc.cpp', 'seq-rel', 40000, 1000000, mode='core:small', limit=10), J('misc.cpp', 'seq-rel', 16000, 400000, mode='core:mid')])
S('A02', 'one case = one graph and one question (components of directed and undirected graphs, components of a residual graph, largest component, bridges, articulation points, distances, highest degrees, validity, edge cut) compared with the definition; non-trivial = distinct (graph, question)',
  [J('misc.cpp', 'seq-asan', 8000, 200000, mode='struct:small', limit=10), J('misc.cpp', 'seq-rel', 60000, 1500000, mode='struct:small', limit=10), J('misc.cpp', 'seq-rel', 8000, 300000, mode='struct:mid')])

S('I01', 'one case = one graph written by the harness in a random METIS layout (format field, comments, blanks, tabs, line ends, vertex weights, self-loops) and read, or written by the project and parsed strictly, or one vector, cut, event list or flow graph; non-trivial = distinct file contents or (graph, operation)',
  [J('io.cpp', 'seq-asan', 8000, 200000, mode='small', limit=10), J('io.cpp', 'seq-rel', 40000, 1000000, mode='small', limit=10), J('io.cpp', 'seq-rel', 4000, 200000, mode='mid')])

# more than 2^16 vertices
for _p, _src, _m, _q in (('S01', 'pq.cpp', 'huge', 16), ('S02', 'uf.cpp', 'huge', 8), ('G01', 'mgraph.cpp', 'huge', 8), ('G02', 'ggraph.cpp', 'huge', 16),
                         ('C01', 'contract.cpp', 'con:huge', 16), ('F01', 'flow.cpp', 'huge', 8), ('I01', 'io.cpp', 'huge', 16), ('A01', 'misc.cpp', 'core:huge', 8),
                         ('A02', 'misc.cpp', 'struct:huge', 16), ('M01', 'mincut.cpp', 'exact:huge', 8), ('M03', 'mincut.cpp', 'heur:huge', 8), ('M04', 'mincut.cpp', 'save:huge', 8)):
    SPECS[_p]['jobs'].insert(0, J(_src, 'seq-rel', _q, _q * 30, mode=_m, limit=120))
for _p, _src, _m in (('C01', 'contract.cpp', 'con:huge'), ('M02', 'mincut.cpp', 'exact:huge')):
    SPECS[_p]['jobs'].insert(0, J(_src, 'par-rel', 8, 240, mode=_m, limit=150))

# interleavings chosen by harness/sched.cpp, in which the real code runs
SCH = '; in the -sched jobs a seeded scheduler chooses the interleaving of all threads at every memory access'
def add(pid, *jobs):
    SPECS[pid]['jobs'] += jobs
    SPECS[pid]['rule'] += SCH
add('C01', J('contract.cpp', 'par-sched', 32000, 1500000, mode='con:small'))
add('R01', J('contract.cpp', 'par-sched', 72000, 3000000, mode='red:scan'), J('contract.cpp', 'par-sched', 24000, 1500000, mode='red:small'))
add('M02', J('mincut.cpp', 'par-sched', 16000, 600000, mode='exact:small'))
add('M03', J('mincut.cpp', 'par-sched', 24000, 800000, mode='heur:small'))
add('M04', J('mincut.cpp', 'par-sched', 16000, 600000, mode='save:small'))
add('M05', J('cactus.cpp', 'par-sched', 6000, 300000, mode='all:small'))
add('M06', J('cactus.cpp', 'par-sched', 6000, 300000, mode='best:small'))
add('D01', J('dynamic.cpp', 'par-sched', 6000, 300000, mode='value:small'))
add('D02', J('dynamic.cpp', 'par-sched', 4000, 300000, mode='cactus:small'))
add('T02', J('multicut.cpp', 'seq-sched', 4800, 300000, mode='vary:small'))
S('T07', 'one case = either one subproblem sent and received (compared field by field, graph included), or one weighted graph with terminals solved by two to five processes of one thread each over a message passing library that delays messages at random; the value and the written solution of every process are compared with an independent branch and bound; non-trivial = distinct subproblem with a graph of its own, or distinct (graph, terminals, number of processes) with at least two terminals in one component',
  [J('mpi.cpp', 'seq-asan', 1600, 60000, mode='transfer', limit=10), J('mpi.cpp', 'seq-rel', 8000, 300000, mode='transfer', limit=10),
   J('mpi.cpp', 'seq-asan', 2000, 60000, mode='dist:small', limit=8), J('mpi.cpp', 'seq-rel', 12000, 600000, mode='dist:small', limit=10),
   J('mpi.cpp', 'seq-rel', 6000, 200000, mode='dist:mid', limit=8)])
add('T06', J('multicut.cpp', 'seq-sched', 3000, 200000, mode='limit:small'))
S('S03', 'one case = one program of unions, finds and same-set queries for up to four threads on one union-find; every history is checked for linearizability and the final classes against the closure of all unions; non-trivial = distinct program on more than one thread' + SCH,
  [J('conc.cpp', 'seq-sched', 80000, 3000000, mode='uf'), J('conc.cpp', 'seq-sched', 4000, 150000, mode='uf-large'),
   J('conc.cpp', 'seq-asan', 8000, 100000, mode='uf'), J('conc.cpp', 'seq-rel', 16000, 400000, mode='uf'), J('conc.cpp', 'seq-rel', 1600, 60000, mode='uf-large')])
S('T03', 'one case = one program of additions, pulls, queue preparations and size queries for up to six threads on one branching queue; afterwards the queue is drained and every problem accounted for; non-trivial = distinct program on more than one thread' + SCH,
  [J('conc.cpp', 'seq-sched', 24000, 800000, mode='queue'), J('conc.cpp', 'seq-asan', 4000, 60000, mode='queue'), J('conc.cpp', 'seq-rel', 8000, 200000, mode='queue')])

# the programs themselves
CLI = 'one case = one run of one program on a graph file written for it, with random options; what it prints and writes is compared with independent answers; non-trivial = distinct (graph, command line)'
def A(mode, variant, quick, thorough, **kw):
    prog = mode.split(':')[0]
    apps = dict(mincut=['mincut'], multiterminal=['multiterminal_cut'], dynamic=['dynamic_mincut'], dyngen=['dynmc_from_static'], balanced=['balanced_small_cut'], kcore=['kcore'],
                recursive=['mincut_recursive'], contract=['mincut_contract'], heavy=['mincut_heavy'], tools=['largest_cc', 'temporal_largest_cc', 'make_graph_weighted'])[prog]
    return J('cli.cpp', 'seq-rel', quick, thorough, mode=mode + ':' + variant.upper().replace('-', '_'), tools=[('app/%s.cpp' % a, variant) for a in apps], **kw)
S('I02', CLI, [A('mincut:small', 'seq-asan', 1200, 40000), A('mincut:small', 'seq-rel', 6000, 200000), A('mincut:mid', 'seq-rel', 1200, 40000),
               A('mincut:small', 'par-rel', 3000, 120000), A('mincut:mid', 'par-rel', 600, 20000),
               A('multiterminal:small', 'seq-asan', 600, 16000, limit=150), A('multiterminal:small', 'seq-rel', 2400, 80000, limit=150), A('multiterminal:mid', 'seq-rel', 600, 16000, limit=200),
               A('dynamic:small', 'seq-asan', 600, 20000), A('dynamic:small', 'seq-rel', 3000, 120000), A('dynamic:mid', 'seq-rel', 300, 20000), A('dynamic:small', 'par-rel', 1200, 40000),
               A('dyngen:small', 'seq-rel', 600, 30000), A('dyngen:small', 'seq-asan', 120, 4000), A('dyngen:mid', 'seq-rel', 60, 3000),
               A('balanced:small', 'seq-rel', 1200, 40000), A('balanced:mid', 'seq-rel', 300, 12000), A('balanced:small', 'par-rel', 600, 20000),
               A('kcore:small', 'seq-rel', 1200, 40000), A('kcore:mid', 'seq-rel', 300, 12000), A('recursive:small', 'seq-rel', 24, 800), A('recursive:small', 'par-rel', 24, 800),
               A('tools:small', 'seq-rel', 1200, 40000), A('tools:mid', 'seq-rel', 300, 10000),
               A('contract:small', 'seq-rel', 900, 40000), A('contract:mid', 'seq-rel', 180, 8000), A('contract:small', 'par-rel', 900, 40000), A('contract:small', 'par-asan', 180, 8000),
               A('heavy:small', 'seq-rel', 900, 40000), A('heavy:small', 'par-rel', 600, 20000)])

# nothing but the sanitizers, memcheck and the assertions of the project and the
# library decide here; the cases differ from those of the other properties
VG = ['valgrind', '-q', '--error-exitcode=95', '--exit-on-first-error=yes', '--leak-check=no', '--num-callers=24', '--fullpath-after=']
def X(src, mode, asan, vg, par=False, **kw):
    p = 'par' if par else 'seq'
    return [J(src, p + '-asan', asan, asan * 20, mode=mode, salt='X01', **kw)] + \
        ([J(src, p + '-vg', (vg + 1) // 2, vg * 20, mode=mode, salt='X01', wrap=VG, **dict(kw, limit=300))] if vg else [])
S('X01', 'one case = one case of a harness of the other properties (graph, algorithm, options, history), run with '
  'address and undefined-behaviour sanitizers and all assertions on, or in valgrind; its results are not judged here; non-trivial as there',
  sum([X('mincut.cpp', m, 4000, 2000) for m in ('exact:small', 'heur:small', 'save:small', 'det:small')], []) +
  sum([X('mincut.cpp', m, 160, 16) for m in ('exact:mid', 'heur:mid', 'save:mid')], []) +
  sum([X('mincut.cpp', m, 2000, 400, par=True) for m in ('exact:small', 'heur:small', 'save:small')], []) +
  X('cactus.cpp', 'all:small', 4000, 1000) + X('cactus.cpp', 'best:small', 3000, 600) + X('cactus.cpp', 'all:rich', 800, 100) +
  X('cactus.cpp', 'all:small', 1200, 200, par=True) +
  X('dynamic.cpp', 'cactus:small', 2400, 400) + X('dynamic.cpp', 'cactus:small', 800, 100, par=True) +
  X('contract.cpp', 'con:small', 8000, 3000) + X('contract.cpp', 'red:small', 8000, 3000) + X('contract.cpp', 'con:large', 160, 16) +
  X('contract.cpp', 'con:small', 4000, 400, par=True) + X('contract.cpp', 'red:small', 4000, 400, par=True) +
  X('flow.cpp', 'small', 8000, 3000) + X('flow.cpp', 'mid', 400, 80) +
  X('multicut.cpp', 'opt:small', 1200, 500, limit=40) + X('multicut.cpp', 'vary:small', 1200, 240, limit=40) +
  X('multicut.cpp', 'inexact:small', 1200, 500, limit=40) + X('multicut.cpp', 'ls:small', 2400, 800) +
  X('kernel.cpp', 'small', 8000, 3000) + X('conc.cpp', 'uf', 1600, 200) + X('conc.cpp', 'queue', 1600, 400) +
  X('misc.cpp', 'core:small', 6000, 2000) + X('misc.cpp', 'struct:small', 6000, 2000) + X('io.cpp', 'small', 6000, 2000) +
  X('mgraph.cpp', None, 6000, 2000) + X('ggraph.cpp', None, 6000, 2000) + X('pq.cpp', None, 2000, 200) + X('uf.cpp', None, 2000, 200) +
  [A(m, v, q, q * 20, salt='X01', limit=150) for m, v, q in (('mincut:small', 'seq-asan', 600), ('multiterminal:small', 'seq-asan', 300),
    ('dynamic:small', 'seq-asan', 300), ('contract:small', 'par-asan', 100))],
  only=r'asan|ubsan|signal|assertion|memcheck|exception:|ended:[^:]*:(asan|ubsan|signal|assertion)',
  technique='address and undefined-behaviour sanitizers, valgrind memcheck and assertions over executions of the real code')
