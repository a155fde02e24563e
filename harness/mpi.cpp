// T07: subproblems sent between processes arrive as they were, and several
// processes together find the optimum.  There is no MPI here: the functions of
// shim/mpistub/mpi.h are a small message passing library over shared memory,
// with a process per rank, buffered sends and random delays.
#define VF_MPI_MULTI
#define VF_NO_MAIN
#include "multicut.cpp"

#include <sys/prctl.h>
#include <sys/wait.h>

namespace {
constexpr int MAXR = 5;
constexpr size_t ARENA = 64u << 20, MAXMSG = 1u << 17, MAXCOL = 4096;
struct Msg { int src, dst, tag; bool taken; size_t len, off; };
struct Shared {
    pthread_mutex_t mu; pthread_cond_t cv;
    int size;
    size_t msgs, used, first[MAXR];
    int entered[MAXCOL];                        // barriers
    int col_n; u64 col_phase; i64 col_min[2]; size_t col_off[2];
    u64 sent, problems, solutions, asked;       // what the monitors report
    u64 value[MAXR]; u32 sol_n[MAXR]; size_t sol_off[MAXR]; int done[MAXR];
    Msg m[MAXMSG];
    unsigned char arena[ARENA];
};
Shared* S = nullptr;
int my_rank = 0;
pid_t kids[MAXR];
std::atomic<u64> delay_state{0};
int delay_den = 0;
thread_local int barriers_entered = 0;
std::atomic<int> barriers{0};

struct Lock {
    Lock() { pthread_mutex_lock(&S->mu); }
    ~Lock() { pthread_mutex_unlock(&S->mu); }
};
[[noreturn]] void broken(const char* what) { fprintf(stderr, "\nMPI stand-in: %s (rank %d)\n", what, my_rank); fflush(stderr); abort(); }
void maybe_delay() {
    if (!delay_den) return;
    u64 x = delay_state += 0x9e3779b97f4a7c15ull; x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 29;
    if (x % static_cast<u64>(delay_den) == 0) usleep((x >> 20) % 400);
}
void others_alive() {
    if (my_rank) return;     // they end with rank 0
    for (int i = 1; i < S->size; ++i) {
        int st;
        if (kids[i] > 0 && waitpid(kids[i], &st, WNOHANG) == kids[i]) {
            kids[i] = 0;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) broken(WIFSIGNALED(st) ? "another process was ended by a signal" : "another process ended early");
        }
    }
}
size_t alloc(size_t n) { size_t o = S->used; S->used += (n + 15) & ~static_cast<size_t>(15); if (S->used > ARENA) broken("out of message memory"); return o; }
void wait_a_bit() {
    timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_nsec += 2000000; if (t.tv_nsec >= 1000000000) { t.tv_nsec -= 1000000000; ++t.tv_sec; }
    pthread_cond_timedwait(&S->cv, &S->mu, &t);
}
Msg* find(int src, int tag) {
    size_t& f = S->first[my_rank];
    while (f < S->msgs && (S->m[f].dst != my_rank || S->m[f].taken)) ++f;
    for (size_t i = f; i < S->msgs; ++i) {
        Msg& m = S->m[i];
        if (!m.taken && m.dst == my_rank && m.tag == tag && (src == MPI_ANY_SOURCE || m.src == src)) return &m;
    }
    return nullptr;
}
void put(const void* p, int n, int type, int dst, int tag) {
    if (dst < 0 || dst >= S->size) broken("message to a process that does not exist");
    maybe_delay();
    Lock l;
    if (S->msgs >= MAXMSG) broken("too many messages");
    Msg& m = S->m[S->msgs];
    m = Msg{my_rank, dst, tag, false, static_cast<size_t>(n) * type, alloc(static_cast<size_t>(n) * type)};
    memcpy(S->arena + m.off, p, m.len);
    ++S->msgs; ++S->sent;
    if (tag == 1020) ++S->problems; else if (tag == 15123) ++S->solutions; else if (tag == 3000) ++S->asked;
    pthread_cond_broadcast(&S->cv);
}
// collective operations come in the same order in all processes
void collective(i64* val, const void* data, void* out, size_t len, bool root) {
    Lock l;
    u64 ph = S->col_phase & 1;
    if (S->col_n == 0) { S->col_min[ph] = INT64_MAX; S->col_off[ph] = ~static_cast<size_t>(0); }
    if (val) S->col_min[ph] = std::min(S->col_min[ph], *val);
    if (root) { size_t o = alloc(len); memcpy(S->arena + o, data, len); S->col_off[ph] = o; }
    u64 p = S->col_phase;
    if (++S->col_n == S->size) { S->col_n = 0; ++S->col_phase; pthread_cond_broadcast(&S->cv); }
    else while (S->col_phase == p) { wait_a_bit(); others_alive(); }
    if (val) *val = S->col_min[ph];
    if (out) { if (S->col_off[ph] == ~static_cast<size_t>(0)) broken("broadcast from a process that does not exist"); memcpy(out, S->arena + S->col_off[ph], len); }
}
}  // namespace

int MPI_Init(int*, char***) { return 0; }
int MPI_Finalize() { return 0; }
int MPI_Comm_size(MPI_Comm, int* s) { *s = S ? S->size : 1; return 0; }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = my_rank; return 0; }
int MPI_Iprobe(int src, int tag, MPI_Comm, int* flag, MPI_Status* st) {
    *flag = 0;
    if (!S) return 0;
    maybe_delay();
    Lock l;
    static u64 n = 0; if (++n % 512 == 0) others_alive();
    if (Msg* m = find(src, tag)) { *flag = 1; if (st) st->MPI_SOURCE = m->src, st->MPI_TAG = m->tag, st->bytes = m->len; }
    return 0;
}
int MPI_Send(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm) { put(p, n, t, dst, tag); return 0; }
int MPI_Isend(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm, MPI_Request* q) { put(p, n, t, dst, tag); if (q) *q = 0; return 0; }
int MPI_Recv(void* p, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Status* st) {
    maybe_delay();
    Lock l;
    Msg* m;
    while (!(m = find(src, tag))) { wait_a_bit(); others_alive(); }
    if (m->len > static_cast<size_t>(n) * t) broken("message longer than the buffer for it");
    memcpy(p, S->arena + m->off, m->len);
    m->taken = true;
    if (st) st->MPI_SOURCE = m->src, st->MPI_TAG = m->tag, st->bytes = m->len;
    return 0;
}
int MPI_Ibarrier(MPI_Comm, MPI_Request* q) {
    int b = barriers++;
    *q = 1 + b;                                 // other requests are 0
    if (!S) return 0;
    Lock l;
    if (b >= static_cast<int>(MAXCOL)) broken("too many barriers");
    ++S->entered[b];
    return 0;
}
int MPI_Test(MPI_Request* q, int* flag, MPI_Status*) {
    *flag = 1;
    if (!S || *q <= 0) return 0;
    maybe_delay();
    Lock l;
    static u64 n = 0; if (++n % 512 == 0) others_alive();
    *flag = S->entered[*q - 1] == S->size;
    if (!*flag) wait_a_bit();
    return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st) {
    for (int f = 0; !f; ) { MPI_Iprobe(src, tag, c, &f, st); if (!f) { Lock l; wait_a_bit(); others_alive(); } }
    return 0;
}
int MPI_Wait(MPI_Request* q, MPI_Status*) { for (int f = 0; !f; ) MPI_Test(q, &f, nullptr); return 0; }
int MPI_Barrier(MPI_Comm c) { MPI_Request q; MPI_Ibarrier(c, &q); return MPI_Wait(&q, nullptr); }
int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
    if (op != MPI_MIN || n != 1 || t != MPI_LONG) broken("reduction of a kind not modelled");
    i64 v; memcpy(&v, a, 8);
    if (S) collective(&v, nullptr, nullptr, 0, false);
    memcpy(b, &v, 8);
    return 0;
}
int MPI_Bcast(void* p, int n, MPI_Datatype t, int root, MPI_Comm) {
    if (!S) return 0;
    collective(nullptr, p, p, static_cast<size_t>(n) * t, root == my_rank);
    return 0;
}

namespace {
void new_world(int size) {
    if (!S) {
        S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (S == MAP_FAILED) { perror("mmap"); _exit(2); }
    }
    pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED);
    pthread_condattr_t ca; pthread_condattr_init(&ca); pthread_condattr_setpshared(&ca, PTHREAD_PROCESS_SHARED);
    pthread_mutex_init(&S->mu, &ma); pthread_cond_init(&S->cv, &ca);
    S->size = size; S->msgs = S->used = 0; S->col_n = 0; S->col_phase = 0;
    std::fill(std::begin(S->first), std::end(S->first), 0); std::fill(std::begin(S->entered), std::end(S->entered), 0); std::fill(std::begin(S->done), std::end(S->done), 0);
    S->sent = S->problems = S->solutions = S->asked = 0;
    barriers = 0; my_rank = 0;
    std::fill(std::begin(kids), std::end(kids), 0);
}

// one problem, sent and received
void transfer(Ctx& c) {
    Rng& r = c.rng;
    new_world(2);
    Setup s = make_setup(c, 2, r.chance(1, 8) ? 60 : 14, 5);
    auto G = to_mg(s.g);
    // some history: contractions, a smaller copy with a mapping
    auto p = std::make_shared<multicut_problem>(G);
    u32 steps = r.below(3);
    auto contract = [&](mutableGraphPtr H) { for (u32 i = r.below(4); i-- && H->n() > 2;) { NodeID v = r.below(H->n()); if (H->get_first_invalid_edge(v)) H->contractEdge(v, r.below(H->get_first_invalid_edge(v))); } };
    contract(p->graph);
    for (u32 i = 0; i < steps; ++i) {
        auto map = std::make_shared<std::vector<NodeID> >();
        for (size_t v = 0; v < p->graph->getOriginalNodes(); ++v) map->emplace_back(p->graph->getCurrentPosition(v));
        p->mappings.emplace_back(map); p->graph = p->graph->simplify();
        contract(p->graph);
    }
    std::vector<u32> t(p->graph->n()); std::iota(t.begin(), t.end(), 0u); r.shuffle(t);
    u32 k = std::min<u32>(t.size(), r.below(6));
    for (u32 i = 0; i < k; ++i) p->terminals.emplace_back(t[i], r.below(9), r.chance(1, 2));
    auto num = [&]() -> u64 { return r.chance(1, 3) ? r.below(10) : r.chance(1, 2) ? r.below(1ull << 40) : r.below(1ull << 62); };
    p->lower_bound = static_cast<FlowType>(num()); p->upper_bound = static_cast<FlowType>(num()); p->deleted_weight = num();
    std::ostringstream o; o << "transfer of a problem with " << k << " terminals, " << p->mappings.size() << " mappings, " << p->graph->n() << " vertices of " << s.g.str();
    c.note(o.str()); c.eval();
    auto arcs = [](const mutableGraphPtr& H) {
        std::vector<std::tuple<u32, u32, u64> > a;
        for (NodeID v : H->nodes()) for (EdgeID e : H->edges_of(v)) a.emplace_back(v, H->getEdgeTarget(v, e), H->getEdgeWeight(v, e));
        std::sort(a.begin(), a.end()); return a;
    };
    auto before = arcs(p->graph);
    mpi_communication a; a.sendProblem(p, 1);
    my_rank = 1;
    mpi_communication b; auto q = b.recvProblem(0);
    my_rank = 0;
    c.check(arcs(p->graph) == before, "sender-changed", "");
    c.eq("lower bound", q->lower_bound, p->lower_bound); c.eq("upper bound", q->upper_bound, p->upper_bound); c.eq("deleted weight", q->deleted_weight, p->deleted_weight);
    if (c.eq("terminals", q->terminals.size(), p->terminals.size()))
        for (u32 i = 0; i < k; ++i) { c.eq("terminal position", q->terminals[i].position, p->terminals[i].position); c.eq("terminal id", q->terminals[i].original_id, p->terminals[i].original_id); }
    if (c.eq("mappings", q->mappings.size(), p->mappings.size())) for (u32 i = 0; i < p->mappings.size(); ++i) c.check(*q->mappings[i] == *p->mappings[i], "mapping", std::to_string(i));
    for (u32 v = 0; v < s.g.n; ++v) c.eq("mapped vertex", q->graph->getCurrentPosition(q->mapped(v)), p->graph->getCurrentPosition(p->mapped(v)));
    c.eq("vertices", q->graph->n(), p->graph->n());
    c.check(arcs(q->graph) == before, "graph", "the graph received is not the graph sent");
    for (NodeID v : q->graph->nodes()) for (EdgeID e : q->graph->edges_of(v)) {
        NodeID w = q->graph->getEdgeTarget(v, e); EdgeID f = q->graph->getReverseEdge(v, e);
        if (!c.check(f < q->graph->get_first_invalid_edge(w) && q->graph->getEdgeTarget(w, f) == v, "reverse edge", "")) return;
    }
    c.count("problems sent and received");
    c.nontrivial(mix(s.g.hash(), hash_str(o.str())));
}

void distributed(Ctx& c, const std::string& size) {
    Rng& r = c.rng;
    Setup s = size == "small" ? make_setup(c, 4, 13, 4) : make_setup(c, 12, 40, 6);
    auto cfg = fresh_config();
    u64 seed = r.below(1000000);
    cfg->seed = seed; random_functions::setSeed(seed);
    auto G = to_mg(s.g);
    multiterminal_cut mc;
    choose_terminals(c, s, G, mc, cfg);
    cfg->write_solution = true;
    cfg->threads = 1;
    cfg->queue_type = queues[r.below(8)];
    cfg->disable_cpu_affinity = true;
    int ranks = 2 + r.below(MAXR - 1);
    std::ostringstream o;
    o << ranks << " processes k=" << s.k << " terminals by " << s.how << map_str(s.map) << " thr=" << cfg->threads << " q=" << cfg->queue_type << " seed=" << seed << " " << s.g.str();
    c.note(o.str());
    if (s.k < 2) return;
    u32 free = 0; for (u32 v = 0; v < s.g.n; ++v) free += s.map[v] == ~0u;
    if (free > (s.k > 3 ? 10u : 14u) && s.g.e.size() > 2 * s.g.n) return c.count("left out: dense");
    MultiwayOracle M(s.g, s.map, s.k, size == "small" ? 400000 : 4000);
    if (!M.run()) return c.count("oracle gave up");
    u64 opt = M.best;
    new_world(ranks);
    u64 dseed = r.next(); int den = r.chance(1, 4) ? 0 : 1 << r.below(6);
    fflush(R().out);
    auto body = [&](int rank) {
        my_rank = rank; delay_state = dseed + static_cast<u64>(rank) * 77777; delay_den = den;
        random_functions::setSeed(static_cast<int>(seed) + rank);
        auto dir = "rank" + std::to_string(rank); mkdir(dir.c_str(), 0700);
        if (chdir(dir.c_str())) broken("chdir");
        unlink("solution");
        u64 got = mc.multicut(G, std::vector<NodeID>(s.map.begin(), s.map.end()), s.k);
        auto sol = read_solution("solution");
        if (chdir("..")) broken("chdir");
        Lock l;
        S->value[rank] = got; S->sol_n[rank] = static_cast<u32>(sol.size()); S->sol_off[rank] = alloc(4 * sol.size() + 4);
        if (!sol.empty()) memcpy(S->arena + S->sol_off[rank], sol.data(), 4 * sol.size());
        S->done[rank] = 1;
    };
    for (int i = 1; i < ranks; ++i) {
        pid_t p = fork();
        if (p < 0) { perror("fork"); _exit(2); }
        if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_IGN); body(i); _exit(0); }
        kids[i] = p;
    }
    child() = kids[1];
    body(0);
    for (int i = 1; i < ranks; ++i) if (kids[i]) { int st; waitpid(kids[i], &st, 0); kids[i] = 0; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) broken("another process ended abnormally"); }
    child() = 0; delay_den = 0;
    c.eval();
    for (int i = 0; i < ranks; ++i) {
        std::string who = " in process " + std::to_string(i) + " of " + std::to_string(ranks);
        if (!c.check(S->done[i], "not-done", who)) return;
        c.eq("optimum", S->value[i], opt, who);
        std::vector<u32> sol(S->sol_n[i]); if (!sol.empty()) memcpy(sol.data(), S->arena + S->sol_off[i], 4 * sol.size());
        if (!c.eq("solution-size", sol.size(), static_cast<size_t>(s.g.n), who)) return;
        u64 w = 0;
        for (u32 v = 0; v < s.g.n; ++v) if (!c.check(sol[v] < s.k && (s.map[v] == ~0u || sol[v] == s.map[v]), "solution-terminal", "vertex " + std::to_string(v) + who)) return;
        for (auto& x : s.g.e) if (sol[x.u] != sol[x.v]) w += x.w;
        c.eq("solution-weight", w, S->value[i], who);
    }
    c.count("messages", S->sent); c.count("problems sent", S->problems); c.count("bounds sent", S->solutions); c.count("requests and answers", S->asked);
    c.count("processes", ranks);
    if (S->problems) c.count("runs in which problems moved");
    if (problems_of(s.g, s.map)) c.nontrivial(mix(mix(s.g.hash(), hash_str(map_str(s.map))), static_cast<u64>(ranks)));
    c.sample(o.str().substr(0, 300));
}

void mpi_case(Ctx& c) {
    silence();
    if (c.mode == "transfer") return transfer(c);
    auto p = c.mode.find(':');
    distributed(c, c.mode.substr(p + 1));
}
}  // namespace
int main(int argc, char** argv) { return run_main(argc, argv, mpi_case); }
