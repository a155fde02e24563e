// Multiterminal cut: T01 (optimal), T02 (options, threads), T04 (inexact,
// local search), against an independent branch and bound over assignments.
#include "multiway.hpp"
#include "vc.hpp"

#include <atomic>

#include "algorithms/multicut/multiterminal_cut.h"

#include <sys/time.h>

using namespace vf;

// The clock of VieCut's timers, which injects the time limit: from a chosen
// reading on, every reading is two seconds after the one before.
static std::atomic<i64> g_reads{0}, g_limit{-1};
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
    timespec t; clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
    i64 n = g_reads++, l = g_limit;
    if (l >= 0) { tv->tv_sec = 1000000 + std::max<i64>(0, n - l) * 2; tv->tv_usec = 0; }
    return 0;
}

namespace {
struct Setup {
    Graph g;
    std::vector<u32> map;     // vertex -> terminal or ~0u
    u32 k = 0;
    std::string how;
};

// terminals: single vertices or areas around them; possibly all the ways the
// program offers to choose them
Setup make_setup(Ctx& c, u32 nmin, u32 nmax, u32 kmax) {
    Setup s; Rng& r = c.rng;
    GenOpts o; o.nmin = nmin; o.nmax = nmax; o.large = true; o.connected = !r.chance(1, 8);
    s.g = gen_graph(r, o);
    s.g = normalise(s.g);
    u64 tot = 0;
    for (auto& x : s.g.e) tot += x.w;
    if (r.chance(1, 6) && tot < (1ull << 40)) for (auto& x : s.g.e) x.w *= 65536;   // multiples of 2^16
    while (tot >> 56) { tot = 0; for (auto& x : s.g.e) { x.w = x.w / 16 + 1; tot += x.w; } }
    s.k = 2 + r.below(std::min(kmax - 1, s.g.n - 1));
    return s;
}

std::string map_str(const std::vector<u32>& m) {
    std::ostringstream o;
    for (u32 i = 0; i < m.size(); ++i) if (m[i] != ~0u) o << " " << i << ">" << m[i];
    return o.str();
}

// components in which a problem with several terminals exists: how many
u32 problems_of(const Graph& g, const std::vector<u32>& map) {
    u32 k; auto c = g.components(&k);
    std::vector<std::set<u32> > t(k);
    for (u32 v = 0; v < g.n; ++v) if (map[v] != ~0u) t[c[v]].insert(map[v]);
    u32 r = 0; for (auto& x : t) r += x.size() > 1;
    return r;
}

void choose_terminals(Ctx& c, Setup& s, mutableGraphPtr G, multiterminal_cut& mc, configuration* cfg) {
    Rng& r = c.rng;
    cfg->bfs_size = r.chance(1, 4) ? 1 + r.below(std::max(1u, s.g.n / s.k)) : 0;
    if (r.chance(1, 8)) cfg->preset_percentage = 5 + r.below(60);
    std::vector<NodeID> m;
    switch (r.below(8)) {
    case 0: cfg->top_k = s.k; s.how = "top_k"; m = mc.setOriginalTerminals(G); break;
    case 1: cfg->distant_terminals = s.k; s.how = "distant"; m = mc.setOriginalTerminals(G); break;
    case 2: cfg->random_k = s.k; s.how = "random_k"; m = mc.setOriginalTerminals(G); break;
    case 3: case 4: {
        s.how = "areas";
        // every vertex fixed with some probability, as from a partition file
        m.assign(s.g.n, UNDEFINED_NODE);
        std::vector<u32> p(s.g.n); std::iota(p.begin(), p.end(), 0u); r.shuffle(p);
        for (u32 i = 0; i < s.k; ++i) m[p[i]] = i;
        u32 den = 2 + r.below(6);
        for (u32 i = s.k; i < s.g.n; ++i) if (r.chance(1, den)) m[p[i]] = r.below(s.k);
        cfg->num_terminals = s.k;
        break;
    }
    default: {
        s.how = "ids";
        std::vector<u32> p(s.g.n); std::iota(p.begin(), p.end(), 0u); r.shuffle(p);
        for (u32 i = 0; i < s.k; ++i) cfg->term_strings.push_back(std::to_string(p[i]));
        m = mc.setOriginalTerminals(G);
    }
    }
    s.map.assign(m.begin(), m.end());
    s.k = cfg->num_terminals;
    if (cfg->bfs_size > 1) s.how += "/bfs" + std::to_string(cfg->bfs_size);
}

std::vector<u32> read_solution(const std::string& f) {
    std::vector<u32> r; std::ifstream in(f); u32 x;
    while (in >> x) r.push_back(x);
    return r;
}

const char* queues[] = {"bound_sum", "small_graph", "few_terminals", "upper_bound", "lower_bound", "bigger_distance", "lower_distance", "most_deleted"};
const char* edges[] = {"heavy_vertex", "random", "heavy", "heavy_global", "connection", "distance"};

void solve_case(Ctx& c, const std::string& what, const std::string& size) {
    Rng& r = c.rng;
    bool limit = what == "limit", inexact = what == "inexact" || (limit && r.chance(1, 3)), vary = what == "vary" || (limit && r.chance(1, 2));
    Setup s;
    if (size == "small") s = make_setup(c, 3, 13, 4);
    else if (size == "mid") s = make_setup(c, 12, 40, 6);
    else s = make_setup(c, 60, 400, 3);
    auto cfg = fresh_config();
    u64 seed = r.below(1000000);
    cfg->seed = seed; random_functions::setSeed(seed);
    auto G = to_mg(s.g);
    multiterminal_cut mc;
    choose_terminals(c, s, G, mc, cfg);
    cfg->write_solution = true;
    if (vary) {
        cfg->threads = r.chance(1, 3) ? 1 : 2 + r.below(5);
        cfg->queue_type = queues[r.below(8)];
        cfg->edge_selection = edges[r.below(6)];
        cfg->random_flows = r.below(3) ? 5 : r.below(12);
        cfg->high_distance_flows = r.below(3) ? 5 : r.below(12);
        cfg->high_distance_factor = r.chance(1, 3) ? r.unit() : 0.9;
        cfg->neighborhood_degrees = r.chance(1, 2) ? 50 : 2 + r.below(100);
        cfg->disable_cpu_affinity = !r.chance(1, 4);
    }
    if (inexact) {
        cfg->inexact = true;
        cfg->removeTerminalsBeforeBranch = r.chance(1, 3) ? r.unit() : 0.1;
        cfg->contractionDepthAroundTerminal = r.below(4);
        cfg->maximumBranchingFactor = 1 + r.below(6);
        cfg->threads = r.chance(2, 3) ? 1 : 2 + r.below(3);
    }
    i64 stop = -1;
    if (limit) { cfg->timeoutSeconds = 1; stop = r.chance(1, 8) ? 0 : r.chance(1, 2) ? r.below(12) : r.below(1u << r.below(10)); }
    std::ostringstream o;
    if (limit) o << "time limit after " << stop << " readings of the clock: ";
    o << what << " k=" << s.k << " terminals by " << s.how << map_str(s.map) << " thr=" << cfg->threads << " q=" << cfg->queue_type
      << (cfg->multibranch ? "" : " single ") << (cfg->multibranch ? "" : cfg->edge_selection) << " rf=" << cfg->random_flows << " hf=" << cfg->high_distance_flows
      << " hd=" << cfg->high_distance_factor << (inexact ? " inexact l=" + std::to_string(cfg->removeTerminalsBeforeBranch) + " c=" + std::to_string(cfg->contractionDepthAroundTerminal)
      + " bf=" + std::to_string(cfg->maximumBranchingFactor) : "") << " seed=" << seed << " " << s.g.str();
    c.note(o.str());
    // every terminal has to be present exactly as chosen
    std::set<u32> present;
    for (u32 v = 0; v < s.g.n; ++v) if (s.map[v] != ~0u) {
        if (!c.check(s.map[v] < s.k, "terminal-id", "vertex mapped to a terminal that does not exist")) return;
        present.insert(s.map[v]);
    }
    if (s.k < 2) return;
    // oracle
    u64 opt = 0; bool known = true;
    if (s.k == 2) {
        Dinic D(s.g.n + 2);
        for (auto& x : s.g.e) D.und(x.u, x.v, x.w);
        bool both = present.size() == 2;
        for (u32 v = 0; v < s.g.n; ++v) if (s.map[v] != ~0u) D.und(v, s.g.n + s.map[v], 1ull << 60);
        opt = both ? D.run(s.g.n, s.g.n + 1) : 0;
        c.count("oracle flow");
    } else {
        u32 free = 0;
        for (u32 v = 0; v < s.g.n; ++v) free += s.map[v] == ~0u;
        if (free > (s.k > 3 ? 10u : 14u) && s.g.e.size() > 2 * s.g.n) return c.count("left out: dense");
        MultiwayOracle M(s.g, s.map, s.k, size == "small" ? 400000 : 4000);
        known = M.run(); opt = M.best;
        c.count(known ? "oracle complete" : "oracle gave up");
        // the problem is NP-hard: what the oracle can not solve quickly is left out
        if (!known) return;
    }
    unlink("solution");
    auto before = sorted_edges(s.g);
    g_reads = 0; g_limit = stop;
    u64 got = mc.multicut(G, std::vector<NodeID>(s.map.begin(), s.map.end()), s.k);
    i64 reads = g_reads; g_limit = -1;
    bool reached = limit && reads > stop + 1;
    if (limit) c.count(reached ? "time limit reached" : "ended before the time limit");
    c.eval();
    auto sol = read_solution("solution");
    if (c.check(sol.size() == s.g.n, "solution-size", std::to_string(sol.size()) + " entries")) {
        u64 w = 0; bool ok = true;
        for (u32 v = 0; v < s.g.n && ok; ++v) {
            ok = c.check(sol[v] < s.k, "solution-block", "vertex " + std::to_string(v) + " in block " + std::to_string(sol[v])) &&
                 c.check(s.map[v] == ~0u || sol[v] == s.map[v], "solution-terminal", "vertex " + std::to_string(v) + " of terminal " + std::to_string(s.map[v]) + " is in block " + std::to_string(sol[v]));
        }
        for (auto& x : s.g.e) if (sol[x.u] != sol[x.v]) w += x.w;
        if (ok) c.eq("solution-weight", got, w, "returned value and weight of the written solution");
    }
    if (r.chance(1, 4)) c.check(sorted_edges(from_mg(G)) == before, "input-changed", "the input graph is not what it was");
    if (known) {
        if (reached) {
            c.check(got >= opt, "below-optimum", std::to_string(got) + " < " + std::to_string(opt));
            // the search starts with the isolating cuts of all terminals but one
            c.check(got <= 2 * opt, "above-first-solution", std::to_string(got) + " > 2 * " + std::to_string(opt));
            c.count(got == opt ? "limited optimal" : "limited above optimum");
        } else if (inexact) {
            c.check(got >= opt, "below-optimum", std::to_string(got) + " < " + std::to_string(opt));
            c.count(got == opt ? "inexact optimal" : "inexact above optimum");
        } else {
            c.eq("optimum", got, opt);
        }
    }
    u32 np = problems_of(s.g, s.map);
    c.count("components with a problem", np);
    if (np) c.nontrivial(mix(mix(s.g.hash(), hash_str(map_str(s.map))), hash_str((vary ? cfg->queue_type + std::to_string(cfg->threads) : what) + std::to_string(stop))));
    c.sample(o.str().substr(0, 300));
}

void ls_case(Ctx& c, const std::string& size) {
    Rng& r = c.rng;
    Setup s = size == "small" ? make_setup(c, 3, 20, 5) : make_setup(c, 30, 400, 8);
    auto cfg = fresh_config();
    u64 seed = r.below(1000000);
    cfg->seed = seed; random_functions::setSeed(seed);
    cfg->num_terminals = s.k;
    cfg->inexact = r.chance(1, 3);
    std::vector<u32> p(s.g.n); std::iota(p.begin(), p.end(), 0u); r.shuffle(p);
    std::vector<NodeID> terms(p.begin(), p.begin() + s.k);
    std::vector<bool> fixed(s.g.n, false);
    std::vector<NodeID> sol(s.g.n);
    u32 style = r.below(3);
    for (auto& x : sol) x = style == 0 ? r.below(s.k) : style == 1 ? 0 : r.chance(1, 8) ? r.below(s.k) : 0;
    if (style == 2 && r.chance(1, 2)) {
        // grown from the terminals
        std::vector<u32> q; std::vector<char> seen(s.g.n, 0);
        for (u32 i = 0; i < s.k; ++i) { sol[terms[i]] = i; seen[terms[i]] = 1; q.push_back(terms[i]); }
        auto a = s.g.adj();
        for (size_t i = 0; i < q.size(); ++i) for (auto& [t, w] : a[q[i]]) if (!seen[t]) { seen[t] = 1; sol[t] = sol[q[i]]; q.push_back(t); }
    }
    for (u32 i = 0; i < s.k; ++i) { sol[terms[i]] = i; fixed[terms[i]] = true; }
    if (r.chance(1, 3)) for (u32 v = 0; v < s.g.n; ++v) if (r.chance(1, 5)) fixed[v] = true;
    auto before = sol;
    std::ostringstream o;
    o << "local search k=" << s.k << (cfg->inexact ? " inexact" : "") << " seed=" << seed << " solution";
    for (u32 v = 0; v < s.g.n && s.g.n < 50; ++v) o << " " << sol[v] << (fixed[v] ? "!" : "");
    o << " " << s.g.str();
    c.note(o.str());
    auto G = to_mg(s.g);
    auto cost = [&](const std::vector<NodeID>& a) { u64 w = 0; for (auto& x : s.g.e) if (a[x.u] != a[x.v]) w += x.w; return w; };
    u64 w0 = cost(sol);
    local_search ls(*G, terms, fixed, &sol);
    timer t;
    i64 imp = ls.improveSolution(t);
    c.eval();
    u64 w1 = cost(sol);
    c.check(sol.size() == s.g.n, "ls-size", "");
    for (u32 v = 0; v < s.g.n; ++v) {
        if (!c.check(sol[v] < s.k, "ls-block", "vertex " + std::to_string(v) + " in block " + std::to_string(sol[v]))) return;
        if (fixed[v] && !c.check(sol[v] == before[v], "ls-fixed-moved", "fixed vertex " + std::to_string(v) + " was moved")) return;
    }
    c.check(w1 <= w0, "ls-worse", "from " + std::to_string(w0) + " to " + std::to_string(w1));
    c.eq("ls-improvement", imp, static_cast<i64>(w0) - static_cast<i64>(w1), "from " + std::to_string(w0) + " to " + std::to_string(w1));
    c.count(w1 < w0 ? "local search improved" : "local search found nothing");
    if (w1 < w0) c.nontrivial(mix(s.g.hash(), hash_str(o.str())));
}

void run_case(Ctx& c) {
    silence();
    auto p = c.mode.find(':');
    std::string what = c.mode.substr(0, p), size = c.mode.substr(p + 1);
    if (what == "ls") ls_case(c, size);
    else solve_case(c, what, size);
}
}  // namespace
#ifndef VF_NO_MAIN
int main(int argc, char** argv) { return run_main(argc, argv, run_case); }
#endif
