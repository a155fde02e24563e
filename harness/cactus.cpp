// The cactus of all minimum cuts and the best balanced / lowest conductance
// cut taken from it.
// mode = <what>:<size>   what: all | best     size: small | mid | rich | big
#include "algorithms/global_mincut/algorithms.h"
#ifdef PARALLEL
#include "parallel/algorithm/parallel_cactus.h"
#else
#include "algorithms/global_mincut/cactus/cactus_mincut.h"
#endif
#include "cactus.hpp"
using namespace vf;

template <class GP> GP make(const Graph& g);
template <> graphAccessPtr make<graphAccessPtr>(const Graph& g) { return to_ga(g); }
template <> mutableGraphPtr make<mutableGraphPtr>(const Graph& g) { return to_mg(g); }
#ifdef PARALLEL
template <class GP> using Algo = parallel_cactus<GP>;
#else
template <class GP> using Algo = cactus_mincut<GP>;
#endif

static std::string show(const Bits& b, u32 n) {
    std::string s = "{"; u32 k = 0;
    for (u32 i = 0; i < n && k < 20; ++i) if (bit(b, i)) { s += (k++ ? " " : "") + std::to_string(i); }
    return s + "}";
}

// blows every vertex of g up into a block that no minimum cut can split
static Graph blow(Rng& r, const Graph& g, u32 want, u64 lambda, std::vector<u32>& of) {
    GB b; std::vector<std::vector<u32> > mem(g.n);
    u32 per = want / g.n + 1;
    for (u32 v = 0; v < g.n; ++v) {
        u32 s = r.chance(1, 3) ? 1 : 2 + r.below(2 * per);
        for (u32 i = 0; i < s; ++i) { mem[v].push_back(b.n++); of.push_back(v); }
        if (s == 2) b.add(mem[v][0], mem[v][1], lambda + 1 + r.below(4));
        else for (u32 i = 0; i < s && s > 1; ++i) b.add(mem[v][i], mem[v][(i + 1) % s], lambda / 2 + 1 + r.below(4));
        for (u32 i = 0; i < s; ++i) b.add(mem[v][r.below(s)], mem[v][r.below(s)], 1 + r.below(3));
    }
    for (auto& e : g.e) {
        u64 left = e.w; u32 parts = 0;
        while (left) {
            u64 x = r.chance(1, 2) || ++parts > 5 ? left : 1 + r.below(left);
            u32 a = r.pick(mem[e.u]), c = r.pick(mem[e.v]);
            if (!b.add(a, c, x)) b.m[{std::min(a, c), std::max(a, c)}] += x;
            left -= x;
        }
    }
    return b.get("blown(" + g.desc + ")");
}

template <class GP>
static void run(Ctx& c, const Graph& g, const AllCuts& ac, const std::string& what) {
    auto cfg = fresh_config();
    Rng& r = c.rng;
    bool ga = std::is_same<GP, graphAccessPtr>::value;
    const char* pqs[] = {"default", "bqueue", "heap", "bstack"};
    const char* es[] = {"random", "heavy", "heavy_weighted", "heavy_vertex", "central", ""};
    cfg->pq = pqs[r.below(4)];
    u64 tot = 0; for (auto& e : g.e) tot += e.w;
    if (tot > 5000000) cfg->pq = "heap";
    cfg->edge_selection = es[r.below(6)];
    cfg->disable_limiting = r.chance(1, 5);
    int thr = 1;
#ifdef PARALLEL
    thr = 1 + r.below(8);
    omp_set_num_threads(thr);
    cfg->threads = thr;
#endif
    bool best = what == "best", cond = best && r.chance(1, 2), known = r.chance(1, 5), tofile = best && r.chance(1, 4);
    cfg->save_cut = best || r.chance(1, 3);
    cfg->find_most_balanced_cut = best;
    cfg->find_lowest_conductance = cond;
    std::string cutfile = c.scratch + "/cut" + std::to_string(c.index);
    if (best) { cfg->set_node_in_cut = true; if (tofile) cfg->output_path = cutfile; }
    int seed = r.below(1000000);
    random_functions::setSeed(seed);
    cfg->seed = seed;
    std::ostringstream nt;
    nt << (ga ? "graph_access" : "mutable") << " pq=" << cfg->pq << " es=" << cfg->edge_selection << (cfg->disable_limiting ? " unlimited" : "")
       << (known ? " known" : "") << (cond ? " conductance" : "") << " thr=" << thr << " seed=" << seed << " " << g.str(80);
    c.note(nt.str());
    auto G = make<GP>(g);
    Algo<GP> alg;
    auto [mincut, C, edges] = known ? alg.findAllMincuts(G, ac.value) : alg.findAllMincuts(G);
    c.eval();
    c.eq("cactus-value", mincut, ac.value, nt.str());
    if (mincut != ac.value) return;
    auto R = read_cactus(C, g.n, ac.value);
    if (!c.check(R.bad.empty(), "cactus-shape", R.bad + "; " + nt.str())) return;
    for (auto& b : R.cuts) if (!ac.cuts.count(b)) { c.fail("cactus-extra-cut", "the cactus has the cut " + show(b, g.n) + ", which is not minimum; " + nt.str()); break; }
    for (auto& b : ac.cuts) if (!R.cuts.count(b)) { c.fail("cactus-missing-cut", "the minimum cut " + show(b, g.n) + " (one of " + std::to_string(ac.cuts.size()) + ") is missing; " + nt.str()); break; }
    c.count("minimum cuts compared", ac.cuts.size());
    c.count("cactus cycles", R.cycles); c.count("cactus tree edges", R.tree_edges); c.count("empty cactus vertices", R.empty);
    c.count("duplicate cuts in cactus", R.dup);
    c.distinct("cactus shapes", mix(mix(R.cycles, R.tree_edges), mix(R.empty, R.longest)));
    if (best) {
        u64 vol = 0; std::vector<u64> deg(g.n, 0);
        for (auto& e : g.e) { deg[e.u] += e.w; deg[e.v] += e.w; vol += 2 * e.w; }
        auto score = [&](auto in) { u64 s = 0; for (u32 v = 0; v < g.n; ++v) if (in(v)) s += cond ? deg[v] : 1; return std::min(s, (cond ? vol : g.n) - s); };
        u64 opt = 0;
        for (auto& b : ac.cuts) opt = std::max(opt, score([&](u32 v) { return bit(b, v); }));
        std::vector<char> side(g.n);
        for (u32 v = 0; v < g.n; ++v) side[v] = G->getNodeInCut(v);
        c.eq("best-not-minimum", cut_weight(g, side), ac.value, nt.str());
        c.eq(cond ? "not-lowest-conductance" : "not-most-balanced", score([&](u32 v) { return side[v]; }), opt, nt.str());
        std::set<std::pair<u32, u32> > want, got;
        for (auto& e : g.e) if (side[e.u] != side[e.v]) { want.insert({e.u, e.v}); want.insert({e.v, e.u}); }
        for (auto& [v, e] : edges) got.insert({v, G->getEdgeTarget(v, e)});
        c.check(want == got && edges.size() == want.size(), "best-edges", "the returned edges are not the edges of the returned cut; " + nt.str());
        if (tofile) {
            std::ifstream f(cutfile); std::vector<char> fs; long x;
            while (f >> x) fs.push_back(x != 0);
            c.check(fs.size() == g.n && cut_weight(g, fs) == ac.value && score([&](u32 v) { return fs[v]; }) == opt, "best-file", "the written cut is not the best minimum cut; " + nt.str());
            unlink(cutfile.c_str());
        }
        c.count(cond ? "conductance cuts checked" : "balanced cuts checked");
        if (ac.cuts.size() > 1) c.count("with a choice of minimum cuts");
    }
    if (ac.cuts.size() > 1) c.nontrivial(mix(g.hash(), hash_str(cfg->edge_selection) + ga));
    c.sample(nt.str().substr(0, 300));
}

// a few edges heavier, lighter, removed or added: cuts that are nearly minimum
// beside the minimum ones, odd values, edges of any share of the minimum cut
static Graph perturb(const Graph& g0, Rng& r) {
    GB b; b.n = g0.n;
    for (auto& e : g0.e) b.m[{std::min(e.u, e.v), std::max(e.u, e.v)}] += e.w;
    if (g0.n < 3) return g0;
    u32 k = 1 + r.below(8);
    for (u32 i = 0; i < k; ++i) {
        u32 op = r.below(4);
        if (op == 0) {
            u32 x = r.below(g0.n), y = r.below(g0.n);
            if (x != y) b.m[{std::min(x, y), std::max(x, y)}] += 1 + r.below(2);
        } else if (!b.m.empty()) {
            auto it = b.m.begin();
            std::advance(it, r.below(b.m.size()));
            if (op == 1) it->second += 1 + r.below(3);
            else if (op == 2 && it->second > 1) it->second -= 1;
            else b.m.erase(it);
        }
    }
    return b.get(g0.desc + "~");
}

// a heavy tree and light edges between its vertices: minimum cuts made of one
// tree edge and the light edges above it, next to many cuts of similar weight
static Graph gen_tree_light(Rng& r, u32 n) {
    GB b; b.n = n;
    u32 w = 2 + r.below(5), deep = r.below(3), lw = 1 + r.below(2);
    for (u32 v = 1; v < n; ++v) b.add(v, deep == 0 ? v - 1 : deep == 1 ? r.below(v) : v - 1 - r.below(std::min(v, 3u)), w);
    u32 k = 1 + r.below(n);
    for (u32 i = 0; i < k; ++i) { u32 x = r.below(n), y = r.chance(1, 2) ? r.below(n) : std::min<u32>(n - 1, x + 1 + r.below(4)); if (x != y) b.m[{std::min(x, y), std::max(x, y)}] += 1 + r.below(lw); }
    return b.get("tree-light");
}

static Graph base(Rng& r, const std::string& size, bool thorough) {
    if (size == "small") {
        GenOpts o; o.nmin = 2; o.nmax = thorough ? 14 : 12; o.connected = true;
        if (r.chance(1, 6)) return gen_tree_light(r, 5 + r.below(8));
        if (r.chance(1, 5)) { Graph g = gen_empty_cactus(r, 4 + r.below(8), 5); return r.chance(1, 2) ? perturb(g, r) : g; }
        return gen_graph(r, o);
    }
    if (size == "rich") {
        for (;;) {
            Graph g = r.chance(1, 4) ? gen_tree_light(r, 6 + r.below(40)) : r.chance(2, 3) ? gen_empty_cactus(r, 10 + r.below(thorough ? 120 : 60), 3 + r.below(r.chance(1, 4) ? 30 : 8))
                                     : gen_cactus(r, 10 + r.below(60), 1 + r.below(4), r.chance(1, 2));
            if (r.chance(1, 2)) g = perturb(g, r);
            if (g.n >= 2 && g.connected()) return g;
        }
    }
    GenOpts o; o.nmin = 10; o.nmax = r.chance(1, 4) ? 100 : 50; o.connected = true;
    return gen_graph(r, o);
}

// a kernel of more than 10^4 vertices that minimum cuts tell apart, on a
// thread with the usual 8 MB stack
static void deep(Ctx& c) {
    auto cfg = fresh_config();
    cfg->edge_selection = "random";
    u32 n = 12000;
    Rng r(1);
    GB b; b.n = n;
    std::vector<u32> p(n);
    std::iota(p.begin(), p.end(), 0u);
    for (int k = 0; k < 2; ++k) {
        r.shuffle(p);
        for (u32 i = 0; i < n; ++i) { u32 x = p[i], y = p[(i + 1) % n]; if (!b.add(x, y)) b.m[{std::min(x, y), std::max(x, y)}] += 1; }
    }
    Graph g = b.get("4-regular");
    c.note("union of two random Hamiltonian cycles, n=12000, edge selection random, stack 8 MB");
    random_functions::setSeed(1);
    u64 mincut = 0; mutableGraphPtr C;
    std::function<void()> body = [&]() {
        auto G = to_mg(g);
        Algo<mutableGraphPtr> alg;
        auto res = alg.findAllMincuts(G);
        mincut = std::get<0>(res); C = std::get<1>(res);
    };
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
    pthread_t t;
    pthread_create(&t, &at, [](void* f) -> void* { (*static_cast<std::function<void()>*>(f))(); return nullptr; }, &body);
    pthread_join(t, nullptr);
    c.eval();
    c.eq("cactus-value", mincut, ma_mincut(g));
    auto R = read_cactus(C, g.n, mincut);
    c.check(R.bad.empty(), "cactus-shape", R.bad);
}

static void one(Ctx& c) {
    silence();
    if (c.mode == "deep") return deep(c);
    std::string what = c.mode.substr(0, c.mode.find(':')), size = c.mode.substr(c.mode.find(':') + 1);
    Rng& r = c.rng;
    Graph g; AllCuts ac;
    if (size == "big") {
        Graph q = base(r, r.chance(1, 2) ? "rich" : "mid", false);
        if (q.n < 2) return;
        AllCuts qc = all_mincuts(q, 20000);
        if (qc.truncated || qc.value == 0 || qc.cuts.size() > 3000) { c.count("skipped: too many cuts"); return; }
        std::vector<u32> of;
        g = blow(r, q, 10001 + r.below(3000), qc.value, of);
        ac.value = qc.value;
        for (auto& b : qc.cuts) {
            std::vector<char> s(g.n);
            for (u32 v = 0; v < g.n; ++v) s[v] = bit(b, of[v]);
            ac.cuts.insert(canon(s));
        }
    } else {
        g = base(r, size, c.thorough);
        if (g.n < 2 || !g.connected()) { c.count("skipped"); return; }
        if (size != "small" && r.chance(1, 2)) g = relabel(g, r);
        if (size == "small") {
            // from the definition: every bipartition
            auto bc = brute_mincuts(g);
            ac.value = bc.value;
            for (u64 m : bc.masks) { std::vector<char> s(g.n); for (u32 v = 0; v < g.n; ++v) s[v] = m >> v & 1; ac.cuts.insert(canon(s)); }
        } else ac = all_mincuts(g, 20000);
        if (ac.truncated || ac.value == 0) { c.count("skipped: too many cuts"); return; }
    }
    if (r.chance(1, 2)) run<graphAccessPtr>(c, g, ac, what);
    else run<mutableGraphPtr>(c, g, ac, what);
}
int main(int argc, char** argv) { return run_main(argc, argv, one); }
