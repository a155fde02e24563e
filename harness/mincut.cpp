// Global minimum cut algorithms against exact oracles.
// mode = <what>:<size>
//   what: exact (values of the exact algorithms), heur (values of the
//         heuristics), save (the stored bipartition of every algorithm),
//         det (same seed, same answer; the input graph is left as it was)
//   size: small (all cuts enumerated), mid (Stoer-Wagner), big (> 10000
//         vertices with a certified minimum cut), large (weights > 2^32)
#include "algorithms/global_mincut/algorithms.h"
#include "vc.hpp"
using namespace vf;

struct Alg { const char* name; bool exact, exactIfSmall, needsSave; };

#ifdef PARALLEL
static const std::vector<std::string> EXACT = {"exact", "exact", "cactus"};
static const std::vector<std::string> HEUR = {"inexact"};
#else
static const std::vector<std::string> EXACT = {"noi", "noi", "cactus"};
static const std::vector<std::string> HEUR = {"vc", "matula", "pr", "ks"};
#endif

// dense blocks (circulants of connectivity d) joined by few edges: a minimum
// cut either splits a block (>= d) or is a cut of the quotient
static Graph planted(Rng& r, u32 want, u64* lambda, bool* few) {
    u32 k = 2 + r.below(r.chance(1, 2) ? 5 : 40);
    u32 s = want / k + 1, deg = 2 + r.below(3);    // block connectivity 2*deg
    GB b; b.n = k * s;
    std::vector<u32> p(s);
    for (u32 i = 0; i < k; ++i) {
        std::iota(p.begin(), p.end(), 0u);
        r.shuffle(p);
        for (u32 c = 0; c < deg; ++c) {
            // a Hamiltonian cycle contributes 2 to every cut of the block
            if (c) r.shuffle(p);
            for (u32 j = 0; j < s; ++j) {
                u32 x = i * s + p[j], y = i * s + p[(j + 1) % s];
                if (!b.add(x, y)) b.m[{std::min(x, y), std::max(x, y)}] += 1;
            }
        }
    }
    Graph q; q.n = k;
    auto join = [&](u32 x, u32 y, u64 w) {
        while (w) {
            u32 a = x * s + r.below(s), c = y * s + r.below(s);
            if (!b.add(a, c)) b.m[{std::min(a, c), std::max(a, c)}] += 1;
            --w;
        }
    };
    bool ring = r.chance(1, 2) && k > 2;
    u64 tot = 1 + r.below(2 * deg + 1);
    for (u32 i = ring ? 0 : 1; i < k; ++i) {
        u32 o = ring ? (i + 1) % k : r.below(i);
        u64 w = tot + r.below(3);
        join(i, o, w);
        q.e.push_back({i, o, w});
    }
    Graph g = b.get("planted");
    // degrees can also be a minimum cut; every cut that splits a block has >= 2*deg
    u64 lq = stoer_wagner(normalise(q));
    u64 md = ~0ull;
    { std::vector<u64> d(g.n, 0); for (auto& e : g.e) { d[e.u] += e.w; d[e.v] += e.w; } for (u64 x : d) md = std::min(md, x); }
    if (lq <= 2 * deg) *lambda = lq;
    else if (md <= 2 * deg) *lambda = md;      // == 2*deg
    else *lambda = ~0ull;
    *few = lq < 2 * deg && lq < md;     // only cuts between blocks are minimum
    return g;
}

// many small dense blocks, a few loose vertices and random edges between them
static Graph patchwork(Rng& r, u32 want) {
    GB b; std::vector<u32> first;
    u32 lo = 3 + r.below(4), hi = lo + r.below(6), c = 1 + r.below(3);
    while (b.n < want) {
        u32 s = lo + r.below(hi - lo + 1), o = b.n; first.push_back(o);
        b.n += s;
        for (u32 i = 0; i < s; ++i) for (u32 j = 0; j < i; ++j) if (r.chance(9, 10) || j + 1 == i) b.add(o + i, o + j, 1 + r.below(3));
    }
    u32 k = first.size();
    first.push_back(b.n);
    auto any = [&](u32 i) { return first[i] + r.below(first[i + 1] - first[i]); };
    for (u32 i = 0; i < k; ++i) for (u32 t = 0; t < c; ++t) {
        u32 x = any(i), y = any(r.chance(1, 2) ? (i + 1) % k : r.below(k));
        if (!b.add(x, y)) { if (x != y) b.m[{std::min(x, y), std::max(x, y)}] += 1; }
    }
    Graph g = b.get("patchwork");
    connect(g, r, 1 + r.below(3));
    return g;
}

template <class GP> GP make(const Graph& g);
template <> graphAccessPtr make<graphAccessPtr>(const Graph& g) { return to_ga(g); }
template <> mutableGraphPtr make<mutableGraphPtr>(const Graph& g) { return to_mg(g); }
static Graph back(const graphAccessPtr& G) { return from_ga(G); }
static Graph back(const mutableGraphPtr& G) { return from_mg(G); }

template <class GP> struct Sel {
    static minimum_cut* get(const std::string& a) { return selectMincutAlgorithm<GP>(a); }
};

template <class GP>
static void run(Ctx& c, const Graph& g, u64 lambda, const std::string& what, const std::string& size, bool few) {
    auto cfg = fresh_config();
    Rng& r = c.rng;
    std::string alg;
    bool cert = lambda != ~0ull;
    if (what == "exact") alg = r.pick(EXACT);
    else if (what == "heur") alg = r.pick(HEUR);
    else alg = r.chance(1, 2) ? r.pick(EXACT) : r.pick(HEUR);
    // its recursion depth is the number of vertices that minimum cuts tell apart
    if ((size == "big" || size == "huge") && alg == "cactus" && !few) alg = EXACT[0];
    bool ga = std::is_same<GP, graphAccessPtr>::value;
    // documented for simple graphs; the recursion needs three vertices and a connected graph
    if (alg == "ks" && (!ga || g.n < 3 || !g.connected())) alg = "vc";
    bool exact = alg == "noi" || alg == "exact" || alg == "cactus";
    cfg->save_cut = what == "save" ? true : r.chance(1, 3);
    cfg->disable_limiting = r.chance(1, 4);
    cfg->find_most_balanced_cut = false;
    u64 maxw = 0; for (auto& e : g.e) maxw = std::max(maxw, e.w);
    const char* pqs[] = {"default", "bqueue", "heap", "bstack"};
    cfg->pq = pqs[r.below(4)];
    u64 maxdeg = 0; { std::vector<u64> d(g.n, 0); for (auto& e : g.e) { d[e.u] += e.w; d[e.v] += e.w; } for (u64 x : d) maxdeg = std::max(maxdeg, x); }
    // bucket queues take memory proportional to the largest key
    if (maxdeg > 2000000) { cfg->pq = r.chance(1, 2) ? "default" : "heap"; }
    const char* es[] = {"random", "heavy", "heavy_weighted", "heavy_vertex"};
    cfg->edge_selection = es[r.below(4)];
    const char* ctx = exact ? "exact" : "heur"; (void)ctx;
    int seed = r.below(1000000);
#ifdef PARALLEL
    int thr = 1 + r.below(8);
    omp_set_num_threads(thr);
    cfg->threads = thr;
#else
    int thr = 1;
#endif
    std::ostringstream nt;
    nt << alg << (ga ? " graph_access" : " mutable") << " pq=" << cfg->pq << (cfg->disable_limiting ? " unlimited" : "")
       << (cfg->save_cut ? " save" : "") << " es=" << cfg->edge_selection << " thr=" << thr << " seed=" << seed << " " << g.str(60);
    c.note(nt.str());
    cfg->seed = seed;
    int reps = what == "det" ? 2 : 1;
    u64 first = 0; std::vector<char> first_side;
    for (int rep = 0; rep < reps; ++rep) {
        random_functions::setSeed(seed);
        auto G = make<GP>(g);
        std::unique_ptr<minimum_cut> mc(Sel<GP>::get(alg));
        u64 got = mc->perform_minimum_cut(G);
        c.eval();
        c.count("runs:" + alg);
        c.distinct("configs", hash_str(alg + cfg->pq + cfg->edge_selection) * 4 + cfg->disable_limiting * 2 + cfg->save_cut + 1000 * thr);
        std::string tag = what + ":" + alg;
        if (exact) {
            if (cert) c.eq("wrong-value:" + alg, got, lambda, nt.str());
        } else if (cert) {
            c.check(got >= lambda, "below-minimum:" + alg, "value " + std::to_string(got) + " is below the minimum cut " + std::to_string(lambda) + "; " + nt.str());
            if (got == lambda) c.count("heuristic optimal:" + alg); else c.count("heuristic not optimal:" + alg);
            if (alg == "matula" && g.connected())
                c.check(got <= 2 * lambda + 2, "matula-bound", "value " + std::to_string(got) + " exceeds twice the minimum cut " + std::to_string(lambda));
            u64 md = ~0ull; { std::vector<u64> d(g.n, 0); for (auto& e : g.e) { d[e.u] += e.w; d[e.v] += e.w; } for (u64 x : d) md = std::min(md, x); }
            if (alg != "ks") c.check(got <= md, "above-min-degree:" + alg, "value " + std::to_string(got) + " above the minimum degree " + std::to_string(md));
        }
        if (what == "heur" && !exact && size == "small") {
            // the value has to be the weight of some cut
            static thread_local u64 lasth = 0; static thread_local std::set<u64> vals;
            if (lasth != g.hash()) { lasth = g.hash(); vals.clear(); all_cuts(g, [&](u64, u64 w) { vals.insert(w); }); }
            c.check(vals.count(got), "not-a-cut:" + alg, "no cut of this graph has weight " + std::to_string(got) + "; " + nt.str());
        }
        std::vector<char> side(g.n, 0);
        if (cfg->save_cut && (what == "save" || what == "det")) {
            u32 ones = 0;
            for (u32 v = 0; v < g.n; ++v) { side[v] = G->getNodeInCut(v) ? 1 : 0; ones += side[v]; }
            c.check(ones > 0 && ones < g.n, "cut-improper:" + alg, "all vertices on one side; " + nt.str());
            // the cut function reports value and bipartition of the same cut
            {
                u64 w = cut_weight(g, side);
                c.check(w == got, "cut-weight:" + alg, "stored bipartition has weight " + std::to_string(w) + ", reported " + std::to_string(got) + "; " + nt.str());
            }
            if (alg != "ks" && alg != "cactus")
                for (u32 v = 0; v < g.n; ++v)
                    if (G->getPartitionIndex(v) != (side[v] ? 0u : 1u)) { c.fail("partition-index:" + alg, "partition index of vertex " + std::to_string(v) + " does not match its side"); break; }
            c.count("bipartitions checked");
        }
        if (what == "det") {
            auto b = back(G);
            c.check(b.n == g.n && sorted_edges(b) == sorted_edges(g), "input-modified:" + alg, "the input graph changed; " + nt.str());
            if (rep == 0) { first = got; first_side = side; }
            else {
                c.eq("not-deterministic:" + alg, got, first, nt.str());
                c.check(side == first_side, "cut-not-deterministic:" + alg, nt.str());
            }
        }
    }
    if (g.e.size() > 1) c.nontrivial(mix(g.hash(), hash_str(alg + cfg->pq)));
    if (cert) c.distinct("minimum cut values", lambda);
    c.sample(nt.str().substr(0, 300));
}

static void one(Ctx& c) {
    silence();
    std::string what = c.mode.substr(0, c.mode.find(':')), size = c.mode.substr(c.mode.find(':') + 1);
    Rng& r = c.rng;
    Graph g; u64 lambda = ~0ull; bool few = true;
    if (size == "small") {
        GenOpts o; o.nmin = 2; o.nmax = c.thorough ? 14 : 12; o.connected = !r.chance(1, 12);
        g = gen_graph(r, o);
        lambda = brute_mincuts(g).value;
    } else if (size == "mid") {
        GenOpts o; o.nmin = 10; o.nmax = r.chance(1, 3) ? 220 : 80; o.connected = !r.chance(1, 12);
        g = gen_graph(r, o);
        lambda = stoer_wagner(g);
        if (lambda != ma_mincut(g)) throw std::logic_error("the two oracles disagree");
    } else if (size == "large") {
        GenOpts o; o.nmin = 3; o.nmax = 40; o.large = true;
        g = gen_graph(r, o);
        u64 base = 1ull << (20 + r.below(20));
        for (auto& e : g.e) if (e.w < base) e.w = base + r.below(base);
        lambda = stoer_wagner(g);
    } else if (size == "huge") {
        g = gen_huge(r, true);
        lambda = ma_mincut(g); few = false;
    } else {
        if (r.chance(1, 2)) g = planted(r, 10001 + r.below(3000), &lambda, &few);
        else {
            g = r.chance(3, 4) ? patchwork(r, 10001 + r.below(3000)) : gen_gnm(r, 10001 + r.below(2000), 30000 + r.below(30000));
            if (g.desc == "gnm") connect(g, r, 1 + r.below(2));
            few = false;
        }
        u64 l2 = ma_mincut(g);
        if (lambda != ~0ull && l2 != lambda) throw std::logic_error("the two oracles disagree");
        lambda = l2;
        if (r.chance(1, 2)) g = relabel(g, r);
    }
    if (r.chance(1, 2)) run<graphAccessPtr>(c, g, lambda, what, size, few);
    else run<mutableGraphPtr>(c, g, lambda, what, size, few);
}
int main(int argc, char** argv) { return run_main(argc, argv, one); }
