// Contraction procedures and reductions.
// mode = con:{small,large} (C01)   red:{small,mid} (R01)   spars:{small,large} (C02)
#include "algorithms/global_mincut/noi_minimum_cut.h"
#include "algorithms/global_mincut/cactus/all_cut_local_red.h"
#include "vc.hpp"
#ifdef PARALLEL
#include <omp.h>
#include "parallel/algorithm/exact_parallel_minimum_cut.h"
#include "parallel/coarsening/contract_graph.h"
#include "parallel/coarsening/contraction_tests.h"
#include "parallel/coarsening/sparsify.h"
#include "parallel/data_structure/union_find.h"
#else
#include "coarsening/contract_graph.h"
#include "coarsening/contraction_tests.h"
#include "coarsening/sparsify.h"
#include "data_structure/union_find.h"
#endif
using namespace vf;

static Graph back(const graphAccessPtr& G) { return from_ga(G); }
static Graph back(const mutableGraphPtr& G) { return from_mg(G); }
template <class GP> GP make(const Graph& g);
template <> graphAccessPtr make<graphAccessPtr>(const Graph& g) { return to_ga(g); }
template <> mutableGraphPtr make<mutableGraphPtr>(const Graph& g) { return to_mg(g); }

static Graph quotient(const Graph& g, const std::vector<u32>& id, u32 k) {
    Graph q; q.n = k;
    for (auto& e : g.e) if (id[e.u] != id[e.v]) q.e.push_back({id[e.u], id[e.v], e.w});
    return normalise(q);
}
// raw arcs of the contracted graph: every arc once in both directions, no loops
template <class GP> static std::string arcs_equal(const GP& H, const Graph& q) {
    std::ostringstream o;
    if (H->n() != q.n) { o << "contracted graph has " << H->n() << " vertices, expected " << q.n; return o.str(); }
    std::map<std::pair<u32, u32>, u64> want, got;
    for (auto& e : q.e) { want[{e.u, e.v}] = e.w; want[{e.v, e.u}] = e.w; }
    u64 arcs = 0;
    for (NodeID v : H->nodes()) for (EdgeID e : H->edges_of(v)) {
        auto [t, w] = H->getEdge(v, e);
        ++arcs;
        if (t == v) { o << "self-loop at " << v; return o.str(); }
        if (!got.emplace(std::make_pair(static_cast<u32>(v), static_cast<u32>(t)), w).second) { o << "parallel edges " << v << "-" << t; return o.str(); }
    }
    if (arcs != H->number_of_edges()) { o << "number_of_edges() " << H->number_of_edges() << ", arcs " << arcs; return o.str(); }
    for (auto& [k, w] : want) {
        auto it = got.find(k);
        if (it == got.end()) { o << "edge " << k.first << "-" << k.second << " of weight " << w << " is missing"; return o.str(); }
        if (it->second != w) { o << "edge " << k.first << "-" << k.second << " has weight " << it->second << ", expected " << w; return o.str(); }
    }
    for (auto& [k, w] : got) if (!want.count(k)) { o << "edge " << k.first << "-" << k.second << " of weight " << w << " does not exist"; return o.str(); }
    return "";
}

// a clustering: labels 0..k-1, every one used
static std::vector<u32> clustering(Rng& r, const Graph& g, u32* k, std::string* d) {
    std::vector<u32> c(g.n);
    switch (r.below(7)) {
    case 0: { u32 q = 1 + r.below(g.n); for (auto& x : c) x = r.below(q); *d = "random"; break; }
    case 1: { // connected clusters
        std::vector<u32> p(g.n); std::iota(p.begin(), p.end(), 0u);
        std::function<u32(u32)> f = [&](u32 x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
        u32 num = 1 + r.below(9);
        for (auto& e : g.e) if (r.below(10) < num) p[f(e.u)] = f(e.v);
        for (u32 v = 0; v < g.n; ++v) c[v] = f(v);
        *d = "edges"; break;
    }
    case 2: std::iota(c.begin(), c.end(), 0u); *d = "singletons"; break;
    case 3: for (auto& x : c) x = 0; *d = "one"; break;
    case 4: { // two big blocks and some rest
        u32 rest = r.below(5);
        for (u32 v = 0; v < g.n; ++v) c[v] = r.chance(1, 10) && rest ? 2 + r.below(rest) : r.below(2);
        *d = "two-big"; break;
    }
    case 5: { // few merged pairs
        std::iota(c.begin(), c.end(), 0u);
        for (u32 i = 0, m = 1 + r.below(4); i < m; ++i) c[r.below(g.n)] = c[r.below(g.n)];
        *d = "pairs"; break;
    }
    case 6: { u32 q = 2 + r.below(3); for (u32 v = 0; v < g.n; ++v) c[v] = v * static_cast<u64>(q) / g.n; *d = "ranges"; break; }
    }
    std::map<u32, u32> m; for (u32 x : c) m.emplace(x, 0);
    u32 i = 0; for (auto& [a, b] : m) b = i++;
    // the order of the new vertices is up to the caller of contractGraph
    std::vector<u32> p(i); std::iota(p.begin(), p.end(), 0u); r.shuffle(p);
    for (auto& x : c) x = p[m[x]];
    *k = i;
    return c;
}

template <class GP> static void con(Ctx& c, const Graph& g, bool small) {
    Rng& r = c.rng;
    auto cfg = fresh_config();
    cfg->save_cut = true;
    constexpr bool MG = std::is_same<GP, mutableGraphPtr>::value;
    u32 k; std::string d;
    auto cl = clustering(r, g, &k, &d);
    std::vector<std::vector<NodeID> > rev(k);
    for (u32 v = 0; v < g.n; ++v) rev[cl[v]].push_back(v);
    std::vector<NodeID> map(cl.begin(), cl.end());
    u32 threads = 1;
#ifdef PARALLEL
    u32 ts[] = {1, 2, 3, 4, 8}; threads = ts[r.below(5)];
    omp_set_num_threads(threads);
#endif
    // which procedure
    std::vector<std::string> ops = {"uf", "map", "sparse"};
    if (MG) ops.push_back("uf-inplace");
#ifdef PARALLEL
    if (!MG) { ops.push_back("mesh"); }
    else if (false) ops.push_back("nohash");
#else
    ops.push_back("trivial");
#endif
    std::string op = r.pick(ops);
    if (op == "mesh" && k > 400) op = "map";
    std::string key = op + (MG ? "/mg" : "/ga");
    c.note(key + " clustering=" + d + " k=" + std::to_string(k) + " threads=" + std::to_string(threads) + " " + g.str(200));
    c.eval();
    c.count("procedure:" + key);
    c.distinct("contractions", mix(mix(g.hash(), vf::hash_str(key)), [&] { u64 h = k; for (u32 x : cl) h = mix(h, x); return h; }()));
    if (k > 1 && k < g.n) c.nontrivial(mix(g.hash(), [&] { u64 h = k; for (u32 x : cl) h = mix(h, x); return h; }()));
    c.count("arcs merged or dropped", g.e.size());

    auto G = make<GP>(g);
    if (op == "uf" || op == "uf-inplace") {
        union_find uf(g.n);
        // union along random spanning trees of the clusters
        for (auto& m : rev) { auto q = m; r.shuffle(q); for (u32 i = 1; i < q.size(); ++i) { NodeID a = q[r.below(i)]; if (r.chance(1, 2)) uf.Union(a, q[i]); else uf.Union(q[i], a); } }
        if (!c.eq(key + "/sets", uf.n(), k, "union-find")) return;
        bool copy = op == "uf";
        auto H = contraction::fromUnionFind(G, &uf, copy);
        if (copy || !MG) {
            std::vector<u32> id(g.n);
            std::vector<u32> newid(k, ~0u); std::vector<char> used(H->n(), 0);
            for (u32 v = 0; v < g.n; ++v) {
                id[v] = G->getPartitionIndex(v);
                if (id[v] >= H->n()) { c.fail(key + "/map", "vertex " + std::to_string(v) + " is mapped to " + std::to_string(id[v]) + ", contracted graph has " + std::to_string(H->n()) + " vertices"); return; }
                if (newid[cl[v]] == ~0u) {
                    if (used[id[v]]++) { c.fail(key + "/map", "two clusters are mapped to vertex " + std::to_string(id[v])); return; }
                    newid[cl[v]] = id[v];
                } else if (newid[cl[v]] != id[v]) { c.fail(key + "/map", "vertices of one cluster are mapped to " + std::to_string(newid[cl[v]]) + " and " + std::to_string(id[v])); return; }
            }
            auto s = arcs_equal(H, quotient(g, id, k));
            c.check(s.empty(), key + "/graph", s);
            c.check(sorted_edges(back(G)) == sorted_edges(g) && G->n() == g.n, key + "/input", "the input graph was changed");
            if constexpr (MG) { s = mg_integrity(H, true); c.check(s.empty(), key + "/integrity", s); }
        } else if constexpr (MG) {
            if (!c.check(H->n() == k, key + "/graph", "in place contraction has " + std::to_string(H->n()) + " vertices, expected " + std::to_string(k))) return;
            auto s = mg_integrity(H);
            if (!c.check(s.empty(), key + "/integrity", s)) return;
            std::vector<u32> id(g.n);
            std::vector<u32> newid(k, ~0u);
            for (u32 v = 0; v < g.n; ++v) {
                id[v] = H->getCurrentPosition(v);
                if (newid[cl[v]] == ~0u) newid[cl[v]] = id[v];
                else if (newid[cl[v]] != id[v]) { c.fail(key + "/map", "vertices of one cluster in different vertices"); return; }
            }
            s = arcs_equal(H, quotient(g, id, k));
            c.check(s.empty(), key + "/graph", s);
        }
        return;
    }
    if (op == "trivial") {
#ifndef PARALLEL
        int target = static_cast<int>(std::min<u64>(g.total(), 1000000) * r.unit() + 1);
        contraction::findTrivialCuts(G, &map, &rev, target);
        // still a partition in which mapping and reverse mapping agree
        std::vector<char> seen(g.n, 0); u32 k2 = rev.size();
        for (u32 p = 0; p < k2; ++p) for (auto v : rev[p]) {
            if (v >= g.n || seen[v]++) { c.fail(key + "/partition", "vertex " + std::to_string(v) + " twice or not in the graph"); return; }
            if (map[v] != p) { c.fail(key + "/partition", "vertex " + std::to_string(v) + " is in block " + std::to_string(p) + " but mapped to " + std::to_string(map[v])); return; }
        }
        for (u32 v = 0; v < g.n; ++v) if (!seen[v]) { c.fail(key + "/partition", "vertex " + std::to_string(v) + " lost"); return; }
        for (u32 v = 0; v < g.n; ++v) for (u32 w = 0; w < v && small; ++w)
            if (map[v] == map[w] && cl[v] != cl[w]) { c.fail(key + "/merge", "vertices of different blocks merged"); return; }
        if (k2 > k) c.count("blocks split", k2 - k);
        cl.assign(map.begin(), map.end()); k = k2;
        op = "map";
#endif
    }
    GP H;
    if (op == "map") {
        H = contraction::contractGraph(G, map, rev);
        if constexpr (MG) {
            // new ids are those of the partition index if vertices were contracted one by one, the given ones otherwise
            bool given = true;
            for (u32 v = 0; v < g.n; ++v) if (G->getPartitionIndex(v) != 0) given = false;
            if (!given) {
                std::vector<u32> id(g.n); std::vector<u32> newid(k, ~0u);
                for (u32 v = 0; v < g.n; ++v) {
                    id[v] = G->getPartitionIndex(v);
                    if (id[v] >= k) { c.fail(key + "/map", "index out of range"); return; }
                    if (newid[cl[v]] == ~0u) newid[cl[v]] = id[v];
                    else if (newid[cl[v]] != id[v]) { c.fail(key + "/map", "vertices of one cluster in different vertices"); return; }
                }
                cl.assign(id.begin(), id.end());
            }
        }
    } else if (op == "sparse") {
#ifdef PARALLEL
        H = contraction::contractGraphSparse(G, map, k);
#else
        H = contraction::contractGraphSparse(G, map, rev);
#endif
    }
#ifdef PARALLEL
    else if (op == "mesh") {
        if constexpr (!MG) H = contraction::contractGraphFullMesh(G, map, k);
    }
#endif
    auto s = arcs_equal(H, quotient(g, cl, k));
    c.check(s.empty(), key + "/graph", s);
    c.check(sorted_edges(back(G)) == sorted_edges(g) && G->n() == g.n, key + "/input", "the input graph was changed");
    if constexpr (MG) { s = mg_integrity(H, true); c.check(s.empty(), key + "/integrity", s); }
}

// ------------------------------------------------------------- reductions --
// the classes of uf; every class of more than one vertex has to be connected by at least `bound`
static std::vector<u32> classes(union_find* uf, u32 n, u32* k) {
    std::vector<u32> id(n); std::map<u32, u32> m;
    for (u32 v = 0; v < n; ++v) id[v] = m.emplace(uf->Find(v), m.size()).first->second;
    *k = m.size();
    return id;
}
// "" or a cut of weight < bound (<= bound if orEqual) between two merged vertices
static std::string separated(const Graph& g, const std::vector<u32>& id, u32 k, u64 bound, bool small) {
    std::ostringstream o;
    if (small) {
        std::vector<u64> cm(k, 0);
        for (u32 v = 0; v < g.n; ++v) cm[id[v]] |= 1ull << v;
        u64 worst = ~0ull;
        all_cuts(g, [&](u64 m, u64 w) {
            if (w >= bound || w >= worst) return;
            for (u64 x : cm) if ((x & m) && (x & ~m)) { worst = w; return; }
        });
        if (worst != ~0ull) { o << "vertices separated by a cut of weight " << worst << " < " << bound << " are merged"; return o.str(); }
        return "";
    }
    std::vector<u32> first(k, ~0u);
    for (u32 v = 0; v < g.n; ++v) {
        if (first[id[v]] == ~0u) { first[id[v]] = v; continue; }
        Dinic D(g.n);
        for (auto& e : g.e) D.und(e.u, e.v, e.w);
        u64 f = D.run(first[id[v]], v);
        if (f < bound) { o << "vertices " << first[id[v]] << " and " << v << " of connectivity " << f << " < " << bound << " are merged"; return o.str(); }
    }
    return "";
}

template <class GP> static void red(Ctx& c, const Graph& g, bool small) {
    Rng& r = c.rng;
    auto cfg = fresh_config();
    constexpr bool MG = std::is_same<GP, mutableGraphPtr>::value;
    auto G = make<GP>(g);
    std::vector<u64> deg(g.n, 0);
    for (auto& e : g.e) { deg[e.u] += e.w; deg[e.v] += e.w; }
    u64 mindeg = *std::min_element(deg.begin(), deg.end());
    u64 lambda = small ? brute_mincuts(g).value : ma_mincut(g);
    const char* pqs[] = {"default", "bqueue", "heap", "bstack"};
    cfg->pq = pqs[r.below(4)];
    u64 maxw = 0; for (auto& e : g.e) maxw = std::max(maxw, e.w);
    if (maxw > 100000 && cfg->pq[0] == 'b') cfg->pq = "heap";
    cfg->disable_limiting = r.chance(1, 4);
    cfg->blacklist = r.chance(1, 2);
    cfg->save_cut = r.chance(1, 2);
    cfg->seed = r.below(1000); random_functions::setSeed(cfg->seed);
    u32 threads = 1;
#ifdef PARALLEL
    u32 ts[] = {1, 2, 3, 4, 8}; threads = ts[r.below(5)];
    omp_set_num_threads(threads); cfg->threads = threads;
#endif
    std::vector<std::string> ops = {"scan", "pr12", "pr34", "pr12all", "pr34all"};
    if (MG) { ops.push_back("local12"); ops.push_back("local34"); }
#ifdef PARALLEL
    ops.push_back("pscan"); ops.push_back("pscan");
#else
    if (!MG) ops.push_back("heavy");
#endif
    std::string op = r.pick(ops);
    bool only_scan = c.mode.find("red:scan") == 0;
#ifdef PARALLEL
    if (only_scan) { op = "pscan"; threads = 2 + r.below(3); omp_set_num_threads(threads); cfg->threads = threads; }
#endif
    u64 bound;
    switch (r.below(4)) {
    case 0: bound = mindeg; break;
    case 1: bound = std::max<u64>(1, lambda); break;
    case 2: bound = lambda + r.below(mindeg - lambda + 1); break;
    default: bound = 1 + r.below(mindeg); break;
    }
    if (op.size() > 4 && op.find("all") != std::string::npos) bound = lambda + 1;
    if (op.find("local") == 0) bound = lambda;
    if (only_scan) bound = lambda + r.below(3);
    if (bound == 0) bound = 1;
    std::string key = op + (MG ? "/mg" : "/ga");
    c.note(key + " bound=" + std::to_string(bound) + " lambda=" + std::to_string(lambda) + " mindeg=" + std::to_string(mindeg) + " pq=" + cfg->pq +
           " limiting=" + std::to_string(!cfg->disable_limiting) + " threads=" + std::to_string(threads) + " seed=" + std::to_string(cfg->seed) + " " + g.str(200));
    c.eval(); c.count("reduction:" + key);
    G->computeDegrees();
    auto judge = [&](union_find* uf) {
        u32 k; auto id = classes(uf, g.n, &k);
        c.count("vertices merged", g.n - k);
        if (k < g.n) { c.count("reductions that merged"); c.nontrivial(mix(g.hash(), vf::hash_str(key) + bound)); }
        c.eq(key + "/sets", static_cast<u64>(uf->n()), static_cast<u64>(k), "number of sets");
        std::string s;
        if (op == "pr12" || op == "pr34") {
            // safe together with the weight of the trivial cuts
            u64 q = k > 1 ? ma_mincut(quotient(g, id, k)) : ~0ull;
            u64 b = std::min(mindeg, q);
            if (b != lambda) c.fail(key, "minimum of trivial cuts (" + std::to_string(mindeg) + ") and the contracted graph (" + std::to_string(q) + ") is " + std::to_string(b) + ", minimum cut is " + std::to_string(lambda));
            return;
        }
        u64 lim = op == "local12" || op == "local34" ? bound + 1 : op == "heavy" ? bound + 1 : bound;
        s = separated(g, id, k, lim, small);
        c.check(s.empty(), key, s);
    };
    if (op == "scan") {
        noi_minimum_cut<GP> noi; auto uf = noi.modified_capforest(G, bound); judge(&uf);
    }
#ifdef PARALLEL
    else if (op == "pscan") {
        exact_parallel_minimum_cut<GP> ex; auto uf = ex.parallel_modified_capforest(G, bound, r.chance(1, only_scan ? 8 : 2)); judge(&uf);
    }
#endif
    else if (op == "pr12" || op == "pr12all") { auto uf = tests::prTests12(G, op == "pr12" ? mindeg : bound, op == "pr12all"); judge(&uf); }
    else if (op == "pr34" || op == "pr34all") { auto uf = tests::prTests34(G, op == "pr34" ? mindeg : bound, op == "pr34all"); judge(&uf); }
    else if (op == "local12" || op == "local34") {
        if constexpr (MG) { auto uf = op == "local12" ? all_cut_local_red::allCutsPrTests12(G, bound) : all_cut_local_red::allCutsPrTests34(G, bound); judge(&uf); }
    } else if (op == "heavy") {
        if constexpr (!MG) { union_find uf(g.n); tests::findHeavyEdges(G, &uf, bound); judge(&uf); }
    }
    c.check(sorted_edges(back(G)) == sorted_edges(g), key + "/input", "the input graph was changed");
}

// Random contractions and the removal of heavy vertices.  With weights that
// differ in one bit each the weight of an edge of the result tells which edges
// it stands for, so that the partition can be reconstructed from the result.
static std::string is_contraction(const graphAccessPtr& H, const Graph& g) {
    const u64 low = (1ull << 40) - 1; u64 seen = 0;
    for (NodeID v : H->nodes()) for (EdgeID e : H->edges_of(v)) seen |= H->getEdgeWeight(e);
    std::vector<u32> p(g.n); std::iota(p.begin(), p.end(), 0u);
    std::function<u32(u32)> f = [&](u32 x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
    for (auto& e : g.e) if (!(seen & e.w & low)) p[f(e.u)] = f(e.v);
    std::vector<u32> id(g.n, ~0u); u32 k = 0;
    for (u32 v = 0; v < g.n; ++v) { u32 t = f(v); if (id[t] == ~0u) id[t] = k++; }
    for (u32 v = 0; v < g.n; ++v) id[v] = id[f(v)];
    if (H->number_of_nodes() != k) return "result has " + std::to_string(H->number_of_nodes()) + " vertices, the edges it lacks leave " + std::to_string(k);
    Graph q = quotient(g, id, k);
    std::vector<std::vector<u64>> want(k), got(k);
    for (auto& e : q.e) { want[e.u].push_back(e.w); want[e.v].push_back(e.w); }
    for (NodeID v : H->nodes()) for (EdgeID e : H->edges_of(v)) got[v].push_back(H->getEdgeWeight(e));
    for (auto& x : want) std::sort(x.begin(), x.end());
    for (auto& x : got) std::sort(x.begin(), x.end());
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    if (want != got) return "edges of the result are not those between the parts";
    Graph h = from_ga(H);
    std::map<u64, int> ends; for (auto& e : h.e) ++ends[e.w];
    for (auto& e : q.e) if (ends[e.w] != 1) return "edge of weight " + std::to_string(e.w) + " does not join two vertices in both directions";
    return "";
}
static void spars(Ctx& c, Graph g, bool small) {
    Rng& r = c.rng;
    auto cfg = fresh_config();
    cfg->seed = r.below(100000); random_functions::setSeed(cfg->seed);
    cfg->save_cut = true;
    cfg->contraction_factor = r.below(80) / 100.0;
    const char* types[] = {"geometric", "random", "separate", "weighted"};
    cfg->sampling_type = types[r.below(4)];
    u32 threads = 1;
#ifdef PARALLEL
    threads = 1 + r.below(4);
    omp_set_num_threads(threads);
#endif
    cfg->threads = threads;
    bool powers = small && g.e.size() <= 40 && r.chance(2, 3);
    if (powers) { std::vector<u32> sh(g.e.size()); std::iota(sh.begin(), sh.end(), 0u); for (u32 i = sh.size(); i > 1; --i) std::swap(sh[i - 1], sh[r.below(i)]); for (u32 i = 0; i < g.e.size(); ++i) g.e[i].w = (1ull << 40) + (1ull << sh[i]); }
    else for (auto& e : g.e) e.w = 1 + e.w % 100;   // the sampling has to meet every edge in reasonable time
    std::vector<std::string> ops = {"contract", "contract", "heavy"};
    std::string op = r.pick(ops);
    double perc = r.below(100) / 100.0;
    c.note(op + " factor=" + std::to_string(cfg->contraction_factor) + " sampling=" + cfg->sampling_type + " threads=" + std::to_string(threads) + " percentile=" + std::to_string(perc) + " seed=" + std::to_string(cfg->seed) + " " + g.str(200));
    if (g.e.empty()) return;
    c.eval(); c.count("procedure:" + op);
    auto G = to_ga(g);
    sparsify sf;
    if (op == "heavy") {
        G->computeDegrees();
        std::vector<NodeID> ind;
        auto H = sf.remove_heavy_vertices(G, perc, &ind);
        if (!c.eq(op + "/size", ind.size(), static_cast<size_t>(g.n), "index vector")) return;
        std::vector<u64> wd(g.n); for (auto& e : g.e) wd[e.u] += e.w, wd[e.v] += e.w;
        auto s = wd; std::sort(s.begin(), s.end());
        u64 lim = s[static_cast<size_t>(static_cast<double>(g.n) * perc)];
        Graph q; u32 k = 0;
        for (u32 v = 0; v < g.n; ++v) {
            if (wd[v] >= lim) { if (!c.check(ind[v] == g.n, op + "/removed", "vertex " + std::to_string(v) + " of weighted degree " + std::to_string(wd[v]) + " is kept, limit " + std::to_string(lim))) return; }
            else { if (!c.eq(op + "/kept", static_cast<u64>(ind[v]), static_cast<u64>(k), "index of vertex " + std::to_string(v))) return; ++k; }
        }
        q.n = k;
        for (auto& e : g.e) if (ind[e.u] < g.n && ind[e.v] < g.n) q.e.push_back({static_cast<u32>(ind[e.u]), static_cast<u32>(ind[e.v]), e.w});
        std::string d = arcs_equal(H, normalise(q));
        c.check(d.empty(), op, d);
        if (k && k < g.n) { c.count("removals that kept some"); c.nontrivial(mix(g.hash(), vf::hash_str(op) + lim)); }
    } else {
        auto H = sf.one_ks(G);
        u32 k = H->number_of_nodes();
        std::vector<u32> id(g.n);
        for (u32 v = 0; v < g.n; ++v) { id[v] = G->getPartitionIndex(v); if (!c.check(id[v] < k, op + "/part", "vertex " + std::to_string(v) + " is in part " + std::to_string(id[v]) + " of " + std::to_string(k))) return; }
        std::string d = arcs_equal(H, quotient(g, id, k));
        if (!c.check(d.empty(), op, d)) return;
        // every part is connected
        std::vector<u32> p(g.n); std::iota(p.begin(), p.end(), 0u); u32 parts = g.n;
        std::function<u32(u32)> f = [&](u32 x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
        for (auto& e : g.e) if (id[e.u] == id[e.v] && f(e.u) != f(e.v)) p[f(e.u)] = f(e.v), --parts;
        c.eq(op + "/connected", static_cast<u64>(parts), static_cast<u64>(k), "connected parts");
        if (powers) { c.count("partitions reconstructed from weights"); std::string d = is_contraction(H, g); c.check(d.empty(), op + "/weights", d); }
        c.count("vertices merged", g.n - k);
        if (k < g.n) c.nontrivial(mix(g.hash(), mix(vf::hash_str(op + cfg->sampling_type), cfg->seed)));
    }
    c.check(sorted_edges(back(G)) == sorted_edges(g), op + "/input", "the input graph was changed");
}

static void one(Ctx& c) {
    silence();
    Rng& r = c.rng;
    bool isred = c.mode.find("red") == 0;
    std::string size = c.mode.substr(c.mode.find(':') + 1);
    GenOpts o; o.nmin = 2; o.connected = isred || c.mode.find("spars") == 0 || r.chance(2, 3);
    if (size == "small") o.nmax = isred ? 13 : 24; else if (size == "mid") { o.nmin = 12; o.nmax = 90; } else { o.nmin = 100; o.nmax = 400; }
    o.large = r.chance(1, 8);
    Graph g;
    // few vertices, many threads
    if (size == "scan") { o.nmin = 3; o.nmax = 7; o.large = false; size = "small"; }
    if (size == "large" && r.chance(1, 2)) { u32 n = 600 + r.below(3000); g = r.chance(1, 2) ? gen_gnm(r, n, n * (2 + r.below(8))) : gen_tree_plus(r, n, n); reweight(g, r, W_MED); }
    else if (size == "huge") g = gen_huge(r, r.chance(1, 2));
    else g = gen_graph(r, o);
    bool mg = r.chance(1, 2);
    if (c.index % 97 == 0) c.sample(g.str(20));
    if (c.mode.find("spars") == 0) return spars(c, g, size == "small");
    if (isred) { if (mg) red<mutableGraphPtr>(c, g, size == "small"); else red<graphAccessPtr>(c, g, size == "small"); }
    else { if (mg) con<mutableGraphPtr>(c, g, size == "small"); else con<graphAccessPtr>(c, g, size == "small"); }
}
int main(int argc, char** argv) { return vf::run_main(argc, argv, one); }
