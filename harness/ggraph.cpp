// G02: the static graph reports exactly what was put in; conversions, copies,
// serialisation, extraction keep the graph.
#include "vc.hpp"

#include "io/graph_io.h"
#include "tools/graph_extractor.h"
#include "tools/quality_metrics.h"
using namespace vf;

// graph with isolated vertices anywhere, possibly disconnected
static Graph loose(Ctx& c, bool large = true) {
    Rng& r = c.rng;
    GenOpts o; o.nmin = 1; o.nmax = r.chance(1, 6) ? 80 : 15; o.connected = r.chance(1, 2); o.large = large;
    Graph g = c.mode == "huge" ? gen_huge(r, o.connected) : gen_graph(r, o);
    if (r.chance(1, 3)) {
        u32 extra = 1 + r.below(5);
        g.n += extra;
        g = relabel(g, r);
        g.desc += "+isolated";
    }
    if (r.chance(1, 10)) g.e.clear();
    return g;
}

static bool same_static(Ctx& c, const std::string& K, const graphAccessPtr& G, const Graph& g,
                        const std::vector<std::vector<std::pair<u32, u64> > >& adj) {
    u64 arcs = 0;
    for (auto& a : adj) arcs += a.size();
    if (!c.eq(K + ":n", G->number_of_nodes(), g.n)) return false;
    if (!c.eq(K + ":m", G->number_of_edges(), arcs)) return false;
    if (!c.eq(K + ":n()/m()", G->n() == g.n && G->m() == arcs, true)) return false;
    u64 id = 0;
    for (NodeID v : G->nodes()) {
        if (!c.eq(K + ":degree", G->getUnweightedNodeDegree(v), adj[v].size(), "vertex " + std::to_string(v))) return false;
        u32 k = 0;
        for (EdgeID e : G->edges_of(v)) {
            if (!c.eq(K + ":edge id", e, id++)) return false;
            if (k >= adj[v].size() || G->getEdgeTarget(e) != adj[v][k].first || G->getEdgeWeight(e) != adj[v][k].second) {
                c.fail(K + ":edge", "edge " + std::to_string(e) + " of vertex " + std::to_string(v)); return false;
            }
            if (G->getEdge(e) != std::make_pair((NodeID)adj[v][k].first, (EdgeWeight)adj[v][k].second)) { c.fail(K + ":getEdge", ""); return false; }
            if (!c.eq(K + ":edge source", G->getEdgeSource(e), v, "edge " + std::to_string(e))) return false;
            ++k;
        }
        if (!c.eq(K + ":edge count", k, adj[v].size())) return false;
    }
    c.count("static graph comparisons");
    return true;
}

static void static_graph(Ctx& c) {
    Rng& r = c.rng;
    Graph g = loose(c);
    auto adj = g.adj();
    for (auto& a : adj) r.shuffle(a);
    c.note(g.str(80));
    auto G = std::make_shared<graph_access>();
    u64 arcs = 2 * g.e.size();
    bool weighted_call = r.chance(1, 2);
    G->start_construction(g.n, r.chance(1, 4) ? 0 : arcs);
    c.check(G->currentlyBuildingGraph(), "building flag", "");
    for (u32 v = 0; v < g.n; ++v) {
        if (!c.eq("new_node", G->new_node(), v)) return;
        for (auto& [t, w] : adj[v]) {
            if (r.chance(1, 30)) G->new_edge(v, v);       // self loops are dropped
            if (weighted_call) G->new_edge(v, t, w);
            else { EdgeID e = G->new_edge(v, t); G->setEdgeWeight(e, w); }
        }
    }
    G->finish_construction();
    if (!same_static(c, "built", G, g, adj)) return;
    std::vector<u64> deg(g.n, 0);
    for (u32 v = 0; v < g.n; ++v) for (auto& p : adj[v]) deg[v] += p.second;
    auto degrees = [&](const std::string& K) {
        for (u32 v = 0; v < g.n; ++v) if (!c.eq(K, G->getWeightedNodeDegree(v), deg[v], "vertex " + std::to_string(v))) return false;
        return true;
    };
    if (!degrees("weighted degree")) return;
    size_t maxu = 0; for (auto& a : adj) maxu = std::max(maxu, a.size());
    c.eq("max unweighted degree", G->getMaxUnweightedDegree(), maxu);
    if (g.n) {
        c.eq("min degree", G->getMinDegree(), *std::min_element(deg.begin(), deg.end()));
        c.eq("max degree", G->getMaxDegree(), *std::max_element(deg.begin(), deg.end()));
        c.eq("sum of weights", G->sumOfEdgeWeights(), 2 * g.total());
        auto s = deg; std::sort(s.begin(), s.end());
        double p = r.unit() * 0.999;
        c.eq("percentile", G->getPercentile(p), s[(size_t)(s.size() * p)]);
    }
    if (!degrees("weighted degree (cached)")) return;
    for (u32 v = 0; v < g.n; ++v) for (EdgeID e : G->edges_of(v)) {
        EdgeID b = G->find_reverse_edge(e);
        if (b == UNDEFINED_EDGE || b >= G->m() || G->getEdgeTarget(b) != v || G->getEdgeSource(b) != G->getEdgeTarget(e)) { c.fail("reverse edge", "edge " + std::to_string(e)); return; }
    }
    std::vector<u32> part(g.n); std::vector<char> in(g.n);
    for (u32 v = 0; v < g.n; ++v) { part[v] = r.below(4); in[v] = r.chance(1, 2); G->setPartitionIndex(v, part[v]); G->setNodeInCut(v, in[v]); }
    for (u32 v = 0; v < g.n; ++v) if (G->getPartitionIndex(v) != part[v] || (bool)G->getNodeInCut(v) != (bool)in[v]) { c.fail("vertex attributes", ""); return; }
    u64 pc = 0; for (auto& x : g.e) if (part[x.u] != part[x.v]) pc += x.w;
    c.eq("edge cut of a partition", quality_metrics().edge_cut(*G), pc);
    // flat arrays
    int* xadj = G->UNSAFE_metis_style_xadj_array(); int* adjn = G->UNSAFE_metis_style_adjncy_array();
    int* aw = G->UNSAFE_metis_style_adjwgt_array();
    u64 k = 0;
    for (u32 v = 0; v < g.n; ++v) {
        if (xadj[v] != (int)k) { c.fail("xadj", ""); break; }
        for (auto& [t, w] : adj[v]) { if (adjn[k] != (int)t || aw[k] != (int)w) { c.fail("adjacency arrays", ""); break; } ++k; }
    }
    if (g.n) c.eq("xadj end", xadj[g.n], (int)k);
    // and back from them
    if (g.n) {
        std::vector<int> vw(g.n, 1);
        bool small = true; for (auto& x : g.e) small &= x.w < (1ull << 31);
        auto P = std::make_shared<graph_access>();
        if (small && r.chance(1, 2)) {
            P->build_from_metis_weighted(g.n, xadj, adjn, vw.data(), aw);
            same_static(c, "from weighted arrays", P, g, adj);
        } else {
            P->build_from_metis(g.n, xadj, adjn);
            Graph unit = g; for (auto& x : unit.e) x.w = 1;
            auto ua = adj; for (auto& l : ua) for (auto& [t, w] : l) w = 1;
            same_static(c, "from arrays", P, unit, ua);
        }
        c.count("graphs built from arrays");
    }
    delete[] xadj; delete[] adjn; delete[] aw;
    { graph_access H = G->copy(); auto P = graphAccessPtr(&H, [](graph_access*) { }); same_static(c, "copy", P, g, adj); }
    // extraction of one block
    if (g.n) {
        u32 b = part[r.below(g.n)];
        auto [X, map] = graph_extractor().extract_block(G, b);
        Graph want; std::vector<u32> idx(g.n, ~0u);
        for (u32 v = 0; v < g.n; ++v) if (part[v] == b) { idx[v] = want.n++; if (map[v] != idx[v]) { c.fail("extract mapping", ""); return; } }
        std::vector<std::vector<std::pair<u32, u64> > > wa(want.n);
        for (u32 v = 0; v < g.n; ++v) if (part[v] == b) for (auto& [t, w] : adj[v]) if (part[t] == b) wa[idx[v]].emplace_back(idx[t], w);
        if (!same_static(c, "extracted block", X, want, wa)) return;
        c.count("extractions");
    }
    // to the mutable graph and back
    auto M = mutable_graph::from_graph_access(G);
    std::string i = mg_integrity(M);
    if (!i.empty()) { c.fail("from_graph_access", i); return; }
    Graph mg = from_mg(M);
    if (mg.n != g.n || sorted_edges(mg) != sorted_edges(g)) { c.fail("from_graph_access", "different graph"); return; }
    auto B = M->to_graph_access();
    Graph bg = from_ga(B);
    if (bg.n != g.n || sorted_edges(bg) != sorted_edges(g) || B->m() != arcs) { c.fail("to_graph_access", "different graph"); return; }
    for (u32 v = 0; v < g.n; ++v) if (!c.eq("to_graph_access degree", B->getWeightedNodeDegree(v), deg[v])) return;
    c.count("conversions", 2);
    c.nontrivial(g.hash());
    c.sample(g.str(40));
}

// parallel edges are merged, their weights summed, when converting
static void multigraph(Ctx& c) {
    Rng& r = c.rng;
    Graph g = loose(c, false);
    if (g.e.empty()) return;
    u32 dup = 1 + r.below(4);
    Graph h = g;
    for (u32 i = 0; i < dup; ++i) { vf::Edge e = r.pick(g.e); e.w = 1 + r.below(5); h.e.push_back(e); }
    h.desc += "+parallel edges";
    c.note(h.str(80));
    auto M = mutable_graph::from_graph_access(to_ga(h));
    std::string i = mg_integrity(M);
    if (!i.empty()) { c.fail("from_graph_access(multigraph)", i); return; }
    Graph got = from_mg(M);
    if (sorted_edges(got) != sorted_edges(normalise(h))) {
        std::ostringstream o; o << "weights differ: got " << got.str() << " expected " << normalise(h).str();
        c.fail("from_graph_access(multigraph)", o.str());
    }
    c.count("multigraph conversions");
    c.nontrivial(h.hash());
}

static std::string ordered(const mutableGraphPtr& G) {
    std::ostringstream o;
    o << G->n() << "/" << G->m() << "/" << G->getOriginalNodes() << "/" << G->get_partition_count() << ":";
    for (NodeID v : G->nodes()) {
        std::vector<std::pair<u32, u64> > a;
        for (EdgeID e : G->edges_of(v)) a.emplace_back(G->getEdgeTarget(v, e), G->getEdgeWeight(v, e));
        std::sort(a.begin(), a.end());
        o << "[" << G->getPartitionIndex(v) << "|" << G->getWeightedNodeDegree(v) << "|";
        for (auto& p : a) o << p.first << ":" << p.second << " ";
        auto in = G->containedVertices(v); std::sort(in.begin(), in.end());
        o << "|"; for (u32 x : in) o << x << " "; o << "]";
    }
    for (u32 x = 0; x < G->getOriginalNodes(); ++x) o << " " << G->getCurrentPosition(x);
    return o.str();
}

// a flow network: one residual arc back for every arc, with no capacity of its own
static bool same_network(Ctx& c, const std::string& K, flow_graph& F, u32 n, const std::vector<std::array<u64, 3> >& arcs, Rng& r) {
    std::vector<std::vector<std::pair<u32, i64> > > want(n);
    std::vector<i64> out(n, 0);
    for (auto& a : arcs) { want[a[0]].push_back({(u32)a[1], (i64)a[2]}); want[a[1]].push_back({(u32)a[0], 0}); out[a[0]] += (i64)a[2]; }
    if (!c.eq(K + ":n", F.number_of_nodes(), n) || !c.eq(K + ":m", F.number_of_edges(), 2 * arcs.size())) return false;
    u32 vs = 0;
    std::map<std::pair<u32, u64>, i64> flow;
    for (NodeID v : F.nodes()) {
        ++vs;
        if (!c.eq(K + ":capacity", F.getCapacity(v), out[v], "vertex " + std::to_string(v))) return false;
        std::vector<std::pair<u32, i64> > got;
        for (EdgeID e : F.edges_of(v)) {
            NodeID t = F.getEdgeTarget(v, e);
            got.push_back({t, (i64)F.getEdgeCapacity(v, e)});
            if (!c.eq(K + ":flow", F.getEdgeFlow(v, e), 0)) return false;
            if (t >= n) { c.fail(K + ":target", std::to_string(t)); return false; }
            EdgeID b = F.getReverseEdge(v, e);
            if (b >= F.get_first_invalid_edge(t) || F.getEdgeTarget(t, b) != v || F.getReverseEdge(t, b) != e
                || ((F.getEdgeCapacity(t, b) > 0) && (F.getEdgeCapacity(v, e) > 0))) { c.fail(K + ":reverse edge", std::to_string(v) + "-" + std::to_string(e)); return false; }
        }
        std::sort(got.begin(), got.end()); std::sort(want[v].begin(), want[v].end());
        if (!c.check(got == want[v], K + ":edges", "vertex " + std::to_string(v))) return false;
    }
    if (!c.eq(K + ":nodes()", vs, n)) return false;
    for (int i = 0; i < 20 && !arcs.empty(); ++i) {
        u32 v = arcs[r.below(arcs.size())][0]; EdgeID e = r.below(F.get_first_invalid_edge(v)); i64 x = (i64)r.below(1u << 30) - (1 << 29);
        F.setEdgeFlow(v, e, x); flow[{v, e}] = x;
    }
    for (NodeID v : F.nodes()) for (EdgeID e : F.edges_of(v)) { auto i = flow.find({v, e}); if (!c.eq(K + ":flow set", (i64)F.getEdgeFlow(v, e), i == flow.end() ? 0 : i->second)) return false; }
    return true;
}

static void network(Ctx& c) {
    Rng& r = c.rng;
    Graph g = loose(c);
    c.note("flow network " + g.str());
    std::vector<std::array<u64, 3> > arcs;
    for (auto& x : g.e) { arcs.push_back({x.u, x.v, x.w}); arcs.push_back({x.v, x.u, x.w}); }
    auto A = to_ga(g);
    auto F = graph_io::createFlowGraph(A);
    if (!same_network(c, "from a graph", *F, g.n, arcs, r)) return;
    // arcs of any kind, several between two vertices
    arcs.clear();
    flow_graph H; H.start_construction(g.n);
    if (g.n > 1) for (u32 i = r.below(4 * g.n); i--;) {
        u32 u = r.below(g.n), v = (u + 1 + r.below(g.n - 1)) % g.n; u64 w = r.chance(1, 4) ? r.below(1ull << 40) + 1 : 1 + r.below(9);
        arcs.push_back({u, v, w}); H.new_edge(u, v, w);
    }
    H.finish_construction();
    if (!same_network(c, "built", H, g.n, arcs, r)) return;
    c.count("flow networks");
    if (!arcs.empty()) { u64 h = g.n; for (auto& a : arcs) h = h * 1000003 + (a[0] * 131 + a[1]) * 7919 + a[2]; c.nontrivial(h); }
}

static void roundtrip(Ctx& c) {
    Rng& r = c.rng;
    Graph g = loose(c);
    c.note(g.str(80));
    auto M = to_mg(g);
    M->set_partition_count(r.below(9));
    u32 steps = r.below(8);
    u64 h = g.hash();
    for (u32 i = 0; i < steps && M->n() > 1; ++i) {
        NodeID v = r.below(M->n());
        switch (r.below(4)) {
        case 0: if (M->get_first_invalid_edge(v)) M->contractEdge(v, r.below(M->get_first_invalid_edge(v))); break;
        case 1: if (M->get_first_invalid_edge(v)) M->contractEdgeSparseTarget(v, r.below(M->get_first_invalid_edge(v))); break;
        case 2: { std::unordered_set<NodeID> s; for (u32 k = 0; k < 3; ++k) s.insert(r.below(M->n())); M->contractVertexSet(s); break; }
        default: if (M->get_first_invalid_edge(v)) M->deleteEdge(v, r.below(M->get_first_invalid_edge(v))); break;
        }
        h = mix(h, v * 8 + i);
    }
    for (NodeID v : M->nodes()) M->setPartitionIndex(v, r.below(5));
    std::string before = ordered(M);
    auto S = M->serialize();
    if (ordered(M) != before) { c.fail("serialize changed the graph", ""); return; }
    auto D = mutable_graph::deserialize(S);
    std::string i = mg_integrity(D);
    if (!i.empty()) { c.fail("deserialize:integrity", i); return; }
    if (ordered(D) != before) { c.fail("serialize round trip", "before " + before + " after " + ordered(D)); return; }
    auto C = std::make_shared<mutable_graph>(*M);
    if (ordered(C) != before) { c.fail("copy", ""); return; }
    auto X = M->simplify();
    Graph a = from_mg(M), b = from_mg(X);
    if (a.n != b.n || sorted_edges(a) != sorted_edges(b)) { c.fail("simplify", ""); return; }
    i = mg_integrity(X);
    if (!i.empty()) { c.fail("simplify:integrity", i); return; }
    // component-wise extraction
    Graph now = from_mg(M); u32 cc; auto comp = now.components(&cc);
    std::vector<int> ci(comp.begin(), comp.end());
    u32 seen = 0;
    for (u32 k = 0; k < cc; ++k) {
        auto [E, map, rev] = graph_extractor().extract_block(M, k, ci);
        std::string s = mg_integrity(E);
        if (!s.empty()) { c.fail("extracted component", s); return; }
        Graph eg = from_mg(E), want; want.n = 0; std::vector<u32> id(now.n, ~0u);
        for (u32 v = 0; v < now.n; ++v) if (comp[v] == k) {
            id[v] = want.n++;
            if (map[id[v]] != v || rev[v] != id[v]) { c.fail("extracted component mapping", ""); return; }
        }
        for (auto& e : now.e) if (comp[e.u] == k) want.e.push_back({id[e.u], id[e.v], e.w});
        if (eg.n != want.n || sorted_edges(eg) != sorted_edges(want)) { c.fail("extracted component", "different graph"); return; }
        seen += eg.n;
    }
    c.eq("components cover the graph", seen, now.n);
    // a copy is independent of its source
    if (M->n() > 1 && M->get_first_invalid_edge(0)) {
        M->contractEdge(0, 0);
        if (ordered(C) != before) c.fail("copy not independent", "");
    }
    c.count("round trips");
    c.nontrivial(h);
    c.sample(g.str(20) + " after " + std::to_string(steps) + " operations");
}

static void one(Ctx& c) {
    switch (c.index % 6) { case 0: multigraph(c); break; case 1: case 2: roundtrip(c); break; case 3: network(c); break; default: static_graph(c); }
    c.eval();
}
int main(int argc, char** argv) { silence(); return run_main(argc, argv, one); }
