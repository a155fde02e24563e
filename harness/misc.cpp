// A01: core decomposition; A02: components, bridges, articulation points,
// distances, highest degrees, validity check, edge cut.
#include "vc.hpp"

#include <sys/wait.h>
#include <unistd.h>

#include "algorithms/misc/core_decomposition.h"
#include "algorithms/misc/find_articulation_points.h"
#include "algorithms/misc/find_bridges.h"
#include "algorithms/misc/graph_algorithms.h"
#include "algorithms/misc/strongly_connected_components.h"
#include "tools/graph_extractor.h"
#include "tools/quality_metrics.h"

using namespace vf;

namespace {
struct Dsu {
    std::vector<u32> p;
    explicit Dsu(u32 n) : p(n) { std::iota(p.begin(), p.end(), 0u); }
    u32 find(u32 x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }
    void join(u32 a, u32 b) { p[find(a)] = find(b); }
};

bool& huge_mode() { static bool h = false; return h; }
Graph any_graph(Rng& r, bool small) {
    GenOpts o; o.nmin = 1; o.nmax = small ? 14 : 120; o.connected = r.chance(1, 2); o.large = true;
    if (huge_mode()) return gen_huge(r, o.connected);
    Graph g = normalise(gen_graph(r, o));
    if (r.chance(1, 4)) { g.n += 1 + r.below(4); g = relabel(g, r); g.desc += "+isolated"; }
    if (r.chance(1, 20)) g.e.clear();
    return g;
}

// the definition, by repeated deletion: for each k, what is left if vertices of degree < k are deleted
std::vector<u32> core_numbers(const Graph& g) {
    auto a = g.adj();
    std::vector<u32> core(g.n, 0), deg(g.n); std::vector<char> in(g.n, 1);
    for (u32 v = 0; v < g.n; ++v) deg[v] = a[v].size();
    u32 left = g.n;
    if (huge_mode()) {   // one vertex of smallest degree after the other
        std::set<std::pair<u32, u32> > q; u32 k = 0;
        for (u32 v = 0; v < g.n; ++v) q.insert({deg[v], v});
        while (!q.empty()) {
            auto [d, v] = *q.begin(); q.erase(q.begin());
            core[v] = k = std::max(k, d); in[v] = 0;
            for (auto& p : a[v]) if (in[p.first]) { q.erase({deg[p.first], p.first}); q.insert({--deg[p.first], p.first}); }
        }
        return core;
    }
    for (u32 k = 1; left; ++k) {
        bool again = true;
        while (again) {
            again = false;
            for (u32 v = 0; v < g.n; ++v) if (in[v] && deg[v] < k) {
                in[v] = 0; --left; core[v] = k - 1; again = true;
                for (auto& p : a[v]) --deg[p.first];
            }
        }
    }
    return core;
}

void core_case(Ctx& c) {
    Rng& r = c.rng;
    Graph g = any_graph(r, c.mode.find("small") != std::string::npos);
    c.note(g.str());
    auto adj = g.adj();
    for (auto& a : adj) r.shuffle(a);
    auto G = std::make_shared<graph_access>();
    G->start_construction(g.n, 2 * g.e.size());
    for (u32 v = 0; v < g.n; ++v) { G->new_node(); for (auto& [t, w] : adj[v]) G->setEdgeWeight(G->new_edge(v, t), w); }
    G->finish_construction(); G->computeDegrees();
    c.eval();
    auto want = core_numbers(g);
    k_cores kc = core_decomposition::batagelj_zaversnik(G);
    if (!c.eq("core/count", kc.degrees.size(), static_cast<size_t>(g.n))) return;
    for (u32 v = 0; v < g.n; ++v) if (!c.eq("core number", kc.degrees[v], want[v], "of vertex " + std::to_string(v))) return;
    // vertices are listed by core number, position is the inverse
    for (u32 i = 0; i < g.n; ++i) {
        if (!c.check(kc.vertices[i] < g.n && kc.position[kc.vertices[i]] == i, "core/order", "position and vertices are not inverse at " + std::to_string(i))) return;
        if (i && !c.check(want[kc.vertices[i - 1]] <= want[kc.vertices[i]], "core/order", "not sorted at " + std::to_string(i))) return;
    }
    u32 mx = *std::max_element(want.begin(), want.end());
    c.count("core numbers", g.n); c.distinct("largest core", mx);
    if (mx > 1) c.nontrivial(g.hash());
    for (u32 t = 0; t < 3; ++t) {
        u32 k = r.below(mx + 1);
        c.note("k=" + std::to_string(k) + " " + g.str());
        auto C = core_decomposition::createCoreGraph(kc, k, G);
        // the subgraph of the core and its components
        std::vector<u32> id(g.n, ~0u); u32 m = 0;
        for (u32 v = 0; v < g.n; ++v) if (want[v] >= k) id[v] = m++;
        Graph s; s.n = m;
        for (auto& x : g.e) if (id[x.u] != ~0u && id[x.v] != ~0u) s.e.push_back({id[x.u], id[x.v], x.w});
        u32 nc; auto comp = s.components(&nc);
        std::vector<u32> size(nc, 0);
        for (auto x : comp) size[x]++;
        u32 big = *std::max_element(size.begin(), size.end());
        if (!c.eq("core graph/vertices", C->number_of_nodes(), big, "vertices in the largest component of the core")) return;
        auto got = sorted_edges(from_ga(C));
        if (!c.eq("core graph/arcs", static_cast<size_t>(C->number_of_edges()), 2 * got.size())) return;
        bool found = false;
        for (u32 q = 0; q < nc && !found; ++q) if (size[q] == big) {
            std::vector<u32> id2(m, ~0u); u32 z = 0;
            for (u32 v = 0; v < m; ++v) if (comp[v] == q) id2[v] = z++;
            Graph h; h.n = z;
            for (auto& x : s.e) if (comp[x.u] == q) h.e.push_back({id2[x.u], id2[x.v], x.w});
            found = sorted_edges(h) == got;
        }
        c.check(found, "core graph", "is no largest component of the " + std::to_string(k) + "-core (vertices in order)");
        c.count("core graphs"); if (nc > 1) c.count("cores with several components");
    }
    Graph back = from_ga(G);
    c.check(sorted_edges(back) == sorted_edges(g), "core/input", "input graph changed");
    if (c.index % 101 == 0) c.sample(g.str().substr(0, 200));
}

// strongly connected components by reachability
std::vector<u32> scc_classes(u32 n, const std::vector<std::vector<u32> >& out, u32* cnt) {
    std::vector<std::vector<char> > reach(n, std::vector<char>(n, 0));
    for (u32 s = 0; s < n; ++s) {
        std::vector<u32> q{s}; reach[s][s] = 1;
        for (size_t i = 0; i < q.size(); ++i) for (u32 t : out[q[i]]) if (!reach[s][t]) { reach[s][t] = 1; q.push_back(t); }
    }
    std::vector<u32> id(n, ~0u); *cnt = 0;
    for (u32 v = 0; v < n; ++v) if (id[v] == ~0u) { for (u32 t = v; t < n; ++t) if (reach[v][t] && reach[t][v]) id[t] = *cnt; ++*cnt; }
    return id;
}
template <class A, class B> bool same_partition(const A& a, const B& b, size_t n) {
    std::map<u64, u64> f, h;
    for (size_t i = 0; i < n; ++i) {
        u64 x = a[i], y = b[i];
        if (f.emplace(x, y).first->second != y || h.emplace(y, x).first->second != x) return false;
    }
    return true;
}

// runs f in a child; exit status, or -1 - signal
template <class F> int in_child(F f) {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        finished() = true;   // exit() is an answer here
        f();
        _exit(0);
    }
    int st; waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : -1 - WTERMSIG(st);
}

std::vector<terminal> some_terminals(Rng& r, u32 n) {
    std::vector<u32> p(n); std::iota(p.begin(), p.end(), 0u); r.shuffle(p);
    u32 k = std::min<u32>(n, 1 + r.below(4));
    std::vector<terminal> t;
    for (u32 i = 0; i < k; ++i) t.emplace_back(p[i], i);
    return t;
}
std::string show(const std::vector<terminal>& t) { std::string s = "terminals"; for (auto& x : t) s += " " + std::to_string(x.position); return s + " "; }

void struct_case(Ctx& c) {
    Rng& r = c.rng;
    bool small = c.mode.find("small") != std::string::npos;
    Graph g = any_graph(r, small);
    const char* ops[] = {"components", "residual", "largest", "bridges", "articulation points", "distances", "degrees", "validity", "edge cut"};
    std::string op = ops[r.below(9)];
    while (huge_mode() && (op == "residual" || op == "bridges" || op == "articulation points" || op == "degrees")) op = ops[r.below(9)];
    if (op == "residual" && g.n > 60) { g = any_graph(r, true); }
    c.note(op + " " + g.str());
    c.eval(); c.count("queries:" + op);
    if (g.e.size() > 1) c.nontrivial(mix(g.hash(), hash_str(op)));
    auto adj = g.adj();
    if (op == "components") {
        // any directed graph, also several on one object
        strongly_connected_components scc;
        for (u32 t = 0; t < 2; ++t) {
            bool directed = t == 0 && r.chance(1, 2) && !huge_mode();
            auto G = std::make_shared<graph_access>();
            std::vector<std::vector<u32> > out(g.n); u64 arcs = 0;
            double keep = r.unit();
            for (u32 v = 0; v < g.n; ++v) { r.shuffle(adj[v]); for (auto& [x, w] : adj[v]) { (void)w; if (!directed || r.unit() < keep) { out[v].push_back(x); ++arcs; } } }
            G->start_construction(g.n, arcs);
            for (u32 v = 0; v < g.n; ++v) { G->new_node(); for (u32 x : out[v]) G->new_edge(v, x); }
            G->finish_construction();
            std::vector<int> comp(g.n, r.below(2) ? -1 : 7);
            size_t ct = scc.strong_components(G, &comp);
            u32 want; auto cls = huge_mode() ? g.components(&want) : scc_classes(g.n, out, &want);
            c.eq(op + "/count", ct, static_cast<size_t>(want), directed ? "directed" : "undirected");
            for (int x : comp) if (!c.check(x >= 0 && static_cast<size_t>(x) < ct, op + "/range", std::to_string(x))) return;
            c.check(same_partition(comp, cls, g.n), op, "classes differ");
            if (want > 1 && want < g.n) c.count("component structures other than one or all single");
        }
    } else if (op == "residual") {
        auto G = to_mg(g);
        strongly_connected_components scc;
        for (u32 t = 0; t < 2; ++t) {
            size_t id = r.below(3);
            bool with_id = r.chance(1, 2);
            std::vector<std::vector<u32> > out(g.n);
            for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v)) {
                NodeID x = G->getEdgeTarget(v, e);
                if (v > x) continue;
                i64 w = G->getEdgeWeight(v, e);
                // flow between full in one direction, none, full in the other; sometimes left from another problem
                i64 f = r.chance(1, 3) ? w : r.chance(1, 2) ? -w : r.range(-w, w);
                size_t pid = with_id && r.chance(1, 5) ? id + 1 : id;
                EdgeID e2 = G->getReverseEdge(v, e);
                G->setEdgeFlow(v, e, f, pid); G->setEdgeFlow(x, e2, -f, pid);
                if (with_id && pid != id) f = 0;
                if (f < w) out[v].push_back(x);
                if (-f < w) out[x].push_back(v);
            }
            auto [comp, ct, sizes] = with_id ? scc.strong_components(G, id) : scc.strong_components(G);
            u32 want; auto cls = scc_classes(g.n, out, &want);
            if (!c.eq(op + "/count", ct, static_cast<size_t>(want))) return;
            if (!c.eq(op + "/vector", comp.size(), static_cast<size_t>(g.n))) return;
            for (int x : comp) if (!c.check(x >= 0 && static_cast<size_t>(x) < ct, op + "/range", std::to_string(x))) return;
            if (!c.check(same_partition(comp, cls, g.n), op, "classes differ")) return;
            if (!c.eq(op + "/sizes", sizes.size(), ct, "call " + std::to_string(t))) return;
            std::vector<size_t> s(ct, 0); for (int x : comp) ++s[x];
            c.check(s == sizes, op + "/sizes", "block sizes differ");
            if (want > 1 && want < g.n) c.count("component structures other than one or all single");
            // blocks of the components
            graph_extractor ge;
            u32 b = r.below(ct);
            auto [H, map, rev] = ge.extract_block(G, b, comp);
            std::vector<u32> id2(g.n, ~0u); u32 z = 0;
            for (u32 v = 0; v < g.n; ++v) if (comp[v] == static_cast<int>(b)) { if (!c.check(z < map.size() && map[z] == v && rev[v] == z, "extract/mapping", std::to_string(v))) return; id2[v] = z++; }
            Graph h; h.n = z;
            for (auto& x : g.e) if (id2[x.u] != ~0u && id2[x.v] != ~0u) h.e.push_back({id2[x.u], id2[x.v], x.w});
            c.eq("extract/vertices", H->n(), z);
            u64 arcs = 0; std::vector<std::tuple<u32, u32, u64> > got;
            for (NodeID v : H->nodes()) for (EdgeID e : H->edges_of(v)) { ++arcs; if (v < H->getEdgeTarget(v, e)) got.emplace_back(v, H->getEdgeTarget(v, e), H->getEdgeWeight(v, e)); }
            std::sort(got.begin(), got.end());
            c.check(arcs == 2 * got.size() && got == sorted_edges(h), "extract/edges", "");
        }
    } else if (op == "largest") {
        auto G = to_ga(g);
        strongly_connected_components scc;
        auto L = scc.largest_scc(G);
        u32 nc; auto comp = g.components(&nc);
        std::vector<u32> size(nc, 0); for (auto x : comp) ++size[x];
        u32 big = *std::max_element(size.begin(), size.end());
        if (!c.eq(op + "/vertices", L->number_of_nodes(), big)) return;
        auto got = sorted_edges(from_ga(L)); bool found = false;
        for (u32 q = 0; q < nc && !found; ++q) if (size[q] == big) {
            std::vector<u32> id(g.n, ~0u); u32 z = 0;
            for (u32 v = 0; v < g.n; ++v) if (comp[v] == q) id[v] = z++;
            Graph h; h.n = z;
            for (auto& x : g.e) if (comp[x.u] == q) h.e.push_back({id[x.u], id[x.v], x.w});
            found = sorted_edges(h) == got;
        }
        c.check(found, op, "is no largest component");
    } else if (op == "bridges" || op == "articulation points") {
        bool br = op == "bridges";
        u32 nc; g.components(&nc);
        auto G = to_mg(g);
        auto terms = some_terminals(r, g.n);
        c.note(op + " " + show(terms) + g.str());
        auto root = g.components();
        std::vector<u32> first(nc, ~0u);
        for (u32 v = g.n; v-- > 0; ) first[root[v]] = v;
        std::vector<char> is_t(g.n, 0); for (auto& t : terms) is_t[t.position] = 1;
        // from the definition: what the removal of one edge or vertex separates
        Dsu upper(g.n), lower(g.n);
        u32 must = 0, may = 0; std::set<std::pair<u32, u32> > B;
        auto without = [&](u32 a, u32 b) {   // components without edge a-b, or without vertex a (b = ~0)
            Graph h = g;
            h.e.erase(std::remove_if(h.e.begin(), h.e.end(), [&](const vf::Edge& x) { return b == ~0u ? x.u == a || x.v == a : x.u == a && x.v == b; }), h.e.end());
            return h.components();
        };
        if (br) {
            for (auto& x : g.e) {
                auto q = without(x.u, x.v);
                if (q[x.u] == q[x.v]) continue;
                ++must; ++may; B.emplace(x.u, x.v);
                for (u32 s : {x.u, x.v}) {
                    u32 ts = 0, side = q[s];
                    for (u32 v = 0; v < g.n; ++v) ts += is_t[v] && q[v] == side;
                    if (ts) continue;
                    // no terminal beyond the bridge: everything there may go to the bridge's other end
                    u32 to = s == x.u ? x.v : x.u;
                    for (u32 v = 0; v < g.n; ++v) if (q[v] == side) { upper.join(v, to); lower.join(v, to); }
                }
            }
        } else {
            for (u32 v = 0; v < g.n; ++v) {
                if (adj[v].size() < 2) continue;
                auto q = without(v, ~0u);
                std::set<u32> parts; for (auto& p : adj[v]) parts.insert(q[p.first]);
                if (parts.size() < 2) continue;
                ++may; bool is_root = first[root[v]] == v;
                must += !is_root;
                for (u32 part : parts) {
                    u32 ts = 0; for (u32 x = 0; x < g.n; ++x) ts += is_t[x] && q[x] == part && x != v;
                    if (ts) continue;
                    for (u32 x = 0; x < g.n; ++x) if (q[x] == part && x != v) {
                        upper.join(x, v);
                        // exactly two parts: whatever the search started from, one is contracted
                        if (parts.size() == 2 && !is_t[v] && !is_root && nc == 1) lower.join(x, v);
                    }
                }
            }
        }
        if (nc > 1) for (u32 v = 0; v < g.n; ++v) lower.p[v] = v;
        auto classes = [&](union_find* uf) {
            for (u32 v = 0; v < g.n; ++v) {
                if (!c.check(upper.find(v) == upper.find(uf->Find(v)), op + "/merged", std::to_string(v) + " and " + std::to_string(uf->Find(v)) + " are merged for no reason")) return;
                if (!c.check(uf->Find(v) == uf->Find(lower.find(v)), op + "/not merged", std::to_string(v) + " and " + std::to_string(lower.find(v)) + " should be merged")) return;
            }
            c.count("contractions compared");
        };
        bool any_lower = false; for (u32 v = 0; v < g.n; ++v) any_lower |= lower.find(v) != v;
        if (br) {
            find_bridges f(G);
            bool any = f.findAllBridges();
            c.check(any == (must > 0), op + "/exists", any ? "reported but there is none" : "none reported but there is one");
            if (!any || !must) return;
            auto v = f.terminalsOnBothSides(terms);
            if (std::holds_alternative<union_find>(v)) { auto uf = std::get<union_find>(v); classes(&uf); }
            else {
                auto [n, e] = std::get<std::pair<NodeID, EdgeID> >(v);
                if (!c.check(n < g.n && e < G->get_first_invalid_edge(n), op + "/edge", "no such edge")) return;
                u32 t = G->getEdgeTarget(n, e);
                c.check(B.count({std::min<u32>(n, t), std::max<u32>(n, t)}) > 0, op + "/edge", std::to_string(n) + "-" + std::to_string(t) + " is no bridge");
                c.check(!any_lower, op + "/not merged", "a bridge with no terminal beyond it is left");
                c.count("bridges compared");
            }
        } else {
            find_articulation_points f(G);
            bool any = f.findAllArticulationPoints();
            c.check(!any || may > 0, op + "/exists", "reported but there is none");
            c.check(any || must == 0, op + "/exists", "none reported but there is one");
            if (!any || !may) return;
            auto v = f.terminalsOnBothSides(terms);
            if (v.has_value()) classes(&v.value());
            else c.check(!any_lower, op + "/not merged", "");
        }
    } else if (op == "distances") {
        auto G = to_mg(g);
        u32 s = r.below(g.n);
        std::vector<u32> dist(g.n, ~0u); std::vector<u32> q{s}; dist[s] = 0;
        for (size_t i = 0; i < q.size(); ++i) for (auto& p : adj[q[i]]) if (dist[p.first] == ~0u) { dist[p.first] = dist[q[i]] + 1; q.push_back(p.first); }
        auto [parent, d, last] = graph_algorithms::bfsDistances(G, s);
        u32 far = 0;
        for (u32 v = 0; v < g.n; ++v) {
            if (dist[v] == ~0u) { c.check(parent[v] == UNDEFINED_NODE, op + "/parent", "of an unreachable vertex"); continue; }
            far = std::max(far, dist[v]);
            if (!c.eq(op, d[v], dist[v], "of " + std::to_string(v) + " from " + std::to_string(s))) return;
            if (v == s) continue;
            bool adjv = false; if (parent[v] < g.n) for (auto& p : adj[v]) adjv |= p.first == parent[v];
            c.check(adjv && dist[parent[v]] + 1 == dist[v], op + "/parent", "of " + std::to_string(v));
        }
        if (g.n > 1) c.check(last < g.n && dist[last] == far, op + "/farthest", "vertex " + std::to_string(last));
    } else if (op == "degrees") {
        u32 k = r.below(g.n + 3);
        c.note(op + " k=" + std::to_string(k) + " " + g.str());
        std::vector<u64> wd(g.n, 0), ud(g.n, 0);
        for (auto& x : g.e) { wd[x.u] += x.w; wd[x.v] += x.w; ++ud[x.u]; ++ud[x.v]; }
        auto judge = [&](const std::vector<NodeID>& got, const std::vector<u64>& deg, const char* which) {
            if (!c.eq(op + "/count", got.size(), static_cast<size_t>(std::min(k, g.n)), which)) return;
            std::set<u32> s(got.begin(), got.end());
            if (!c.check(s.size() == got.size() && (s.empty() || *s.rbegin() < g.n), op + "/vertices", which)) return;
            for (u32 v = 0; v < g.n; ++v) if (!s.count(v)) for (u32 x : got) if (!c.check(deg[x] >= deg[v], op, std::string(which) + ": " + std::to_string(x) + " taken, " + std::to_string(v) + " has more")) return;
        };
        auto A = to_ga(g); auto M = to_mg(g);
        judge(graph_algorithms::top_k_degrees(A, k), ud, "unweighted");
        judge(graph_algorithms::weighted_top_k_degrees(A, k), wd, "weighted");
        judge(graph_algorithms::top_k_degrees(M, k), wd, "mutable");
    } else if (op == "validity") {
        // accepts every valid graph; refuses broken ones
        if (g.e.empty()) return;
        int kind = r.below(6);
        auto M = to_mg(g); auto A = to_ga(g);
        bool mut = r.chance(1, 2), broken = kind > 0;
        if (kind == 1 || kind == 2) {   // weight of one arc; the mutable graph always changes both
            if (mut) { NodeID v; do v = r.below(g.n); while (M->get_first_invalid_edge(v) == 0); EdgeID e = r.below(M->get_first_invalid_edge(v)); M->setEdgeWeight(v, e, M->getEdgeWeight(v, e) + 1); broken = false; }
            else { EdgeID e = r.below(A->number_of_edges()); A->setEdgeWeight(e, A->getEdgeWeight(e) + 1); }
        } else if (kind >= 3) {
            if (mut || g.n < 3) return;
            // an arc without its reverse, or twice
            auto H = std::make_shared<graph_access>();
            u32 x = r.below(g.e.size()); bool twice = kind == 3;
            H->start_construction(g.n, 2 * g.e.size() + 2);
            for (u32 v = 0; v < g.n; ++v) {
                H->new_node();
                for (auto& [t, w] : adj[v]) {
                    bool hit = v == g.e[x].u && t == g.e[x].v;
                    if (hit && !twice) continue;
                    H->setEdgeWeight(H->new_edge(v, t), w);
                    if (hit) H->setEdgeWeight(H->new_edge(v, t), w);
                }
            }
            H->finish_construction();
            A = H;
        }
        int st = in_child([&] { if (mut) graph_algorithms::checkGraphValidity(M); else graph_algorithms::checkGraphValidity(A); });
        if (broken) c.check(st == 1, op + "/accepted", "broken graph (kind " + std::to_string(kind) + ") accepted: status " + std::to_string(st));
        else c.check(st == 0, op + "/refused", "valid graph refused: status " + std::to_string(st));
        c.count(broken ? "broken graphs" : "valid graphs");
    } else {
        auto A = to_ga(g);
        u32 k = 1 + r.below(4);
        std::vector<u32> b(g.n);
        for (u32 v = 0; v < g.n; ++v) { b[v] = r.below(k); A->setPartitionIndex(v, b[v]); }
        u64 want = 0; for (auto& x : g.e) if (b[x.u] != b[x.v]) want += x.w;
        quality_metrics qm;
        c.eq(op, static_cast<u64>(qm.edge_cut(*A)), want);
    }
    if (c.index % 101 == 0) c.sample(op + " " + g.str().substr(0, 200));
}

// random helpers: permutations, ranges, streams
template <class T> void permutations(Ctx& c, u32 n, int seed) {
    Rng& r = c.rng;
    random_functions::setSeed(seed);
    std::vector<T> id(n); for (u32 i = 0; i < n; ++i) id[i] = static_cast<T>(i);
    auto perm = [&](const char* what, u32 least, auto f) {
        bool moved = false;
        for (int k = 0; k < (n > 200 ? 3 : 40); ++k) {
            std::vector<T> v(n);
            for (auto& x : v) x = static_cast<T>(r.below(n));
            f(&v);
            moved |= v != id;
            std::sort(v.begin(), v.end());
            if (!c.check(v == id, std::string("permutation/") + what, "of " + std::to_string(n) + " elements")) return;
            c.count("permutations");
        }
        if (n >= least) c.check(moved, std::string("never moves/") + what, "of " + std::to_string(n) + " elements");
    };
    perm("circular", 2, [](auto* v) { if (v->size() == 1) (*v)[0] = 0; random_functions::circular_permutation(v); });
    perm("fast", 10, [](auto* v) { random_functions::permutate_vector_fast(v, true); });
    perm("local", 6, [](auto* v) { random_functions::permutate_vector_local(v, true); });
    perm("good", 6, [](auto* v) { random_functions::permutate_vector_good(v, true); });
    // given contents are kept
    std::vector<T> given(n); for (auto& x : given) x = static_cast<T>(r.below(1u << 30));
    auto keeps = [&](const char* what, auto f) {
        auto v = given; f(&v); auto a = v, b = given; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        c.check(a == b, std::string("elements/") + what, "of " + std::to_string(n));
        c.count("permutations");
    };
    for (int k = 0; k < 5; ++k) {
        keeps("fast", [](auto* v) { random_functions::permutate_vector_fast(v, false); });
        keeps("local", [](auto* v) { random_functions::permutate_vector_local(v, false); });
        keeps("good", [](auto* v) { random_functions::permutate_vector_good(v, false); });
        keeps("good/one argument", [](auto* v) { random_functions::permutate_vector_good(v); });
        keeps("small", [](auto* v) { random_functions::permutate_vector_good_small(v); });
    }
}

void rand_case(Ctx& c) {
    Rng& r = c.rng;
    int seed = static_cast<int>(r.chance(1, 4) ? r.below(5) : r.below(1u << 31));
    u32 n = r.chance(1, 2) ? r.below(24) : r.chance(1, 2) ? 100 + r.below(200) : 1 + r.below(3000);
    c.note("random helpers seed=" + std::to_string(seed) + " n=" + std::to_string(n));
    c.eval();
    if (r.chance(1, 3)) permutations<u64>(c, n, seed); else if (r.chance(1, 2)) permutations<u32>(c, n, seed); else permutations<int>(c, n, seed);
    // closed ranges, every value of which comes up
    u32 lo = r.chance(1, 3) ? r.below(1u << 31) : r.below(20), len = r.chance(1, 2) ? r.below(9) : r.below(1u << 30);
    std::set<u32> seen;
    for (int k = 0; k < 400; ++k) { u32 x = random_functions::nextInt(lo, lo + len); seen.insert(x); if (!c.check(x >= lo && x - lo <= len, "range", std::to_string(x) + " of " + std::to_string(lo) + "+" + std::to_string(len))) return; }
    if (len < 9) c.eq("values that come up", static_cast<u32>(seen.size()), len + 1); else c.check(seen.size() > 2, "values that come up", "hardly any");
    double a = r.unit() * 100 - 50, b = a + 0.001 + r.unit() * 10; int upper = 0, yes = 0;
    for (int k = 0; k < 400; ++k) {
        double x = random_functions::nextDouble(a, b); upper += x > (a + b) / 2; yes += random_functions::nextBool();
        if (!c.check(x >= a && x <= b, "range/double", std::to_string(x))) return;
    }
    c.check(upper > 60 && upper < 340, "spread/double", std::to_string(upper) + " of 400 above the middle");   // > 14 standard deviations
    c.check(yes > 60 && yes < 340, "spread/bool", std::to_string(yes) + " of 400");
    // streams
    auto stream = [&](int s, bool extra) {
        random_functions::setSeed(s);
        std::vector<u64> v;
        for (int k = 0; k < 40; ++k) {
            if (extra) { auto m = random_functions::getRand(); u32 peek = m(); v.push_back(random_functions::next()); c.eq("copy of the generator", peek, static_cast<u32>(v.back())); }
            else v.push_back(random_functions::next());
            v.push_back(random_functions::nextInt(0, 1000)); v.push_back(random_functions::nextBool());
            v.push_back(static_cast<u64>(random_functions::nextDouble(0, 1e9)));
        }
        std::vector<u32> p(n); random_functions::permutate_vector_good(&p, true); v.insert(v.end(), p.begin(), p.end());
        random_functions::permutate_vector_local(&p, true); v.insert(v.end(), p.begin(), p.end());
        return v;
    };
    auto x = stream(seed, false); int got = random_functions::getSeed();
    c.eq("getSeed", got, seed);
    auto y = stream(seed, true), z = stream(seed ^ (1 + static_cast<int>(r.below(1000))), false);
    c.check(x == y, "stream", "equal seeds, different streams");
    c.check(x != z, "stream/other seed", "different seeds, equal streams");
    c.count("streams compared");
    c.nontrivial(static_cast<u64>(seed) * 1000003 + n);
    if (c.index % 101 == 0) c.sample("seed " + std::to_string(seed) + " n " + std::to_string(n));
}

void run_case(Ctx& c) {
    silence();
    huge_mode() = c.mode.find("huge") != std::string::npos;
    if (c.mode == "rand") return rand_case(c);
    if (c.mode.compare(0, 4, "core") == 0) core_case(c); else struct_case(c);
}
}  // namespace
int main(int argc, char** argv) { return run_main(argc, argv, run_case); }
