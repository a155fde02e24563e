// Push-relabel maximum flows against Dinic.  mode = small | mid | big
#include "algorithms/flow/push_relabel.h"
#include "vc.hpp"
using namespace vf;

struct Ask { std::vector<u32> s; u32 cur; };

static u64 truth(const Graph& g, const Ask& a) {
    Dinic D(g.n + 1);
    for (auto& e : g.e) D.und(e.u, e.v, e.w);
    for (u32 i = 0; i < a.s.size(); ++i) if (i != a.cur) D.dir(a.s[i], g.n, ~0ull >> 3);
    return D.run(a.s[a.cur], g.n);
}

// exact call; key tells the variant
template <class PR> static void full(Ctx& c, PR& pr, mutableGraphPtr G, const Graph& g, const Ask& a, const std::string& key, bool explicitId, u64 id) {
    std::vector<NodeID> s(a.s.begin(), a.s.end());
    bool set = c.rng.chance(3, 4);
    auto [f, side] = explicitId ? pr.solve_max_flow_min_cut(G, s, a.cur, set, 0, id) : pr.solve_max_flow_min_cut(G, s, a.cur, set);
    u64 want = truth(g, a);
    c.eval(); c.count("flows:" + key);
    if (want) c.nontrivial(mix(mix(g.hash(), a.cur), [&] { u64 h = 7; for (u32 x : a.s) h = mix(h, x); return h; }()));
    c.eq(key + "/value", static_cast<i64>(f), static_cast<i64>(want), "source " + std::to_string(a.s[a.cur]) + ", " + std::to_string(a.s.size() - 1) + " sinks");
    if (set) {
        std::vector<char> in(g.n, 0);
        for (auto v : side) {
            if (v >= g.n || in[v]) { c.fail(key + "/set", "vertex " + std::to_string(v) + " twice or out of range"); return; }
            in[v] = 1;
        }
        if (!in[a.s[a.cur]]) c.fail(key + "/set", "source not in its set");
        for (u32 i = 0; i < a.s.size(); ++i) if (i != a.cur && in[a.s[i]]) c.fail(key + "/set", "sink in the source set");
        c.eq(key + "/set", cut_weight(g, in), want, "weight of the cut given by the source set");
        c.count("source sets"); c.count("source set vertices", side.size());
    }
    if (explicitId) {
        // the flow left on the edges is a preflow of that value into the sinks
        std::vector<i64> bal(g.n, 0);
        for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v)) {
            auto fl = G->getEdgeFlow(v, e, id);
            auto t = G->getEdgeTarget(v, e); auto rv = G->getReverseEdge(v, e);
            if (fl > static_cast<FlowType>(G->getEdgeWeight(v, e))) { c.fail(key + "/capacity", "flow above capacity"); return; }
            if (fl != -G->getEdgeFlow(t, rv, id)) { c.fail(key + "/antisymmetry", "flow is not antisymmetric"); return; }
            bal[v] -= fl;
        }
        i64 in = 0;
        for (u32 i = 0; i < a.s.size(); ++i) if (i != a.cur) in += bal[a.s[i]];
        for (u32 v = 0; v < g.n; ++v) {
            bool sk = std::count(a.s.begin(), a.s.end(), v);
            if (!sk && bal[v] != 0) { c.fail(key + "/conservation", "vertex " + std::to_string(v) + " keeps excess " + std::to_string(bal[v])); return; }
        }
        c.eq(key + "/inflow", in, static_cast<i64>(want), "flow into the sinks");
        c.count("flows checked for conservation");
    }
}

static void one(Ctx& c) {
    silence();
    auto cfg = fresh_config();
    Rng& r = c.rng;
    GenOpts o; o.nmin = 2; o.connected = r.chance(2, 3); o.large = true;
    if (c.mode == "small") o.nmax = 14; else if (c.mode == "mid") { o.nmin = 10; o.nmax = 80; } else { o.nmin = 100; o.nmax = 600; }
    Graph g = c.mode == "huge" ? gen_huge(r, true) : gen_graph(r, o);
    if (c.index % 97 == 0) c.sample(g.str(20));
    cfg->depthOfPartialRelabeling = r.below(4);
    cfg->seed = r.below(100); random_functions::setSeed(cfg->seed);
    auto G = to_mg(g);
    auto before = sorted_edges(g);
    push_relabel<false, false> p; push_relabel<false, true> q; push_relabel<true, false> l;
    u32 rounds = 1 + r.below(c.mode == "huge" ? 2 : 5);
    bool reseed = r.chance(1, 4);
    u64 id = 1 + r.below(1000000);
    for (u32 k = 0; k < rounds; ++k) {
        u32 cnt = 2 + (r.chance(1, 2) ? r.below(std::min(g.n - 1, 5u)) : 0);
        std::vector<u32> perm(g.n); std::iota(perm.begin(), perm.end(), 0u); r.shuffle(perm);
        Ask a; a.s.assign(perm.begin(), perm.begin() + std::min(cnt, g.n)); a.cur = r.below(a.s.size());
        std::ostringstream o2; o2 << "round " << k << " of " << rounds << (reseed ? " reseeding" : "") << " sources"; for (u32 x : a.s) o2 << " " << x; o2 << " current " << a.cur << " depth " << cfg->depthOfPartialRelabeling << " " << g.str(200);
        if (reseed) random_functions::setSeed(cfg->seed);
        switch (r.below(5)) {
        case 0: c.note("fresh object, " + o2.str()); { push_relabel<false, false> f; full(c, f, G, g, a, "fresh", false, 0); } break;
        case 1: c.note("reused object, " + o2.str()); full(c, p, G, g, a, "reused", true, id++); break;
        case 2: c.note("own flow storage, " + o2.str()); full(c, q, G, g, a, "own-storage", false, 0); break;
        case 3: c.note("own flow storage, fresh, " + o2.str()); { push_relabel<false, true> f; full(c, f, G, g, a, "own-storage", false, 0); } break;
        case 4: {
            a.s.resize(2); a.cur = r.below(2);
            u64 want = truth(g, a);
            i64 lim = r.chance(1, 3) ? static_cast<i64>(want) : r.chance(1, 2) ? 1 + static_cast<i64>(r.below(want + 3)) : static_cast<i64>(want + 1 + r.below(want + 2));
            if (lim < 1) lim = 1;
            c.note("limit " + std::to_string(lim) + ", true " + std::to_string(want) + ", " + o2.str());
            std::vector<NodeID> s(a.s.begin(), a.s.end());
            bool set = r.chance(1, 2);
            auto [f, side] = l.solve_max_flow_min_cut(G, s, a.cur, set, lim, id++);
            c.eval(); c.count("flows:limited");
            if (f < lim) c.eq("limited/value", static_cast<i64>(f), static_cast<i64>(want), "result below the limit " + std::to_string(lim));
            else { c.check(static_cast<i64>(want) >= lim, "limited/reached", "returned " + std::to_string(f) + ", limit " + std::to_string(lim) + ", maximum flow is " + std::to_string(want)); c.count("limit reached"); }
            if (f < lim && set) {
                std::vector<char> in(g.n, 0); for (auto v : side) in.at(v) = 1;
                c.check(in[a.s[a.cur]] && !in[a.s[1 - a.cur]], "limited/set", "source set does not separate");
                c.eq("limited/set", cut_weight(g, in), want, "weight of the source set");
            }
            break;
        }
        }
        if (c.fails) return;
    }
    c.check(sorted_edges(from_mg(G)) == before, "input", "the graph was changed");
    auto s = mg_integrity(G); c.check(s.empty(), "integrity", s);
}
int main(int argc, char** argv) { return vf::run_main(argc, argv, one); }
