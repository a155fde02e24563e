// G01: operation histories on the mutable graph against a model that keeps
// sets of original vertices and a weight map.
#include "vc.hpp"
using namespace vf;

struct Model {
    // token -> (contained originals, neighbours)
    struct V { std::set<u32> in; std::map<u32, u64> nb; };
    std::map<u32, V> v;
    u32 next = 0;
    void add_edge(u32 a, u32 b, u64 w) { v[a].nb[b] += w; v[b].nb[a] += w; }
    void merge(u32 keep, u32 gone) {
        auto g = v[gone];
        for (auto& [t, w] : g.nb) { v[t].nb.erase(gone); if (t != keep) { v[keep].nb[t] += w; v[t].nb[keep] += w; } }
        v[keep].nb.erase(gone);
        for (u32 x : g.in) v[keep].in.insert(x);
        v.erase(gone);
    }
    void remove(u32 t) { for (auto& [u, w] : v[t].nb) v[u].nb.erase(t); v.erase(t); }
};

// compares graph with model; pos maps token -> vertex id (found by tag)
static std::string compare(const mutableGraphPtr& G, const Model& m, std::map<u32, NodeID>* pos, const std::set<u32>& live) {
    std::ostringstream o;
    if (G->n() != m.v.size()) { o << "n() is " << G->n() << ", expected " << m.v.size(); return o.str(); }
    if (G->number_of_nodes() != m.v.size()) return "number_of_nodes";
    std::string i = mg_integrity(G, false);
    if (!i.empty()) return i;
    // identify vertices by their contained originals
    std::map<u32, u32> tok_of_orig;
    for (auto& [t, x] : m.v) for (u32 y : x.in) tok_of_orig[y] = t;
    std::vector<u32> tok(G->n(), ~0u);
    pos->clear();
    for (NodeID x : G->nodes()) {
        auto c = G->containedVertices(x);
        if (c.size() != G->numContainedVertices(x)) return "numContainedVertices";
        if (G->isEmpty(x) != c.empty()) return "isEmpty";
        std::set<u32> s(c.begin(), c.end());
        if (s.size() != c.size()) { o << "vertex " << x << " contains an original vertex twice"; return o.str(); }
        u32 t;
        if (c.empty() || !tok_of_orig.count(c[0])) { o << "vertex " << x << " contains unexpected original vertices"; return o.str(); }
        t = tok_of_orig[c[0]];
        if (m.v.at(t).in != s) { o << "vertex " << x << " contains the wrong set of original vertices"; return o.str(); }
        if (pos->count(t)) { o << "block occurs twice"; return o.str(); }
        (*pos)[t] = x; tok[x] = t;
        for (u32 y : c) if (G->getCurrentPosition(y) != x) { o << "original " << y << " is contained in " << x << " but its position is " << G->getCurrentPosition(y); return o.str(); }
    }
    u64 maxd = 0, mind = ~0ull, sum = 0; size_t maxu = 0;
    for (auto& [t, x] : m.v) {
        NodeID id = (*pos)[t];
        std::map<u32, u64> nb;
        for (EdgeID e : G->edges_of(id)) {
            u32 tt = tok[G->getEdgeTarget(id, e)];
            if (nb.count(tt)) { o << "parallel edges at vertex " << id; return o.str(); }
            auto [et, ew] = G->getEdge(id, e);
            if (et != G->getEdgeTarget(id, e) || ew != G->getEdgeWeight(id, e)) return "getEdge";
            nb[tt] = ew;
        }
        if (nb != x.nb) { o << "adjacency of vertex " << id << " differs: got " << nb.size() << " neighbours, expected " << x.nb.size();
            for (auto& [a, w] : x.nb) if (!nb.count(a) || nb[a] != w) { o << "; edge to block " << a << " expected weight " << w << " got " << (nb.count(a) ? nb[a] : 0); break; }
            return o.str(); }
        u64 d = 0; for (auto& p : nb) d += p.second;
        maxd = std::max(maxd, d); mind = std::min(mind, d); sum += d; maxu = std::max(maxu, nb.size());
    }
    if (!m.v.empty()) {
        if (G->getMaxDegree() != maxd) { o << "getMaxDegree " << G->getMaxDegree() << " != " << maxd; return o.str(); }
        if (G->getMinDegree() != mind) { o << "getMinDegree " << G->getMinDegree() << " != " << mind; return o.str(); }
        if (G->getMaxUnweightedDegree() != maxu) return "getMaxUnweightedDegree";
        if (G->sumOfEdgeWeights() != sum) return "sumOfEdgeWeights";
    }
    (void)live;
    return "";
}

static EdgeID find_edge(const mutableGraphPtr& G, NodeID a, NodeID b) {
    for (EdgeID e : G->edges_of(a)) if (G->getEdgeTarget(a, e) == b) return e;
    return UNDEFINED_EDGE;
}

static void history(Ctx& c) {
    Rng& r = c.rng;
    GenOpts o; o.nmin = 1; o.nmax = r.chance(1, 8) ? 60 : 16; o.connected = r.chance(2, 3); o.large = true;
    bool huge = c.mode == "huge";
    Graph g = huge ? gen_huge(r, r.chance(1, 2)) : o.nmax > 16 || r.chance(4, 5) ? gen_graph(r, o) : gen_complete(1 + r.below(10));
    c.note(g.str(80));
    mutableGraphPtr G;
    std::string how;
    switch (r.below(4)) {
    case 0: G = to_mg(g); how = "built"; break;
    case 3: {
        // vertices beyond the announced number
        G = std::make_shared<mutable_graph>();
        G->start_construction(r.below(g.n + 1));
        for (u32 i = 0; i < g.n; ++i) if (!c.eq("new_node id", G->new_node(), i)) return;
        for (auto& x : g.e) G->new_edge_order(x.u, x.v, x.w);
        G->finish_construction(); how = "grown";
        break;
    }
    case 1: G = mutable_graph::from_graph_access(to_ga(g)); how = "converted"; break;
    default: {
        // n() vertices appended one after the other
        G = std::make_shared<mutable_graph>();
        G->start_construction(g.n);
        for (u32 i = 0; i < g.n; ++i) G->new_node();
        for (auto& x : g.e) { u32 a = std::min(x.u, x.v), b = std::max(x.u, x.v); if (x.w == 1) G->new_edge(a, b); else G->new_edge(a, b, x.w); }
        G->finish_construction(); how = "appended";
    }
    }
    Model m;
    std::map<u32, NodeID> pos;
    std::set<u32> live;
    for (u32 i = 0; i < g.n; ++i) { m.v[i].in = {i}; live.insert(i); }
    m.next = g.n;
    for (auto& x : g.e) m.add_edge(x.u, x.v, x.w);
    std::string s = compare(G, m, &pos, live);
    if (!s.empty()) { c.fail("after " + how, s); return; }
    std::string log = how;
    u64 h = g.hash();
    u32 orig = g.n;
    u32 ops = huge ? 10 + r.below(20) : 1 + r.below(c.thorough ? 60 : 25);
    bool deletes = r.chance(1, 3);
    std::string lastop = "construction";
    for (u32 i = 0; i < ops && !m.v.empty(); ++i) {
        std::vector<u32> toks; for (auto& p : m.v) toks.push_back(p.first);
        // tags travel with the vertices
        std::map<u32, std::pair<PartitionID, bool> > tag;
        u32 k = 1000 * i;
        for (u32 t : toks) { PartitionID p = k++; bool b = r.chance(1, 2); tag[t] = {p, b}; G->setPartitionIndex(pos[t], p); G->setNodeInCut(pos[t], b); }
        std::set<u32> touched;
        std::ostringstream op;
        u32 t = r.pick(toks); NodeID v = pos[t];
        bool has = G->get_first_invalid_edge(v) > 0;
        EdgeID e = has ? r.below(G->get_first_invalid_edge(v)) : 0;
        auto tok_at = [&](NodeID id) { for (auto& p : pos) if (p.second == id) return p.first; return ~0u; };
        int what = r.below(12);
        mutableGraphPtr snapshot; Model before;
        bool copy = r.chance(1, 6);
        if (copy) { snapshot = std::make_shared<mutable_graph>(*G); before = m; }
        if (what <= 1 && has) {
            u32 u = tok_at(G->getEdgeTarget(v, e));
            op << "contractEdge(" << v << "," << e << "->" << G->getEdgeTarget(v, e) << ")";
            G->contractEdge(v, e);
            m.merge(t, u); touched = {t, u};
        } else if (what <= 3 && has) {
            u32 u = tok_at(G->getEdgeTarget(v, e));
            op << "contractEdgeSparseTarget(" << v << "," << e << "->" << G->getEdgeTarget(v, e) << ")";
            G->contractEdgeSparseTarget(v, e);
            m.merge(t, u); touched = {t, u};
        } else if (what == 4 && toks.size() > 1) {
            std::vector<u32> no; for (u32 x : toks) if (x != t && !m.v[t].nb.count(x)) no.push_back(x);
            if (no.empty()) continue;
            u32 u = r.pick(no);
            op << "contractSparseTargetNoEdge(" << v << "," << pos[u] << ")";
            G->contractSparseTargetNoEdge(v, pos[u]);
            m.merge(t, u); touched = {t, u};
        } else if (what <= 6) {
            std::unordered_set<NodeID> set; std::vector<u32> ts;
            u32 want = r.below(std::min<size_t>(toks.size(), 7) + 1);
            if (huge && r.chance(1, 2)) want = r.below(toks.size());
            if (r.chance(1, 12)) want = toks.size();
            auto sh = toks; r.shuffle(sh);
            op << "contractVertexSet{";
            for (u32 x = 0; x < want; ++x) { set.insert(pos[sh[x]]); ts.push_back(sh[x]); op << pos[sh[x]] << " "; }
            op << "}";
            G->contractVertexSet(set);
            for (u32 x = 1; x < ts.size(); ++x) m.merge(ts[0], ts[x]);
            touched.insert(ts.begin(), ts.end());
        } else if (what == 7 && has) {
            u32 u = tok_at(G->getEdgeTarget(v, e));
            op << "deleteEdge(" << v << "," << e << "->" << G->getEdgeTarget(v, e) << ")";
            G->deleteEdge(v, e);
            m.v[t].nb.erase(u); m.v[u].nb.erase(t);
        } else if (what == 8 && has) {
            u32 u = tok_at(G->getEdgeTarget(v, e));
            u64 w = 1 + r.below(r.chance(1, 4) ? 1ull << 40 : 20);
            op << "setEdgeWeight(" << v << "," << e << "," << w << ")";
            G->setEdgeWeight(v, e, w);
            m.v[t].nb[u] = w; m.v[u].nb[t] = w;
        } else if (what == 9) {
            std::vector<u32> no; for (u32 x : toks) if (x != t && !m.v[t].nb.count(x)) no.push_back(x);
            if (no.empty()) continue;
            u32 u = r.pick(no); u64 w = 1 + r.below(9);
            op << "new_edge_order(" << v << "," << pos[u] << "," << w << ")";
            G->new_edge_order(v, pos[u], w);
            m.add_edge(t, u, w);
        } else if (what == 10) {
            // split: move some originals of one vertex to a new vertex
            std::vector<u32> big; for (u32 x : toks) if (m.v[x].in.size() > 1) big.push_back(x);
            if (big.empty()) continue;
            t = r.pick(big); v = pos[t];
            NodeID nv = G->new_empty_node();
            op << "new_empty_node -> " << nv;
            if (!c.eq("new_empty_node id", nv, m.v.size(), log)) return;
            if (!c.check(G->isEmpty(nv), "new_empty_node:not-empty", "a new empty vertex contains original vertices; history " + log)) return;
            u32 nt = m.next++;
            std::vector<NodeID> stay, go;
            for (u32 x : m.v[t].in) (r.chance(1, 2) ? stay : go).push_back(x);
            if (go.empty()) { go.push_back(stay.back()); stay.pop_back(); }
            if (stay.empty()) { stay.push_back(go.back()); go.pop_back(); }
            G->setContainedVertices(v, stay);
            for (NodeID x : go) { G->addContainedVertex(nv, x); G->setCurrentPosition(x, nv); }
            m.v[t].in = std::set<u32>(stay.begin(), stay.end());
            m.v[nt].in = std::set<u32>(go.begin(), go.end());
            u64 w = 1 + r.below(9);
            G->new_edge_order(nv, v, w); m.add_edge(nt, t, w);
        } else if (what == 11 && deletes && toks.size() > 1) {
            op << "deleteVertex(" << v << ")";
            for (u32 x : m.v[t].in) live.erase(x);
            G->deleteVertex(v);
            m.remove(t);
            touched = {t};
        } else continue;
        lastop = op.str().substr(0, op.str().find_first_of("( {"));
        log += "; " + op.str();
        if (log.size() > 20000) log = log.substr(log.size() - 4000);
        c.note(g.str(60) + " | " + log.substr(log.size() > 900 ? log.size() - 900 : 0));
        h = mix(h, hash_str(op.str()));
        c.count("operations");
        c.count("op " + lastop);
        s = compare(G, m, &pos, live);
        if (!s.empty()) { c.fail("after " + lastop, s + " | " + log); return; }
        for (auto& [tk, x] : m.v) if (!touched.count(tk) && tag.count(tk)) {
            if (G->getPartitionIndex(pos[tk]) != tag[tk].first || G->getNodeInCut(pos[tk]) != tag[tk].second) {
                c.fail("attributes after " + lastop, "the partition index or cut flag of an untouched vertex changed | " + log); return;
            }
        }
        if (copy) {
            std::map<u32, NodeID> p2;
            std::string s2 = compare(snapshot, before, &p2, live);
            c.count("copies compared");
            if (!s2.empty()) { c.fail("copy changed", s2 + " | " + log); return; }
        }
    }
    (void)orig;
    c.eval();
    if (g.e.size() > 1) c.nontrivial(h);
    c.sample(g.str(30) + " | " + log.substr(0, 300));
}

// edge flow values are per problem id
static void flows(Ctx& c) {
    Rng& r = c.rng;
    GenOpts o; o.nmin = 2; o.nmax = 10;
    Graph g = gen_graph(r, o);
    auto G = to_mg(g);
    c.note(g.str(40));
    std::map<std::pair<u32, u32>, std::pair<i64, size_t> > model;
    std::vector<std::pair<u32, u32> > arcs;
    for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v)) arcs.push_back({v, (u32)e});
    for (auto& a : arcs) model[a] = {0, 0};
    u64 h = g.hash();
    for (u32 i = 0; i < 200; ++i) {
        auto a = r.pick(arcs); size_t p = r.below(3); i64 f = r.range(-20, 20);
        auto& m = model[a];
        int op = r.below(3);
        h = mix(h, op * 7 + p);
        if (op == 0) { G->setEdgeFlow(a.first, a.second, f, p); m = {f, p}; }
        else if (op == 1) { G->addEdgeFlow(a.first, a.second, f, p); if (m.second == p) m.first += f; else m = {f, p}; }
        else {
            i64 want = m.second == p ? m.first : 0;
            if (m.second != p) m = {0, p};
            if (!c.eq("edge flow", (i64)G->getEdgeFlow(a.first, a.second, p), want, "problem " + std::to_string(p))) return;
        }
        if (!c.eq("stored edge flow", (i64)G->getEdgeFlow(a.first, a.second), m.first)) return;
        c.count("flow operations");
    }
    c.eval(); c.nontrivial(h);
}

static void one(Ctx& c) { if (c.mode != "huge" && c.index % 20 == 19) flows(c); else history(c); }
int main(int argc, char** argv) { silence(); return run_main(argc, argv, one); }
