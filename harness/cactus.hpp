// Reading a cactus: structure checks and the set of cuts it stands for.
#pragma once
#include "vc.hpp"
namespace vf {
struct CactusCuts {
    std::string bad;                 // why it is not a cactus of minimum cuts
    std::set<Bits> cuts;
    u64 tree_edges = 0, cycles = 0, empty = 0, dup = 0, longest = 0;
};
// nverts = vertices of the input graph; every contained list together has to
// partition them
inline CactusCuts read_cactus(const mutableGraphPtr& C, u32 nverts, u64 lambda) {
    CactusCuts R;
    if (!C) { R.bad = "no cactus returned"; return R; }
    u32 k = C->n();
    std::vector<u32> at(nverts, ~0u);
    for (u32 c = 0; c < k; ++c) {
        auto cv = C->containedVertices(c);
        if (cv.empty()) ++R.empty;
        for (auto v : cv) {
            if (v >= nverts) { R.bad = "cactus vertex contains the unknown vertex " + std::to_string(v); return R; }
            if (at[v] != ~0u) { R.bad = "vertex " + std::to_string(v) + " appears in two cactus vertices"; return R; }
            at[v] = c;
        }
    }
    for (u32 v = 0; v < nverts; ++v) {
        if (at[v] == ~0u) { R.bad = "vertex " + std::to_string(v) + " appears in no cactus vertex"; return R; }
        if (C->getCurrentPosition(v) != at[v]) { R.bad = "position of vertex " + std::to_string(v) + " does not name the cactus vertex that contains it"; return R; }
    }
    // depth first search (iterative): tree edges, back edges
    std::vector<std::vector<std::tuple<u32, u64> > > adj(k);
    std::set<std::pair<u32, u32> > pairs;
    for (u32 c = 0; c < k; ++c) for (auto e : C->edges_of(c)) {
        u32 t = C->getEdgeTarget(c, e); u64 w = C->getEdgeWeight(c, e);
        if (t >= k) { R.bad = "edge to a vertex that does not exist"; return R; }
        if (t == c) { R.bad = "self loop in the cactus"; return R; }
        if (!pairs.insert({c, t}).second) { R.bad = "parallel edges in the cactus"; return R; }
        if (w != lambda && !(lambda % 2 == 0 && w == lambda / 2)) { R.bad = "cactus edge of weight " + std::to_string(w); return R; }
        adj[c].push_back({t, w});
    }
    std::vector<u32> par(k, ~0u), depth(k, 0), order, it(k, 0);
    std::vector<u64> pw(k, 0);
    std::vector<char> seen(k, 0);
    std::vector<int> cyc(k, -1);       // cycle of the edge (v, par[v])
    std::vector<std::vector<u32> > cycles;   // child ends, from the bottom
    std::vector<u32> st{0}; seen[0] = 1; order.push_back(0);
    while (!st.empty()) {
        u32 v = st.back();
        if (it[v] == adj[v].size()) { st.pop_back(); continue; }
        auto [t, w] = adj[v][it[v]++];
        if (!seen[t]) { seen[t] = 1; par[t] = v; pw[t] = w; depth[t] = depth[v] + 1; order.push_back(t); st.push_back(t); }
        else if (t != par[v] && depth[t] < depth[v]) {
            if (w == lambda) { R.bad = "cycle edge of full weight"; return R; }
            cycles.push_back({});
            for (u32 x = v; x != t; x = par[x]) {
                if (cyc[x] != -1) { R.bad = "an edge lies on two cycles"; return R; }
                cyc[x] = cycles.size() - 1;
                if (pw[x] == lambda) { R.bad = "cycle edge of full weight"; return R; }
                cycles.back().push_back(x);
            }
        }
    }
    if (order.size() != k) { R.bad = "the cactus is not connected"; return R; }
    u32 words = (nverts + 63) / 64;
    std::vector<Bits> sub(k, Bits(words, 0));
    for (u32 v = 0; v < nverts; ++v) setbit(sub[at[v]], v);
    for (u32 i = k; i-- > 1; ) { u32 v = order[i]; for (u32 w = 0; w < words; ++w) sub[par[v]][w] |= sub[v][w]; }
    auto add = [&](Bits b) {
        if (bit(b, 0)) {
            for (u32 w = 0; w < words; ++w) b[w] = ~b[w];
            for (u32 i = nverts; i < words * 64; ++i) b[i >> 6] &= ~(1ull << (i & 63));
        }
        bool any = false;
        for (u64 x : b) any |= x != 0;
        if (!any) { R.bad = "a cut of the cactus has all vertices on one side"; return; }
        if (!R.cuts.insert(b).second) ++R.dup;
    };
    for (u32 i = 1; i < k; ++i) {
        u32 v = order[i];
        if (cyc[v] == -1) {
            if (pw[v] != lambda) { R.bad = "an edge on no cycle has half weight"; return R; }
            ++R.tree_edges;
            add(sub[v]);
        }
    }
    for (auto& c : cycles) {
        ++R.cycles;
        R.longest = std::max<u64>(R.longest, c.size() + 1);
        if (c.size() < 2) { R.bad = "cycle of length 2"; return R; }
        // child ends c[0] (deepest) .. c.back(); edges: closing edge and (x,par x)
        for (u32 i = 0; i < c.size(); ++i) {
            add(sub[c[i]]);            // edge above c[i] and the closing edge
            for (u32 j = i + 1; j < c.size(); ++j) {
                Bits b = sub[c[j]];
                for (u32 w = 0; w < words; ++w) b[w] &= ~sub[c[i]][w];
                add(b);
            }
        }
        if (!R.bad.empty()) return R;
    }
    return R;
}

// A graph with a rich cactus: a random tree of cycles and edges in which some
// cactus vertices hold no vertex of the graph.  Weights are multiples of a
// unit so that an empty vertex with j junctions is replaced by a complete
// multipartite graph between its junctions.
inline Graph gen_empty_cactus(Rng& r, u32 target, u32 maxlen) {
    struct Stub { u32 to; u64 w; u32 junction; };
    u32 n = 1;
    std::vector<std::vector<std::pair<u32, u32> > > none;
    std::map<std::pair<u32, u32>, u64> m;
    std::vector<std::vector<std::vector<u32> > > junc(1);   // per vertex, per junction: neighbours
    auto nv = [&]() { junc.push_back({}); return n++; };
    while (n < target) {
        u32 at = r.chance(1, 2) ? r.below(n) : (n > 3 ? r.below(3) : 0);
        if (junc[at].size() >= 6) continue;
        if (r.chance(1, 3)) { u32 b = nv(); junc[at].push_back({b}); junc[b].push_back({at}); }
        else {
            u32 len = 3 + r.below(maxlen - 2), prev = at;
            std::vector<u32> c{at};
            for (u32 i = 1; i < len; ++i) { c.push_back(nv()); }
            (void)prev;
            for (u32 i = 0; i < len; ++i) junc[c[i]].push_back({c[(i + 1) % len], c[(i + len - 1) % len]});
        }
    }
    const u64 h = 60;    // edge of a cycle; 2h for a tree edge; divisible by 2(j-1) for j <= 6... (2,4,6,8->no)
    u64 unit = 2;        // 120 / {2,4,6,8,10}: 8 needs 120*k
    u64 H = h * unit;
    std::vector<char> empty(n, 0);
    for (u32 v = 0; v < n; ++v) if (junc[v].size() >= 3 && r.chance(2, 3)) {
        bool ok = true;
        for (auto& j : junc[v]) for (u32 t : j) if (empty[t]) ok = false;
        if (ok) empty[v] = 1;
    }
    std::map<std::pair<u32, u32>, u64> w;
    auto addw = [&](u32 a, u32 b, u64 x) { if (a == b) return; if (a > b) std::swap(a, b); w[{a, b}] += x; };
    for (u32 v = 0; v < n; ++v) {
        if (empty[v]) {
            u32 j = junc[v].size();
            for (u32 a = 0; a < j; ++a) for (u32 b = 0; b < a; ++b)
                for (u32 x : junc[v][a]) for (u32 y : junc[v][b]) {
                    u64 wx = junc[v][a].size() == 1 ? 2 * H : H, wy = junc[v][b].size() == 1 ? 2 * H : H;
                    addw(x, y, wx * wy / (2 * H * (j - 1)));
                }
        } else {
            for (auto& j : junc[v]) for (u32 t : j) if (!empty[t] && v < t) addw(v, t, j.size() == 1 ? 2 * H : H);
        }
    }
    GB b; std::vector<u32> id(n, ~0u);
    for (u32 v = 0; v < n; ++v) if (!empty[v]) id[v] = b.n++;
    u64 g = 0;
    for (auto& [k, x] : w) g = std::__gcd(g, x);
    if (!g) g = 1;
    for (auto& [k, x] : w) b.add(id[k.first], id[k.second], x / g);
    return b.get("empty-cactus");
}
}  // namespace vf
