#pragma once
#include "common.hpp"
namespace vf {
// optimum of the multiway cut with some vertices fixed to blocks; exact
// depth-first branch and bound over assignments of the free vertices
struct MultiwayOracle {
    const Graph& g; const std::vector<u32>& fix; u32 k;
    std::vector<std::vector<std::pair<u32, u64> > > adj;
    std::vector<u32> order, asg, best_asg;
    std::vector<std::vector<u64> > w;     // weight of v to already assigned vertices of each block
    std::vector<u64> tot, mx;
    u64 best = ~0ull, steps = 0, budget;
    bool complete = true;
    MultiwayOracle(const Graph& g, const std::vector<u32>& fix, u32 k, u64 budget)
        : g(g), fix(fix), k(k), adj(g.adj()), asg(g.n, ~0u), w(g.n, std::vector<u64>(k, 0)), tot(g.n, 0), mx(g.n, 0), budget(budget) { }
    u64 cost(const std::vector<u32>& a) const {
        u64 s = 0;
        for (auto& x : g.e) if (a[x.u] != a[x.v]) s += x.w;
        return s;
    }
    void put(u32 v, u32 b) {
        asg[v] = b;
        for (auto& [t, x] : adj[v]) if (asg[t] == ~0u) { w[t][b] += x; tot[t] += x; }
    }
    void take(u32 v, u32 b) {
        for (auto& [t, x] : adj[v]) if (asg[t] == ~0u) { w[t][b] -= x; tot[t] -= x; }
        asg[v] = ~0u;
    }
    void rec(size_t i, u64 c) {
        if (++steps > budget) { complete = false; return; }
        u64 lb = c; u32 pick = ~0u; u64 pw = 0;
        for (u32 v : order) if (asg[v] == ~0u) {
            u64 m = *std::max_element(w[v].begin(), w[v].end());
            lb += tot[v] - m;
            if (pick == ~0u || tot[v] > pw) { pick = v; pw = tot[v]; }
        }
        if (lb >= best) return;
        if (pick == ~0u) { best = c; best_asg = asg; return; }
        std::vector<std::pair<u64, u32> > bl;
        for (u32 b = 0; b < k; ++b) bl.push_back({tot[pick] - w[pick][b], b});
        std::sort(bl.begin(), bl.end());
        for (auto& [x, b] : bl) {
            if (c + x >= best) break;
            put(pick, b); rec(i + 1, c + x); take(pick, b);
            if (!complete) return;
        }
    }
    bool run() {
        for (u32 v = 0; v < g.n; ++v) if (fix[v] == ~0u) order.push_back(v);
        u64 c = 0;
        for (auto& x : g.e) if (fix[x.u] != ~0u && fix[x.v] != ~0u && fix[x.u] != fix[x.v]) c += x.w;
        for (u32 v = 0; v < g.n; ++v) if (fix[v] != ~0u) put(v, fix[v]);
        // start from a feasible assignment so that pruning begins early
        std::vector<u32> a(fix.begin(), fix.end());
        for (auto& x : a) if (x == ~0u) x = 0;
        for (bool ch = true; ch;) {
            ch = false;
            for (u32 v : order) {
                std::vector<u64> q(k, 0);
                for (auto& [t, x] : adj[v]) q[a[t]] += x;
                u32 b = std::max_element(q.begin(), q.end()) - q.begin();
                if (q[b] > q[a[v]]) { a[v] = b; ch = true; }
            }
        }
        best = cost(a) + 1; best_asg = a;
        rec(0, c);
        if (best == cost(a) + 1) best = cost(a);
        return complete;
    }
};
}  // namespace vf
