// Shared machinery of all harnesses: seeded randomness, graph generators,
// independent oracles (written from the definitions, sharing no code with
// VieCut), and the case runner that reports to check.py.
#pragma once
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vf {
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline u64 mix(u64 a, u64 b) { return mix(mix(a) ^ (b * 0xd6e8feb86659fd93ULL)); }
inline u64 hash_str(const std::string& s) {
    u64 h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(mix(seed)) { }
    u64 next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
    // uniform in [0, n)
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 lo, i64 hi) { return lo + static_cast<i64>(below(hi - lo + 1)); }
    bool chance(int num, int den) { return below(den) < static_cast<u64>(num); }
    double unit() { return (next() >> 11) * 0x1.0p-53; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T> void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    }
};

// ---------------------------------------------------------------- graphs --
struct Edge { u32 u, v; u64 w; };
struct Graph {
    u32 n = 0;
    std::vector<Edge> e;     // u != v, no parallel edges unless said otherwise
    std::string desc;

    std::vector<std::vector<std::pair<u32, u64> > > adj() const {
        std::vector<std::vector<std::pair<u32, u64> > > a(n);
        for (auto& x : e) { a[x.u].emplace_back(x.v, x.w); a[x.v].emplace_back(x.u, x.w); }
        return a;
    }
    u64 hash() const {
        u64 h = mix(n);
        for (auto& x : e) h = mix(h, (static_cast<u64>(x.u) << 32 | x.v) * 31 + x.w);
        return h;
    }
    u64 total() const { u64 s = 0; for (auto& x : e) s += x.w; return s; }
    std::string str(size_t maxe = 400) const {
        std::ostringstream o;
        o << "n=" << n << " m=" << e.size() << " [" << desc << "]";
        if (e.size() <= maxe) {
            o << " edges:";
            for (auto& x : e) { o << " " << x.u << "-" << x.v; if (x.w != 1) o << ":" << x.w; }
        }
        return o.str();
    }
    bool connected() const {
        if (n == 0) return true;
        auto a = adj();
        std::vector<char> s(n, 0); std::vector<u32> q{0}; s[0] = 1;
        for (size_t i = 0; i < q.size(); ++i)
            for (auto [t, w] : a[q[i]]) { (void)w; if (!s[t]) { s[t] = 1; q.push_back(t); } }
        return q.size() == n;
    }
    std::vector<u32> components(u32* cnt = nullptr) const {
        auto a = adj();
        std::vector<u32> c(n, ~0u); u32 k = 0;
        for (u32 r = 0; r < n; ++r) if (c[r] == ~0u) {
            std::vector<u32> q{r}; c[r] = k;
            for (size_t i = 0; i < q.size(); ++i)
                for (auto& p : a[q[i]]) if (c[p.first] == ~0u) { c[p.first] = k; q.push_back(p.first); }
            ++k;
        }
        if (cnt) *cnt = k;
        return c;
    }
};

// merges parallel edges, drops self loops, normalises u<v
inline Graph normalise(const Graph& g) {
    std::map<std::pair<u32, u32>, u64> m;
    for (auto x : g.e) if (x.u != x.v) m[{std::min(x.u, x.v), std::max(x.u, x.v)}] += x.w;
    Graph r; r.n = g.n; r.desc = g.desc;
    for (auto& [k, w] : m) r.e.push_back({k.first, k.second, w});
    return r;
}

struct GB {  // graph builder
    u32 n = 0;
    std::map<std::pair<u32, u32>, u64> m;
    bool add(u32 a, u32 b, u64 w = 1) {
        if (a == b) return false;
        if (a > b) std::swap(a, b);
        return m.emplace(std::make_pair(a, b), w).second;
    }
    bool has(u32 a, u32 b) const {
        if (a > b) std::swap(a, b);
        return m.count({a, b}) > 0;
    }
    Graph get(const std::string& d) const {
        Graph g; g.n = n; g.desc = d;
        for (auto& [k, w] : m) g.e.push_back({k.first, k.second, w});
        return g;
    }
};

inline Graph relabel(const Graph& g, Rng& r) {
    std::vector<u32> p(g.n);
    std::iota(p.begin(), p.end(), 0u);
    r.shuffle(p);
    Graph o; o.n = g.n; o.desc = g.desc;
    for (auto x : g.e) {
        u32 a = p[x.u], b = p[x.v];
        o.e.push_back({std::min(a, b), std::max(a, b), x.w});
    }
    r.shuffle(o.e);
    return o;
}

// connects the components by random edges of weight w
inline void connect(Graph& g, Rng& r, u64 w = 1) {
    u32 k; auto c = g.components(&k);
    if (k <= 1) return;
    std::vector<std::vector<u32> > mem(k);
    for (u32 i = 0; i < g.n; ++i) mem[c[i]].push_back(i);
    for (u32 i = 1; i < k; ++i) {
        u32 a = r.pick(mem[i]), b = r.pick(mem[r.below(i)]);
        g.e.push_back({std::min(a, b), std::max(a, b), w});
    }
}

inline Graph gen_gnp(Rng& r, u32 n, double p) {
    GB b; b.n = n;
    for (u32 i = 0; i < n; ++i) for (u32 j = i + 1; j < n; ++j) if (r.unit() < p) b.add(i, j);
    return b.get("gnp");
}
inline Graph gen_gnm(Rng& r, u32 n, u64 m) {
    GB b; b.n = n;
    u64 mx = static_cast<u64>(n) * (n - 1) / 2;
    if (m > mx) m = mx;
    for (u64 t = 0; b.m.size() < m && t < 20 * m + 100; ++t) b.add(r.below(n), r.below(n));
    return b.get("gnm");
}
inline Graph gen_cycle(u32 n) {
    GB b; b.n = n;
    for (u32 i = 0; i < n; ++i) b.add(i, (i + 1) % n);
    return b.get("cycle");
}
inline Graph gen_path(u32 n) {
    GB b; b.n = n;
    for (u32 i = 0; i + 1 < n; ++i) b.add(i, i + 1);
    return b.get("path");
}
inline Graph gen_star(u32 n) {
    GB b; b.n = n;
    for (u32 i = 1; i < n; ++i) b.add(0, i);
    return b.get("star");
}
inline Graph gen_complete(u32 n) {
    GB b; b.n = n;
    for (u32 i = 0; i < n; ++i) for (u32 j = i + 1; j < n; ++j) b.add(i, j);
    return b.get("complete");
}
inline Graph gen_bipartite(u32 a, u32 c) {
    GB b; b.n = a + c;
    for (u32 i = 0; i < a; ++i) for (u32 j = 0; j < c; ++j) b.add(i, a + j);
    return b.get("kbip");
}
inline Graph gen_grid(u32 a, u32 c, bool torus) {
    GB b; b.n = a * c;
    for (u32 i = 0; i < a; ++i) for (u32 j = 0; j < c; ++j) {
        if (j + 1 < c) b.add(i * c + j, i * c + j + 1); else if (torus && c > 2) b.add(i * c + j, i * c);
        if (i + 1 < a) b.add(i * c + j, (i + 1) * c + j); else if (torus && a > 2) b.add(i * c + j, j);
    }
    return b.get(torus ? "torus" : "grid");
}
inline Graph gen_hypercube(u32 d) {
    GB b; b.n = 1u << d;
    for (u32 i = 0; i < b.n; ++i) for (u32 k = 0; k < d; ++k) b.add(i, i ^ (1u << k));
    return b.get("hypercube");
}
inline Graph gen_tree_plus(Rng& r, u32 n, u32 extra) {
    GB b; b.n = n;
    bool deep = r.chance(1, 2);
    for (u32 i = 1; i < n; ++i) b.add(i, deep ? (i - 1 - r.below(std::min<u32>(i, 3))) : r.below(i));
    for (u32 i = 0; i < extra; ++i) b.add(r.below(n), r.below(n));
    return b.get("tree+");
}
// blocks (near-cliques) joined along a random tree/cycle structure by `cut` unit edges:
// many equal small cuts, nontrivial minimum cuts
inline Graph gen_blocks(Rng& r, u32 blocks, u32 lo, u32 hi, bool ring) {
    GB b; std::vector<std::vector<u32> > bl(blocks);
    for (auto& x : bl) {
        u32 s = lo + r.below(hi - lo + 1);
        for (u32 i = 0; i < s; ++i) x.push_back(b.n++);
    }
    for (auto& x : bl) {
        double p = r.chance(1, 2) ? 1.0 : 0.8;
        for (size_t i = 0; i < x.size(); ++i) {
            if (i) b.add(x[i], x[r.below(i)]);
            for (size_t j = 0; j < i; ++j) if (r.unit() < p) b.add(x[i], x[j]);
        }
    }
    u32 c = 1 + r.below(2);
    auto join = [&](u32 x, u32 y) {
        for (u32 t = 0, done = 0; t < 20 && done < c; ++t) if (b.add(r.pick(bl[x]), r.pick(bl[y]))) ++done;
    };
    if (ring) { if (blocks > 1) for (u32 i = 0; i < blocks; ++i) join(i, (i + 1) % blocks); }
    else for (u32 i = 1; i < blocks; ++i) join(i, r.below(i));
    return b.get(ring ? "ring-of-blocks" : "tree-of-blocks");
}
// random cactus: cycles (edges weight h) and tree edges (weight 2h) glued at
// vertices, optionally blowing each vertex up into a heavy clique.
inline Graph gen_cactus(Rng& r, u32 target, u64 h, bool blow) {
    GB b; b.n = 1;
    while (b.n < target) {
        u32 at = r.below(b.n);
        if (r.chance(1, 3)) { b.add(at, b.n, 2 * h); ++b.n; }
        else {
            u32 len = 3 + r.below(4), prev = at;
            for (u32 i = 1; i < len; ++i) { b.add(prev, b.n, h); prev = b.n++; }
            b.add(prev, at, h);
        }
    }
    if (!blow) return b.get("cactus");
    GB c; std::vector<std::vector<u32> > mem(b.n);
    for (u32 i = 0; i < b.n; ++i) {
        u32 s = r.chance(1, 2) ? 1 : 2 + r.below(3);
        for (u32 k = 0; k < s; ++k) mem[i].push_back(c.n++);
        for (u32 k = 0; k < s; ++k) for (u32 l = 0; l < k; ++l) c.add(mem[i][k], mem[i][l], 2 * h + r.below(2 * h + 1));
    }
    for (auto& [k, w] : b.m) {
        // split the weight over possibly several representatives
        u64 left = w;
        while (left) {
            u64 part = r.chance(1, 2) ? left : 1 + r.below(left);
            u32 a = r.pick(mem[k.first]), d = r.pick(mem[k.second]);
            if (!c.add(a, d, part)) {
                if (a > d) std::swap(a, d);
                c.m[{a, d}] += part;
            }
            left -= part;
        }
    }
    return c.get("blown-cactus");
}
inline Graph gen_barbell(u32 k, u32 bridge) {
    GB b; b.n = 2 * k + bridge;
    for (u32 s = 0; s < 2; ++s) for (u32 i = 0; i < k; ++i) for (u32 j = 0; j < i; ++j) b.add(s * k + i, s * k + j);
    u32 prev = 0;
    for (u32 i = 0; i < bridge; ++i) { b.add(prev, 2 * k + i); prev = 2 * k + i; }
    b.add(prev, k);
    return b.get("barbell");
}
inline Graph gen_wheel(u32 n) {
    GB b; b.n = n;
    for (u32 i = 1; i < n; ++i) { b.add(0, i); b.add(i, i + 1 < n ? i + 1 : 1); }
    return b.get("wheel");
}
inline Graph gen_circulant(Rng& r, u32 n) {
    GB b; b.n = n;
    u32 k = 1 + r.below(3);
    for (u32 t = 0; t < k; ++t) { u32 s = t == 0 ? 1 : 1 + r.below(n - 1); for (u32 i = 0; i < n; ++i) b.add(i, (i + s) % n); }
    return b.get("circulant");
}

enum Weights { W_KEEP, W_UNIT, W_SMALL, W_MED, W_SKEW, W_LARGE };
inline void reweight(Graph& g, Rng& r, Weights k) {
    switch (k) {
    case W_KEEP: break;
    case W_UNIT: for (auto& x : g.e) x.w = 1; break;
    case W_SMALL: for (auto& x : g.e) x.w = 1 + r.below(3); g.desc += "/w<=3"; break;
    case W_MED: for (auto& x : g.e) x.w = 1 + r.below(100); g.desc += "/w<=100"; break;
    case W_SKEW: for (auto& x : g.e) x.w = r.chance(1, 6) ? 1 + r.below(1000) : 1 + r.below(4); g.desc += "/wskew"; break;
    case W_LARGE: {
        u64 base = 1ull << (20 + r.below(20));
        for (auto& x : g.e) x.w = base + r.below(base);
        g.desc += "/wlarge";
        break;
    }
    }
}

struct GenOpts {
    u32 nmin = 2, nmax = 14;
    bool connected = true;
    bool large = false;       // weights beyond 32 bits
    bool unit = false;        // unit weights only
};
inline Graph gen_graph(Rng& r, const GenOpts& o) {
    Graph g;
    for (int attempt = 0;; ++attempt) {
        u32 n = o.nmin + r.below(o.nmax - o.nmin + 1);
        switch (r.below(18)) {
        case 0: case 1: g = gen_gnp(r, n, 0.1 + 0.8 * r.unit()); break;
        case 2: g = gen_gnm(r, n, n + r.below(n + 1)); break;
        case 3: g = gen_cycle(std::max(3u, n)); break;
        case 4: g = gen_tree_plus(r, n, r.below(n / 2 + 2)); break;
        case 5: case 6: {
            u32 k = 2 + r.below(std::max(1u, std::min(n / 3, 6u)));
            u32 s = std::max(1u, n / k);
            g = gen_blocks(r, k, std::max(1u, s - 1), s, r.chance(1, 2)); break;
        }
        case 7: case 8: g = gen_cactus(r, std::max(3u, n / 2), 1 + r.below(3), true); break;
        case 9: g = gen_cactus(r, n > 6 ? n - 3 : 3u, 1 + r.below(3), false); break;
        case 10: { u32 a = 2 + r.below(std::max(1u, std::min(n / 2, 6u))); g = gen_grid(a, std::max(1u, n / a), r.chance(1, 2)); break; }
        case 11: g = n < 25 ? gen_complete(n) : gen_circulant(r, n); break;
        case 12: { u32 d = 1; while ((2u << d) <= n) ++d; g = gen_hypercube(d); break; }
        case 13: g = r.chance(1, 2) ? gen_star(n) : gen_path(n); break;
        case 14: g = gen_barbell(std::max(2u, n / 3), r.below(std::max(1u, n / 3))); break;
        case 15: g = gen_wheel(std::max(4u, n)); break;
        case 16: g = gen_circulant(r, std::max(3u, n)); break;
        case 17: { u32 a = 1 + r.below(std::max(1u, n / 2)); g = gen_bipartite(a, std::max(1u, n - a)); break; }
        }
        if (g.n < o.nmin || g.n > o.nmax) { if (attempt < 50) continue; g = gen_gnp(r, n, 0.5); }
        break;
    }
    if (o.unit) reweight(g, r, W_UNIT);
    else if (o.large && r.chance(1, 4)) reweight(g, r, W_LARGE);
    else {
        Weights k[] = {W_KEEP, W_KEEP, W_UNIT, W_SMALL, W_MED, W_SKEW};
        reweight(g, r, k[r.below(6)]);
    }
    if (o.connected) connect(g, r, 1 + (o.unit ? 0 : r.below(3)));
    if (r.chance(3, 4)) g = relabel(g, r);
    return g;
}

// more than 2^16 vertices, edges at one vertex, or parts
inline Graph gen_huge(Rng& r, bool connected = true) {
    u32 n = 65530 + r.below(12) + (r.chance(1, 2) ? r.below(30000) : 0);
    Graph g; g.n = n;
    auto add = [&](u32 a, u32 b) { if (a != b) g.e.push_back({std::min(a, b), std::max(a, b), 1}); };
    switch (r.below(5)) {
    case 0: for (u32 i = 1; i < n; ++i) add(0, i); for (u32 i = r.below(n); i > 0; --i) add(r.below(n), r.below(n)); g.desc = "huge star+"; break;
    case 1: for (u32 i = 0; i < n; ++i) add(i, (i + 1) % n); for (u32 i = r.below(n); i > 0; --i) add(r.below(n), r.below(n)); g.desc = "huge cycle+"; break;
    case 2: for (u32 i = 1; i < n; ++i) { add(i, r.below(i)); add(i, r.below(i)); } g.desc = "huge attachment"; break;
    case 3: { // few vertices of large degree
        u32 h = 2 + r.below(3);
        for (u32 i = h; i < n; ++i) for (u32 k = 0; k < h; ++k) if (r.chance(7, 8)) add(k, i);
        g.desc = "huge bipartite"; break;
    }
    default: for (u32 i = 1; i < n; ++i) add(i, i - 1 - r.below(std::min(i, 40u))); for (u32 i = 0; i < n; ++i) { u32 a = r.below(n); add(a, std::min<u32>(n - 1, a + 1 + r.below(60))); } g.desc = "huge band"; break;
    }
    std::string d = g.desc;
    g = normalise(g); g.desc = d;
    for (auto& x : g.e) x.w = 1;
    Weights k[] = {W_UNIT, W_SMALL, W_MED, W_LARGE};
    reweight(g, r, k[r.below(4)]);
    if (connected) connect(g, r, 1 + r.below(3));
    if (r.chance(2, 3)) g = relabel(g, r);
    return g;
}

// --------------------------------------------------------------- oracles --
inline u64 cut_weight(const Graph& g, const std::vector<char>& side) {
    u64 s = 0;
    for (auto& x : g.e) if (side[x.u] != side[x.v]) s += x.w;
    return s;
}

// all cuts by Gray code, side of vertex n-1 fixed to 0. f(mask, weight).
template <class F> void all_cuts(const Graph& g, F f) {
    u32 n = g.n;
    if (n < 2) return;
    auto a = g.adj();
    u64 cur = 0, mask = 0;
    for (u64 i = 1; i < (1ull << (n - 1)); ++i) {
        u32 b = __builtin_ctzll(i);
        bool in = mask >> b & 1;
        for (auto& [t, w] : a[b]) {
            bool tin = mask >> t & 1;
            if (tin == in) cur += w; else cur -= w;
        }
        mask ^= 1ull << b;
        f(mask, cur);
    }
}
struct BruteCuts { u64 value = ~0ull; std::vector<u64> masks; };
inline BruteCuts brute_mincuts(const Graph& g) {
    BruteCuts r;
    all_cuts(g, [&](u64 m, u64 w) {
        if (w < r.value) { r.value = w; r.masks.clear(); }
        if (w == r.value) r.masks.push_back(m);
    });
    return r;
}

// Stoer-Wagner, O(n^3); value ~0 when n < 2
inline u64 stoer_wagner(const Graph& g) {
    u32 n = g.n;
    if (n < 2) return ~0ull;
    std::vector<std::vector<u64> > w(n, std::vector<u64>(n, 0));
    for (auto& x : g.e) { w[x.u][x.v] += x.w; w[x.v][x.u] += x.w; }
    std::vector<u32> act(n);
    std::iota(act.begin(), act.end(), 0u);
    u64 best = ~0ull;
    while (act.size() > 1) {
        std::vector<u64> d(act.size(), 0);
        std::vector<char> in(act.size(), 0);
        size_t prev = 0, last = 0;
        for (size_t it = 0; it < act.size(); ++it) {
            size_t s = ~size_t(0);
            for (size_t i = 0; i < act.size(); ++i) if (!in[i] && (s == ~size_t(0) || d[i] > d[s])) s = i;
            in[s] = 1; prev = last; last = s;
            if (it + 1 == act.size()) best = std::min(best, d[s]);
            for (size_t i = 0; i < act.size(); ++i) if (!in[i]) d[i] += w[act[s]][act[i]];
        }
        u32 a = act[prev], b = act[last];
        for (u32 v : act) { w[a][v] += w[b][v]; w[v][a] = w[a][v]; }
        w[a][a] = 0;
        act.erase(act.begin() + last);
    }
    return best;
}

// Exact for large sparse graphs: repeated maximum-adjacency orders.  For
// consecutive edges of the order, q(e) bounds the connectivity of the end
// points from below, so an edge with q(e) >= best can be contracted; the last
// two vertices of the order give one contraction per round in any case.
inline u64 ma_mincut(const Graph& g0) {
    Graph g = normalise(g0);
    u64 best = ~0ull;
    if (g.n < 2) return best;
    while (g.n > 1) {
        auto a = g.adj();
        for (u32 v = 0; v < g.n; ++v) { u64 d = 0; for (auto& p : a[v]) d += p.second; best = std::min(best, d); }
        if (best == 0) return 0;
        std::vector<u32> par(g.n);
        std::iota(par.begin(), par.end(), 0u);
        std::function<u32(u32)> find = [&](u32 x) { while (par[x] != x) x = par[x] = par[par[x]]; return x; };
        std::vector<u64> r(g.n, 0); std::vector<char> in(g.n, 0);
        std::priority_queue<std::pair<u64, u32> > q;
        u32 seen = 0, last = 0;
        q.push({0, 0});
        while (!q.empty()) {
            auto [k, v] = q.top(); q.pop();
            if (in[v] || k != r[v]) continue;
            in[v] = 1; ++seen; last = v;
            for (auto& [t, w] : a[v]) if (!in[t]) {
                r[t] += w;
                if (r[t] >= best) par[find(t)] = find(v);
                q.push({r[t], t});
            }
        }
        if (seen < g.n) return 0;     // not connected
        (void)last;
        std::vector<u32> id(g.n, ~0u); u32 k = 0;
        for (u32 v = 0; v < g.n; ++v) { u32 f = find(v); if (id[f] == ~0u) id[f] = k++; }
        Graph h; h.n = k;
        for (auto& x : g.e) h.e.push_back({id[find(x.u)], id[find(x.v)], x.w});
        g = normalise(h);
    }
    return best;
}

// Dinic on an undirected weighted graph
struct Dinic {
    struct E { u32 to; u64 cap; };
    std::vector<E> es; std::vector<std::vector<u32> > g; std::vector<int> lv; std::vector<size_t> it;
    explicit Dinic(u32 n) : g(n) { }
    void und(u32 a, u32 b, u64 w) { g[a].push_back(es.size()); es.push_back({b, w}); g[b].push_back(es.size()); es.push_back({a, w}); }
    void dir(u32 a, u32 b, u64 w) { g[a].push_back(es.size()); es.push_back({b, w}); g[b].push_back(es.size()); es.push_back({a, 0}); }
    bool bfs(u32 s, u32 t) {
        lv.assign(g.size(), -1); lv[s] = 0; std::vector<u32> q{s};
        for (size_t i = 0; i < q.size(); ++i) for (u32 id : g[q[i]])
            if (es[id].cap && lv[es[id].to] < 0) { lv[es[id].to] = lv[q[i]] + 1; q.push_back(es[id].to); }
        return lv[t] >= 0;
    }
    u64 dfs(u32 v, u32 t, u64 f) {
        if (v == t) return f;
        u64 sum = 0;
        for (size_t& i = it[v]; i < g[v].size(); ++i) {
            u32 id = g[v][i];
            if (es[id].cap && lv[es[id].to] == lv[v] + 1) {
                u64 d = dfs(es[id].to, t, std::min(f - sum, es[id].cap));
                es[id].cap -= d; es[id ^ 1].cap += d; sum += d;
                if (sum == f) return sum;
            }
        }
        return sum;
    }
    u64 run(u32 s, u32 t) {
        u64 f = 0;
        while (bfs(s, t)) { it.assign(g.size(), 0); f += dfs(s, t, ~0ull >> 2); }
        return f;
    }
    std::vector<char> source_side(u32 s) {
        std::vector<char> r(g.size(), 0); r[s] = 1; std::vector<u32> q{s};
        for (size_t i = 0; i < q.size(); ++i) for (u32 id : g[q[i]])
            if (es[id].cap && !r[es[id].to]) { r[es[id].to] = 1; q.push_back(es[id].to); }
        return r;
    }
};

// All minimum cuts of a connected graph, without exponential enumeration of
// cuts: order v0..vn-1 by connectivity; for every i enumerate the minimum cuts
// that keep v0..v(i-1) together and separate vi (closed sets of the residual
// graph).  Each cut is a sorted-canonical bitset (vertex 0 on side 0).
using Bits = std::vector<u64>;
inline bool bit(const Bits& b, u32 i) { return b[i >> 6] >> (i & 63) & 1; }
inline void setbit(Bits& b, u32 i) { b[i >> 6] |= 1ull << (i & 63); }
inline Bits canon(const std::vector<char>& side) {
    Bits b((side.size() + 63) / 64, 0);
    for (u32 i = 0; i < side.size(); ++i) if (side[i] != side[0]) setbit(b, i);
    return b;
}
struct AllCuts { u64 value = ~0ull; std::set<Bits> cuts; bool truncated = false; };
inline AllCuts all_mincuts(const Graph& g, size_t limit = 200000) {
    AllCuts res;
    u32 n = g.n;
    if (n < 2) return res;
    u64 lambda = stoer_wagner(g);
    res.value = lambda;
    auto a = g.adj();
    // maximum-adjacency order starting in 0 so that prefixes are connected
    std::vector<u32> order; {
        std::vector<char> in(n, 0); std::vector<u64> d(n, 0);
        for (u32 k = 0; k < n; ++k) {
            u32 b = ~0u;
            for (u32 i = 0; i < n; ++i) if (!in[i] && (b == ~0u || d[i] > d[b])) b = i;
            if (k == 0) b = 0;
            in[b] = 1; order.push_back(b);
            for (auto& [t, w] : a[b]) d[t] += w;
        }
    }
    std::vector<char> pre(n, 0);
    pre[order[0]] = 1;
    for (u32 i = 1; i < n; ++i) {
        u32 t = order[i];
        // contracted source = n
        Dinic D(n + 1);
        auto id = [&](u32 v) { return pre[v] ? n : v; };
        for (auto& x : g.e) if (id(x.u) != id(x.v)) D.und(id(x.u), id(x.v), x.w);
        u64 f = D.run(n, t);
        if (f == lambda) {
            // residual reachability closure: S closed under residual arcs
            // (u in S, cap(u->v)>0 => v in S), contains source, not t.
            std::vector<std::vector<u32> > out(n + 1);
            for (u32 v = 0; v <= n; ++v) for (u32 e : D.g[v]) if (D.es[e].cap) out[v].push_back(D.es[e].to);
            // forced in = reachable from source; forced out = reaches t
            std::vector<char> st(n + 1, 0);   // 1 in, 2 out, 0 free
            for (u32 v = 0; v < n; ++v) if (pre[v]) st[v] = 1;
            std::vector<std::vector<u32> > inn(n + 1);
            for (u32 v = 0; v <= n; ++v) for (u32 w : out[v]) inn[w].push_back(v);
            auto spread = [&](std::vector<char>& s, u32 v, char val, const std::vector<std::vector<u32> >& ad) {
                std::vector<u32> q{v}; s[v] = val;
                for (size_t k = 0; k < q.size(); ++k) for (u32 w : ad[q[k]]) {
                    if (s[w] == val) continue;
                    if (s[w]) return false;
                    s[w] = val; q.push_back(w);
                }
                return true;
            };
            bool ok = spread(st, n, 1, out) && spread(st, t, 2, inn);
            std::function<void(std::vector<char>)> rec = [&](std::vector<char> s) {
                if (res.truncated) return;
                u32 fr = ~0u;
                for (u32 v = 0; v < n; ++v) if (!s[v]) { fr = v; break; }
                if (fr == ~0u) {
                    std::vector<char> side(n);
                    for (u32 v = 0; v < n; ++v) side[v] = s[v] == 2;
                    res.cuts.insert(canon(side));
                    if (res.cuts.size() > limit) res.truncated = true;
                    return;
                }
                auto s1 = s; if (spread(s1, fr, 1, out)) rec(std::move(s1));
                if (spread(s, fr, 2, inn)) rec(std::move(s));
            };
            if (ok) rec(st);
        }
        pre[t] = 1;
        if (res.truncated) break;
    }
    return res;
}

// The scheduler (sched.cpp) is there in the variants that are linked with it.
extern "C" {
struct VfSched { u64 steps, switches, hash, threads; };
__attribute__((weak)) void vf_sched_begin(u64 seed);
__attribute__((weak)) void vf_sched_end(VfSched* s);
__attribute__((weak)) void vf_sched_pause(int d);
}
// what the harness does for its own records is no place to switch threads (and
// costs a different number of steps in every run)
struct Quiet { Quiet() { if (vf_sched_pause) vf_sched_pause(1); } ~Quiet() { if (vf_sched_pause) vf_sched_pause(-1); } };

// ----------------------------------------------------------- case runner --
struct Shared {            // mmap'd status, survives a crash of the process
    volatile u64 cur;      // index of the running case
    volatile u64 done;
    char note[4096];       // description of the running case
};

struct Args {
    u64 seed = 1, start = 0, count = 1, stride = 1;
    std::string tier = "quick", out, scratch, mode;
    double limit = 60;     // seconds per case
    bool verbose = false;
};

struct Ctx;
struct Runner {
    Args a;
    Shared* sh = nullptr;
    FILE* out = nullptr;
    std::map<std::string, u64> counters;
    std::map<std::string, std::set<u64> > sets;
    u64 evals = 0, violations = 0;
    std::vector<std::string> samples;
    std::mutex m;
};
inline Runner& R() { static Runner r; return r; }

inline std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

struct Ctx {
    u64 index; Rng rng; bool thorough; bool verbose; std::string scratch, mode;
    u64 fails = 0;
    Ctx(u64 i, u64 seed) : index(i), rng(mix(seed, i)) { }
    void note(const std::string& s) {
        Quiet q;
        strncpy(R().sh->note, s.c_str(), sizeof(R().sh->note) - 1);
        if (verbose) fprintf(stderr, "case %lu: %s\n", (unsigned long)index, s.c_str());
    }
    // key identifies *what* failed, detail the witness
    void fail(const std::string& key, const std::string& detail) {
        Quiet q;
        std::lock_guard<std::mutex> g(R().m);
        ++fails; ++R().violations;
        if (fails > 5) return;
        fprintf(R().out, "{\"t\":\"violation\",\"case\":%lu,\"from\":%lu,\"key\":%s,\"detail\":%s,\"note\":%s}\n",
                (unsigned long)index, (unsigned long)R().a.start, jstr(key).c_str(), jstr(detail).c_str(), jstr(R().sh->note).c_str());
        fflush(R().out);
    }
    template <class A, class B>
    bool eq(const std::string& key, const A& got, const B& want, const std::string& extra = "") {
        if (got == want) return true;
        std::ostringstream o; o << "got " << +got << ", expected " << +want; if (!extra.empty()) o << "; " << extra;
        fail(key, o.str());
        return false;
    }
    bool check(bool ok, const std::string& key, const std::string& detail) { if (!ok) fail(key, detail); return ok; }
    void count(const std::string& k, u64 d = 1) { Quiet q; std::lock_guard<std::mutex> g(R().m); R().counters[k] += d; }
    void distinct(const std::string& k, u64 h) {
        Quiet q;
        std::lock_guard<std::mutex> g(R().m);
        auto& s = R().sets[k]; if (s.size() < 400000) s.insert(h);
    }
    void eval(u64 d = 1) { Quiet q; std::lock_guard<std::mutex> g(R().m); R().evals += d; }
    void nontrivial(u64 h) { distinct("nontrivial", h); }
    void sample(const std::string& s) { Quiet q; if (R().samples.size() < 3) R().samples.push_back(s); }
};

inline void flush_stats(const char* how) {
    Runner& r = R();
    if (!r.out) return;
    fprintf(r.out, "{\"t\":\"stats\",\"how\":\"%s\",\"evals\":%lu,\"counters\":{", how, (unsigned long)r.evals);
    bool f = true;
    for (auto& [k, v] : r.counters) { fprintf(r.out, "%s%s:%lu", f ? "" : ",", jstr(k).c_str(), (unsigned long)v); f = false; }
    fprintf(r.out, "},\"sets\":{");
    f = true;
    for (auto& [k, s] : r.sets) {
        fprintf(r.out, "%s%s:[", f ? "" : ",", jstr(k).c_str()); f = false;
        bool g = true;
        for (u64 h : s) { fprintf(r.out, "%s%lu", g ? "" : ",", (unsigned long)(h & 0xffffffffffffULL)); g = false; }
        fprintf(r.out, "]");
    }
    fprintf(r.out, "},\"samples\":[");
    f = true;
    for (auto& s : r.samples) { fprintf(r.out, "%s%s", f ? "" : ",", jstr(s).c_str()); f = false; }
    fprintf(r.out, "]}\n");
    fflush(r.out);
}

inline bool& finished() { static bool f = false; return f; }
inline void on_exit_hook() {
    if (!finished()) {
        // the code under test called exit(): report it as an abnormal end
        flush_stats("exit");
        fprintf(stderr, "\nHARNESS: exit() called inside a case\n");
        fflush(stderr);
        _exit(97);
    }
}
// Time spent by this process and by the program it currently runs. A case is
// over its limit if it used that much processor time, or next to none (it
// waits for something that will not come); on a busy machine it may take longer.
inline volatile pid_t& child() { static volatile pid_t p = 0; return p; }
inline double cpu_seconds() {
    timespec t{};
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    double s = t.tv_sec + 1e-9 * t.tv_nsec;
    rusage ru{};
    getrusage(RUSAGE_CHILDREN, &ru);
    s += ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + 1e-6 * (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec);
    clockid_t id;
    if (pid_t p = child(); p && clock_getcpuclockid(p, &id) == 0 && clock_gettime(id, &t) == 0) s += t.tv_sec + 1e-9 * t.tv_nsec;
    return s;
}
struct CaseTime { double begin = 0, last = 0; };
inline CaseTime& case_time() { static CaseTime t; return t; }
inline void arm(double sec) {
    struct itimerval tv = {};
    tv.it_value.tv_sec = static_cast<long>(sec);
    tv.it_value.tv_usec = static_cast<long>((sec - tv.it_value.tv_sec) * 1e6);
    setitimer(ITIMER_REAL, &tv, nullptr);
}
inline void on_alarm(int) {
    double now = cpu_seconds(), limit = R().a.limit;
    CaseTime& t = case_time();
    struct stat st;
    double need = limit * (stat("/proc/self/task", &st) == 0 && st.st_nlink > 3 ? 1.8 : 0.9);
    if (now - t.begin < need && now - t.last > 0.01 * limit) {
        t.last = now;
        arm(limit);
        return;
    }
    const char m[] = "\nHARNESS: case time limit reached\n";
    if (write(2, m, sizeof m - 1)) { }
    _exit(99);
}

using CaseFn = void (*)(Ctx&);
struct Params { u64 quick, thorough; };

inline int run_main(int argc, char** argv, CaseFn fn) {
    if (vf_sched_begin) {
        // the same addresses in every run, where that is allowed
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1 && (personality(0xffffffff) & ADDR_NO_RANDOMIZE)) execv("/proc/self/exe", argv);
    }
    Runner& r = R(); Args& a = r.a;
    for (int i = 1; i < argc; ++i) {
        std::string k = argv[i];
        auto v = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (k == "--seed") a.seed = std::stoull(v());
        else if (k == "--start") a.start = std::stoull(v());
        else if (k == "--count") a.count = std::stoull(v());
        else if (k == "--stride") a.stride = std::stoull(v());
        else if (k == "--tier") a.tier = v();
        else if (k == "--out") a.out = v();
        else if (k == "--scratch") a.scratch = v();
        else if (k == "--mode") a.mode = v();
        else if (k == "--limit") a.limit = std::stod(v());
        else if (k == "-v") a.verbose = true;
        else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
    }
    r.out = a.out.empty() ? stdout : fopen(a.out.c_str(), "a");
    if (!r.out) { perror("out"); return 2; }
    if (a.out.empty()) {
        r.sh = new Shared();
    } else {
        std::string p = a.out + ".cur";
        int fd = open(p.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("cur"); return 2; }
        r.sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd);
    }
    // keep stdout of the code under test away from our records
    if (!a.out.empty() && !a.verbose) { if (!freopen("/dev/null", "w", stdout)) return 2; }
    signal(SIGALRM, on_alarm);
    atexit(on_exit_hook);
    // touch every function-local static used at exit before any case
    r.sh->done = 0;
    for (u64 k = 0; k < a.count; ++k) {
        u64 idx = a.start + k * a.stride;
        r.sh->cur = idx; r.sh->note[0] = 0;
        Ctx c(idx, mix(a.seed, 77));
        c.thorough = a.tier == "thorough"; c.verbose = a.verbose; c.scratch = a.scratch; c.mode = a.mode;
        case_time().begin = case_time().last = cpu_seconds();
        arm(a.limit);
        if (vf_sched_begin) vf_sched_begin(mix(a.seed * 3 + 1, idx));
        try { fn(c); }
        catch (const std::exception& e) { c.fail(std::string("exception:") + typeid(e).name(), e.what()); }
        if (vf_sched_begin) {
            VfSched s; vf_sched_end(&s);
            c.count("scheduler: yield points", s.steps); c.count("scheduler: switches", s.switches);
            if (s.threads > 1) { c.count("scheduler: cases with several threads"); c.distinct("interleavings", s.hash); }
        }
        r.sh->done = k + 1;
        if (R().sets["nontrivial"].size() > 400000) { }
    }
    struct itimerval tv = {};
    setitimer(ITIMER_REAL, &tv, nullptr);
    finished() = true;
    flush_stats("end");
    fflush(r.out);
    _exit(0);   // skip destructors: teardown order is not under test
}
}  // namespace vf
