// dynamic_mincut under histories of insertions and deletions.
// mode = <what>:<size>   what: value | cactus     size: small | mid | hub | long
#include "algorithms/global_mincut/algorithms.h"
#include "algorithms/global_mincut/dynamic/dynamic_mincut.h"
#include "cactus.hpp"
using namespace vf;

static void one(Ctx& c) {
    silence();
    std::string what = c.mode.substr(0, c.mode.find(':')), size = c.mode.substr(c.mode.find(':') + 1);
    Rng& r = c.rng;
    auto cfg = fresh_config();
    cfg->save_cut = true;
    int thr = 1;
#ifdef PARALLEL
    thr = 1 + r.below(4);
    omp_set_num_threads(thr);
    cfg->threads = thr;
#endif
    const char* es[] = {"random", "heavy", "heavy_weighted", "heavy_vertex"};
    cfg->edge_selection = es[r.below(4)];
    u32 n = size == "small" ? 2 + r.below(c.thorough ? 9 : 8) : size == "hub" ? 110 + r.below(40) : size == "long" ? (r.chance(1, 2) ? 4 + r.below(7) : 20 + r.below(30)) : 8 + r.below(24);
    Graph start;
    u32 kind = r.below(5);
    if (size == "long" && kind == 0) kind = 2;
    if (size == "hub") {
        // one cactus vertex of large degree; contracting into it goes another way
        start.n = n; start.desc = "hub";
        u32 v = 1, two = 2 * (1 + r.below(3));
        bool mixed = r.chance(3, 4);
        while (v < n) {
            u32 k = 1 + r.below(mixed ? 6 : 1);
            k = std::min(k, n - v);
            // a cycle through the hub, or a pendant vertex
            u32 at = r.chance(1, 8) && v > 1 ? r.below(v) : 0;
            if (k == 1) start.e.push_back({at, v, two});
            else { start.e.push_back({at, v, two / 2}); for (u32 i = 1; i < k; ++i) start.e.push_back({v + i - 1, v + i, two / 2}); start.e.push_back({v + k - 1, at, two / 2}); }
            v += k;
        }
        if (r.chance(1, 2)) start = relabel(start, r);
    } else if (kind == 0) { start.n = n; start.desc = "empty"; }
    else if (kind == 1) { start = gen_empty_cactus(r, n, 6); if (start.n < 2) { start.n = 2; start.e.clear(); } }
    else { GenOpts o; o.nmin = n; o.nmax = n; o.connected = size == "long" || !r.chance(1, 4); start = gen_graph(r, o); }
    n = start.n;
    u64 maxw = 1;
    // the cactus construction takes memory proportional to the minimum cut
    for (auto& e : start.e) { if (e.w > 4000) e.w = 1 + e.w % 4000; maxw = std::max(maxw, e.w); }
    // parallel edges are kept apart: a deletion removes one of them
    std::map<std::pair<u32, u32>, std::vector<u64> > m;
    for (auto& e : start.e) m[{std::min(e.u, e.v), std::max(e.u, e.v)}].push_back(e.w);
    int seed = r.below(1000000);
    random_functions::setSeed(seed);
    std::ostringstream h;
    h << "thr=" << thr << " es=" << cfg->edge_selection << " seed=" << seed << " " << start.str(60);
    c.note(h.str());
    auto model = [&]() { Graph g; g.n = n; for (auto& [k, l] : m) { u64 w = 0; for (u64 x : l) w += x; if (w) g.e.push_back({k.first, k.second, w}); } return g; };
    bool bruteforce = n <= 10;
    std::vector<u64> cw;        // weight of every cut, vertex n-1 outside
    if (bruteforce) {
        cw.assign(1ull << (n - 1), 0);
        for (auto& [k, l] : m) for (u64 w : l) for (u64 s = 0; s < cw.size(); ++s) if ((s >> k.first & 1) != (s >> k.second & 1)) cw[s] += w;
    }
    dynamic_mincut dyn;
    u64 got = dyn.initialize(to_mg(model()));
    // long: more changes than the cache of cacti keeps
    u32 steps = size == "hub" ? 3 + r.below(8) : size == "long" ? 1500 + r.below(3000) : 6 + r.below(c.thorough ? 80 : 40);
    // toggle: a few edges come and go, so that earlier graphs come back
    std::vector<std::pair<std::pair<u32, u32>, u64> > pool;
    if (r.chance(1, 3)) {
        for (u32 i = 1 + r.below(4); i; --i) {
            u32 s = r.below(n), t = r.below(n);
            if (!start.e.empty() && r.chance(2, 3)) { auto& e = r.pick(start.e); s = e.u; t = e.v; }
            if (s != t) pool.push_back({{s, t}, r.chance(2, 3) ? 1 : 1 + r.below(std::min<u64>(maxw + 1, 12))});
        }
    }
    std::vector<std::pair<u32, u32> > removed;
    bool repair = size == "long" || r.chance(1, 3);
    u64 hh = start.hash(), last = got;
    bool stop = false;
    for (u32 st = 0; st <= steps && !stop; ++st) {
        if (st) {
            u32 op = r.below(10);
            u32 s = r.below(n), t = r.below(n);
            std::ostringstream o;
            bool ins = op < 4;
            if (op < 2 && !removed.empty() && r.chance(2, 3)) { auto p = r.pick(removed); s = p.first; t = p.second; }
            if (op >= 4 && r.chance(9, 10)) {
                // an edge that exists, if there is one
                std::vector<std::pair<u32, u32> > ex;
                for (auto& [k, l] : m) if (!l.empty()) ex.push_back(k);
                if (!ex.empty()) { auto p = r.pick(ex); s = p.first; t = p.second; if (r.chance(1, 2)) std::swap(s, t); }
            }
            u64 pooled = 0;
            // mostly connected
            if (repair && last == 0 && !removed.empty() && r.chance(2, 3)) { auto p = removed[removed.size() - 1 - r.below(std::min<size_t>(removed.size(), 4))]; s = p.first; t = p.second; op = 0; ins = true; }
            else if (!pool.empty() && r.chance(size == "long" ? 19 : 7, size == "long" ? 20 : 8)) {
                auto& q = r.pick(pool);
                std::tie(s, t) = q.first; pooled = q.second;
                auto it = m.find({std::min(s, t), std::max(s, t)});
                ins = it == m.end() || it->second.empty(); op = ins ? 0 : 4;
                c.count("toggled edges");
            }
            if (s == t) continue;
            auto k = std::make_pair(std::min(s, t), std::max(s, t));
            u64 w = r.chance(2, 3) ? 1 : 1 + r.below(std::min<u64>(maxw + 1, 12));
            if (op >= 7 && r.chance(1, 3)) ins = true;
            if (pooled) w = pooled;
            if (r.chance(1, size == "long" ? 6000 : 60)) {
                // from scratch, on the graph as it is, with the numbers drawn before
                for (auto& [kk, ll] : m) { u64 sum = 0; for (u64 x : ll) sum += x; ll.clear(); if (sum) ll.push_back(sum); }
                if (r.chance(1, 2)) random_functions::setSeed(seed);
                got = dyn.initialize(to_mg(model()));
                h << " init"; c.count("initialised again");
            }
            o << (ins ? " +" : " -") << s << "," << t; if (ins && w > 1) o << ":" << w;
            if (o.str().size() + h.str().size() < 1400) h << o.str();
            c.note(h.str());
            hh = mix(hh, hash_str(o.str()));
            i64 d = 0;
            auto& l = m[k];
            if (ins) { got = dyn.addEdge(s, t, w); l.push_back(w); d = w; c.count("insertions"); if (l.size() > 1) c.count("parallel insertions"); }
            else {
                got = dyn.removeEdge(s, t); c.count("deletions");
                if (!l.empty()) {
                    removed.push_back(k);
                    auto G = dyn.getOriginalGraph();
                    std::vector<u64> left;
                    for (EdgeID e : G->edges_of(s)) if (G->getEdgeTarget(s, e) == t) left.push_back(G->getEdgeWeight(s, e));
                    std::sort(left.begin(), left.end()); std::sort(l.begin(), l.end());
                    std::vector<u64> gone;
                    std::set_difference(l.begin(), l.end(), left.begin(), left.end(), std::back_inserter(gone));
                    if (!c.check(left.size() + 1 == l.size() && gone.size() == 1, "deletion-differs", h.str())) break;
                    d = -static_cast<i64>(gone[0]);
                    l = left;
                } else c.count("deletions of absent edges");
            }
            if (bruteforce) for (u64 x = 0; x < cw.size(); ++x) if ((x >> k.first & 1) != (x >> k.second & 1)) cw[x] += d;
        }
        u64 lambda = ~0ull;
        if (bruteforce) for (u64 x = 1; x < cw.size(); ++x) lambda = std::min(lambda, cw[x]);
        else { Graph g = model(); lambda = g.connected() ? stoer_wagner(g) : 0; }
        if (n == 2 && bruteforce) lambda = cw[1];
        if (!c.eq("wrong-value", got, lambda, h.str())) stop = true;
        if (!c.eq("wrong-current-cut", dyn.getCurrentCut(), lambda, h.str())) stop = true;
        if (lambda != last) { c.count(lambda > last ? "cut rose" : "cut fell"); last = lambda; }
        c.distinct("minimum cut values", lambda);
        Graph now = from_mg(dyn.getOriginalGraph());
        if (!c.check(now.n == n && sorted_edges(normalise(now)) == sorted_edges(normalise(model())), "graph-differs", h.str())) stop = true;
        if (what == "cactus" && !stop && (size != "long" || bruteforce || st % 8 == 0 || st == steps)) {
            auto C = dyn.getCurrentCactus();
            if (lambda > 0) {
                std::set<Bits> want;
                if (bruteforce) {
                    for (u64 x = 1; x < cw.size(); ++x) if (cw[x] == lambda) { std::vector<char> s(n); for (u32 v = 0; v < n; ++v) s[v] = x >> v & 1; want.insert(canon(s)); }
                } else want = all_mincuts(model()).cuts;
                auto R = read_cactus(C, n, lambda);
                if (!c.check(R.bad.empty(), "cactus-shape", R.bad + "; " + h.str())) stop = true;
                else if (!c.check(R.cuts == want, "cactus-cuts", "cactus has " + std::to_string(R.cuts.size()) + " cuts, the graph has " + std::to_string(want.size()) + "; " + h.str())) stop = true;
                c.count("cacti compared"); c.count("minimum cuts compared", want.size());
            }
        }
        c.eval();
    }
    c.count("runs of the static algorithm", dyn.getCallsOfStaticAlgorithm());
    c.nontrivial(hh);
    c.sample(h.str().substr(0, 300));
}
int main(int argc, char** argv) { return run_main(argc, argv, one); }
