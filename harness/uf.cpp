// S02: sequential union-find against a naive label model.
#include "vc.hpp"

#include "data_structure/union_find.h"
using namespace vf;

static void one(Ctx& c) {
    Rng& r = c.rng;
    bool huge = c.mode == "huge";
    u32 n = huge ? 65530 + r.below(12) + (r.chance(1, 2) ? r.below(200000) : 0) : r.chance(1, 10) ? r.below(3) : (r.chance(1, 8) ? 1 + r.below(3000) : 1 + r.below(60));
    union_find uf(n);
    std::vector<u32> lab(n);
    std::iota(lab.begin(), lab.end(), 0u);
    // large: the members of each label, the smaller set is relabelled
    std::vector<std::vector<u32> > mem(huge ? n : 0);
    for (u32 i = 0; i < mem.size(); ++i) mem[i] = {i};
    u32 sets = n;
    int style = r.below(4);
    u32 ops = huge ? n + r.below(n) : n ? 1 + r.below(3 * n + 5) : 0;
    c.note("n=" + std::to_string(n) + " style=" + std::to_string(style));
    u64 h = mix(n, style);
    c.eq("initial count", uf.n(), n);
    for (u32 x = 0; x < n; ++x) if (!c.eq("initial find", uf.Find(x), x)) return;
    for (u32 i = 0; i < ops; ++i) {
        u32 a, b;
        switch (style) {
        case 0: a = r.below(n); b = r.below(n); break;
        case 1: a = i % n; b = (i + 1) % n; break;                 // chain
        case 2: a = r.below(n); b = a ^ (1u << r.below(huge ? 18 : 6)); if (b >= n) b = a; break;   // binomial merging
        default: a = r.below(n); b = r.below(std::min(n, 3u)); break;   // hub
        }
        h = mix(h, (u64)a << 32 | b);
        bool want = lab[a] != lab[b];
        bool got = uf.Union(a, b);
        c.count("unions");
        if (!c.eq("union result", got, want, "Union(" + std::to_string(a) + "," + std::to_string(b) + ")")) return;
        if (want) {
            --sets;
            u32 o = lab[a], w = lab[b];
            if (huge) {
                if (mem[o].size() > mem[w].size()) std::swap(o, w);
                for (u32 x : mem[o]) { lab[x] = w; mem[w].push_back(x); }
                mem[o].clear();
            } else for (auto& l : lab) if (l == o) l = w;
        }
        if (!c.eq("set count", uf.n(), sets)) return;
        if (r.chance(1, 3) || n < 12) {
            u32 x = r.below(n), y = r.below(n);
            if (!c.eq("same set", uf.Find(x) == uf.Find(y), lab[x] == lab[y], "elements " + std::to_string(x) + "," + std::to_string(y))) return;
            u32 f = uf.Find(x);
            if (!c.check(f < n && lab[f] == lab[x], "representative", "Find(" + std::to_string(x) + ") is outside its set")) return;
            if (!c.eq("find stable", uf.Find(x), f)) return;
            c.count("queries");
        }
    }
    std::map<u32, u32> rep;
    for (u32 x = 0; x < n; ++x) {
        u32 f = uf.Find(x);
        auto it = rep.emplace(lab[x], f);
        if (!c.eq("partition", it.first->second, f, "element " + std::to_string(x))) return;
        c.count("queries");
    }
    std::set<u32> d; for (auto& [l, f] : rep) d.insert(f);
    c.eq("distinct representatives", d.size(), rep.size());
    c.eq("final count", uf.n(), rep.size());
    c.eval();
    if (n > 2) c.nontrivial(h);
    c.sample("n=" + std::to_string(n) + ", " + std::to_string(ops) + " unions, " + std::to_string(sets) + " sets left");
}
int main(int argc, char** argv) { silence(); return run_main(argc, argv, one); }
