// S03: concurrent union-find under scheduled interleavings, histories checked
// for linearizability.  T03: the queue of subproblems, exactly once.
#include "vc.hpp"

#include "algorithms/multicut/problem_queues/per_thread_problem_queue.h"
#include "parallel/data_structure/union_find.h"

using namespace vf;

namespace {
struct Op { int kind; u32 x, y, res; u64 inv, ret; int thr; };   // 0 union 1 same 2 find
struct Dsu {
    std::vector<u32> p;
    explicit Dsu(u32 n) : p(n) { std::iota(p.begin(), p.end(), 0u); }
    u32 f(u32 x) const { while (p[x] != x) x = p[x]; return x; }
    bool u(u32 a, u32 b) { a = f(a); b = f(b); if (a == b) return false; p[std::max(a, b)] = std::min(a, b); return true; }
    u32 classes() const { u32 c = 0; for (u32 i = 0; i < p.size(); ++i) c += p[i] == i; return c; }
    std::string key() const { std::string s; for (u32 i = 0; i < p.size(); ++i) s += static_cast<char>(f(i)); return s; }
};

std::string hist_str(const std::vector<Op>& h) {
    std::ostringstream o;
    for (auto& x : h) {
        o << " t" << x.thr << "[" << x.inv << "," << x.ret << "]" << (x.kind == 0 ? "U" : x.kind == 1 ? "S" : "F") << x.x;
        if (x.kind != 2) o << "," << x.y;
        o << "=" << x.res;
    }
    return o.str();
}

// Is there an order of the operations, consistent with real time, in which a
// sequential union-find gives these results?
bool linearizable(const std::vector<Op>& h, u32 n, u64& states) {
    std::set<std::pair<u64, std::string> > seen;
    std::function<bool(u64, const Dsu&)> rec = [&](u64 done, const Dsu& d) -> bool {
        if (done + 1 == (1ull << h.size())) return true;
        if (!seen.insert({done, d.key()}).second) return false;
        ++states;
        u64 first_ret = ~0ull;
        for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1)) first_ret = std::min(first_ret, h[i].ret);
        for (size_t i = 0; i < h.size(); ++i) {
            if ((done >> i & 1) || h[i].inv > first_ret) continue;
            auto& o = h[i];
            if (o.kind == 0) {
                Dsu e = d;
                if (e.u(o.x, o.y) == (o.res != 0) && rec(done | 1ull << i, e)) return true;
            } else {
                bool same = d.f(o.x) == d.f(o.kind == 1 ? o.y : o.res);
                if ((o.kind == 1 ? same == (o.res != 0) : same) && rec(done | 1ull << i, d)) return true;
            }
        }
        return false;
    };
    return rec(0, Dsu(n));
}

void uf_case(Ctx& c, bool large) {
    Rng& r = c.rng;
    u32 n = large ? 4 + r.below(60) : 2 + r.below(6), T = 2 + r.below(large ? 6 : 3);
    u32 per = large ? 5 + r.below(40) : 1 + r.below(4);
    union_find uf(n);
    // some structure (and ranks) before the race
    Dsu pre(n);
    u32 before = r.chance(1, 2) ? r.below(n) : 0, hits = 0;
    for (u32 i = 0; i < before; ++i) { u32 a = r.below(n), b = r.below(n); pre.u(a, b); hits += uf.Union(a, b); }
    c.eq("sequential-union-count", n - hits, pre.classes());
    std::vector<std::vector<Op> > plan(T);
    u32 hot = r.chance(1, 2) ? std::min(n, 3u) : n, uw = 2 + r.below(6);
    for (u32 t = 0; t < T; ++t) for (u32 i = 0; i < per; ++i) {
        int k = r.below(8) < uw ? 0 : 1 + r.below(2);
        u32 x = r.chance(1, 2) ? r.below(hot) : r.below(n), y = r.chance(1, 2) ? r.below(hot) : r.below(n);
        plan[t].push_back({k, x, y, 0, 0, 0, static_cast<int>(t)});
    }
    std::ostringstream o; o << "union_find n=" << n << " threads=" << T << " before=" << before;
    for (auto& p : plan) o << " |" << hist_str(p);
    c.note(o.str().substr(0, 3000));
    std::atomic<u64> clk{1};
    std::vector<std::thread> th;
    for (u32 t = 0; t < T; ++t) th.emplace_back([&, t]() {
        for (auto& x : plan[t]) {
            x.inv = clk++;
            x.res = x.kind == 0 ? uf.Union(x.x, x.y) : x.kind == 1 ? uf.SameSet(x.x, x.y) : uf.Find(x.x);
            x.ret = clk++;
        }
    });
    for (auto& t : th) t.join();
    c.eval();
    Dsu fin = pre; u32 succ = 0, want;
    std::vector<Op> h;
    for (auto& p : plan) for (auto& x : p) { h.push_back(x); if (x.kind == 0) { fin.u(x.x, x.y); succ += x.res; } }
    want = pre.classes() - fin.classes();
    std::string hs = hist_str(h);
    c.eq("union-successes", succ, want, hs);
    c.eq("classes-after", uf.n(), fin.classes(), hs);
    for (u32 i = 0; i < n; ++i) for (u32 j = 0; j < i; ++j)
        if (!c.check((uf.Find(i) == uf.Find(j)) == (fin.f(i) == fin.f(j)), "classes-after", std::to_string(i) + " and " + std::to_string(j) + ":" + hs)) return;
    for (u32 i = 0; i < n; ++i) c.check(uf.Find(i) < n && fin.f(uf.Find(i)) == fin.f(i), "find-outside-class", std::to_string(i));
    // every answer against what had certainly / possibly happened
    for (auto& x : h) {
        Dsu sure = pre, maybe = pre;
        for (auto& y : h) if (y.kind == 0) { if (y.ret < x.inv) sure.u(y.x, y.y); if (y.inv < x.ret) maybe.u(y.x, y.y); }
        if (x.kind == 1) {
            if (x.res) c.check(maybe.f(x.x) == maybe.f(x.y), "same-too-early", hs);
            else c.check(sure.f(x.x) != sure.f(x.y), "same-missed", hs);
        } else if (x.kind == 2) {
            c.check(x.res < n && maybe.f(x.x) == maybe.f(x.res), "find-outside-class", hs);
        } else if (x.res) {
            c.check(sure.f(x.x) != sure.f(x.y), "union-of-joined-sets-succeeds", hs);
        } else {
            Dsu m2 = pre;
            for (auto& y : h) if (y.kind == 0 && &y != &x && y.inv < x.ret) m2.u(y.x, y.y);
            c.check(m2.f(x.x) == m2.f(x.y), "union-of-separate-sets-fails", hs);
        }
    }
    if (!large && h.size() <= 14 && before == 0) {
        u64 st = 0;
        c.check(linearizable(h, n, st), "not-linearizable", hs);
        c.count("histories checked for linearizability"); c.count("linearization states", st);
    }
    c.count("union-find operations", h.size());
    u32 overlap = 0;
    for (auto& a : h) for (auto& b : h) overlap += a.thr < b.thr && a.inv < b.ret && b.inv < a.ret;
    c.count("overlapping pairs of operations", overlap);
    if (overlap) c.nontrivial(hash_str(hs));
    c.sample(o.str().substr(0, 300));
}

const char* queues[] = {"bound_sum", "small_graph", "few_terminals", "upper_bound", "lower_bound", "bigger_distance", "lower_distance", "most_deleted", "other"};

void queue_case(Ctx& c) {
    Rng& r = c.rng;
    u32 T = 1 + r.below(5), per = 2 + r.below(20);
    std::string type = queues[r.below(9)];
    per_thread_problem_queue q(T, type);
    struct Act { int kind; bool flag; i64 bound; };      // 0 add 1 pull 2 prepare 3 look
    std::vector<std::vector<Act> > plan(T);
    u32 total = 0;
    u32 aw = 2 + r.below(5); bool prep = r.chance(1, 2);
    for (auto& p : plan) {
        i64 ub = 60 + r.below(60);
        for (u32 i = 0; i < per; ++i) {
            u32 k = r.below(10);
            Act a{k < aw ? 0 : k < 8 ? 1 : k == 8 && prep ? 2 : 3, r.chance(1, 2), 0};
            if (a.kind == 2) { a.bound = ub; ub -= r.below(20); if (ub < 1) ub = 1; }
            if (a.kind == 0) { a.bound = r.below(100); ++total; }
            p.push_back(a);
        }
    }
    std::vector<mutableGraphPtr> graphs;
    for (u32 i = 0; i < 4; ++i) graphs.push_back(to_mg(gen_path(2 + i)));
    // all problems exist before the race
    std::vector<problemPointer> prob;
    for (u32 i = 0; i < total; ++i) {
        auto p = std::make_shared<multicut_problem>();
        p->graph = graphs[r.below(4)];
        p->upper_bound = 100 + r.below(50); p->deleted_weight = r.below(50);
        p->lower_bound = 0;
        for (u32 j = r.below(4); j-- > 0;) p->terminals.emplace_back(j, j, true);
        prob.push_back(p);
    }
    u32 id = 0;
    std::vector<std::vector<u32> > ids(T);
    for (u32 t = 0; t < T; ++t) for (auto& a : plan[t]) { ids[t].push_back(a.kind == 0 ? id : ~0u); if (a.kind == 0) prob[id++]->lower_bound = a.bound; }
    std::ostringstream o; o << "problem queue " << type << " threads=" << T;
    for (auto& p : plan) { o << " |"; for (auto& a : p) o << " " << "apPl"[a.kind] << (a.flag ? "+" : "") << a.bound; }
    c.note(o.str().substr(0, 3000));
    std::unordered_map<multicut_problem*, u32> num;
    for (u32 i = 0; i < total; ++i) num[prob[i].get()] = i;
    struct Ev { int kind; u32 what; u64 inv, ret; };
    std::vector<std::vector<Ev> > ev(T);
    std::atomic<u64> clk{1};
    std::atomic<u64> badsize{0};
    auto work = [&](u32 t) {
        for (size_t i = 0; i < plan[t].size(); ++i) {
            auto& a = plan[t][i];
            u64 inv = clk++; u32 what = ~0u;
            if (a.kind == 0) { what = ids[t][i]; u32 where = q.addProblem(prob[what], t, a.flag); if (where >= T) ++badsize; }
            else if (a.kind == 1) {
                auto p = q.pullProblem(t, a.flag);
                if (p.has_value()) { auto it = num.find(p->get()); what = it == num.end() ? total : it->second; }
            }
            else if (a.kind == 2) { q.prepareQueue(t, a.bound); what = a.bound; }
            else if (q.size() > total + T) { ++badsize; }
            ev[t].push_back({a.kind, what, inv, clk++});
        }
    };
    std::vector<std::thread> th;
    for (u32 t = 0; t < T; ++t) th.emplace_back(work, t);
    for (auto& t : th) t.join();
    c.eval();
    std::vector<u32> out(total + 1, 0);
    i64 lowest = 1ll << 40; u32 pulled = 0, empty = 0;
    for (auto& v : ev) for (auto& e : v) {
        if (e.kind == 1) { if (e.what == ~0u) { ++empty; continue; } ++out[e.what]; ++pulled; }
        if (e.kind == 2) lowest = std::min<i64>(lowest, e.what);
    }
    c.eq("unknown-problem", out[total], 0u);
    c.eq("index-or-size-out-of-range", badsize.load(), 0ul);
    // nothing else runs any more: what is left comes out of the queues
    size_t left = q.size(), drained = 0;
    c.check(q.all_empty() == (left == 0), "all-empty", "");
    for (bool any = true; any;) {
        any = false;
        for (u32 t = 0; t < T; ++t) {
            auto p = q.pullProblem(t, r.chance(1, 2));
            if (!p.has_value()) continue;
            any = true; ++drained;
            if (drained > total) { c.fail("handed-out-twice", "more problems than were added"); return; }
            auto it = num.find(p->get());
            if (!c.check(it != num.end(), "unknown-problem", "")) return;
            ++out[it->second];
        }
    }
    c.eq("size", left, drained, "size() when nothing runs, against problems that came out");
    c.check(q.all_empty() && q.size() == 0 && !q.haveASendProblem(), "not-empty-after", std::to_string(q.size()));
    for (u32 t = 0; t < T; ++t) c.check(q.empty(t), "queue-not-empty-after", std::to_string(t));
    u32 dropped = 0;
    for (u32 i = 0; i < total; ++i) {
        if (out[i] > 1) c.fail("handed-out-twice", "problem " + std::to_string(i));
        if (out[i] == 0) { ++dropped; c.check(prob[i]->lower_bound >= lowest, "lost", "problem " + std::to_string(i) + " with lower bound " + std::to_string(prob[i]->lower_bound)); }
    }
    c.count("problems added", total); c.count("problems pulled concurrently", pulled); c.count("problems dropped by bound", dropped); c.count("pulls that found nothing", empty);
    if (T > 1 && total > 2) c.nontrivial(hash_str(o.str()));
    c.sample(o.str().substr(0, 300));
}

void run_case(Ctx& c) {
    silence();
    if (c.mode == "uf") uf_case(c, false);
    else if (c.mode == "uf-large") uf_case(c, true);
    else queue_case(c);
}
}  // namespace
int main(int argc, char** argv) { return run_main(argc, argv, run_case); }
