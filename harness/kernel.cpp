// T05: every reduction of the multiterminal cut solver, on its own, keeps the
// optimum; bounds and blocks it sets are right.
#include "multiway.hpp"
#include "vc.hpp"

#include "algorithms/misc/equal_neighborhood.h"
#include "algorithms/misc/find_articulation_points.h"
#include "algorithms/misc/find_bridges.h"
#include "algorithms/misc/maximal_clique.h"
#include "algorithms/multicut/graph_contraction.h"
#include "algorithms/multicut/kernelization_criteria.h"
#include "algorithms/multicut/maximum_flow.h"
#include "algorithms/multicut/multicut_problem.h"

using namespace vf;

namespace {
u64 optimum(const Graph& g, const std::vector<u32>& fix, u32 k, bool* known) {
    MultiwayOracle o(g, fix, k, 300000);
    *known = o.run();
    return o.best;
}

// g with the vertices of each class put together; -1 if two terminals meet
bool merged(const Graph& g, const std::vector<u32>& cls, u32 k, const std::vector<u32>& fix, Graph* q, std::vector<u32>* qfix) {
    q->n = k; q->e.clear(); qfix->assign(k, ~0u);
    for (u32 v = 0; v < g.n; ++v) if (fix[v] != ~0u) {
        u32& f = (*qfix)[cls[v]];
        if (f != ~0u && f != fix[v]) return false;
        f = fix[v];
    }
    for (auto& x : g.e) if (cls[x.u] != cls[x.v]) q->e.push_back({cls[x.u], cls[x.v], x.w});
    *q = normalise(*q);
    return true;
}

void run_case(Ctx& c) {
    silence();
    Rng& r = c.rng;
    bool small = c.mode == "small";
    GenOpts o; o.nmin = 3; o.nmax = small ? 9 : 18; o.large = true; o.connected = !r.chance(1, 10);
    Graph g = normalise(gen_graph(r, o));
    u64 tot = 0;
    for (auto& x : g.e) tot += x.w;
    while (tot >> 56) { tot = 0; for (auto& x : g.e) { x.w = x.w / 16 + 1; tot += x.w; } }
    u32 k = 2 + r.below(std::min(small ? 3u : 4u, g.n - 1));
    std::vector<u32> p(g.n); std::iota(p.begin(), p.end(), 0u); r.shuffle(p);
    std::vector<NodeID> terms(p.begin(), p.begin() + k);
    std::vector<u32> fix(g.n, ~0u);
    for (u32 i = 0; i < k; ++i) fix[terms[i]] = i;
    auto cfg = fresh_config();
    cfg->num_terminals = k;
    cfg->seed = r.below(1000000); random_functions::setSeed(cfg->seed);
    cfg->neighborhood_degrees = r.chance(1, 4) ? r.below(6) : 50;
    cfg->random_flows = r.below(8); cfg->high_distance_flows = r.below(8);
    const char* pqs[] = {"default", "bqueue", "heap", "bstack"};
    u64 maxw = 0; for (auto& e : g.e) maxw = std::max(maxw, e.w);
    cfg->pq = maxw > 100000 ? "heap" : pqs[r.below(4)];
    cfg->threads = 1 + r.below(3);
    const char* ops[] = {"kernelization", "kernelization", "isolating", "nonterminal-flow", "equal-neighborhood", "articulation-points", "bridges", "cliques", "terminal-edges", "two-terminals"};
    std::string op = ops[r.below(10)];
    bool par = r.chance(1, 3);
    if (op == "two-terminals" && k > 2) { for (u32 i = 2; i < k; ++i) fix[terms[i]] = ~0u; terms.resize(2); k = 2; cfg->num_terminals = 2; }
    std::ostringstream d;
    d << op << (par ? " parallel" : "") << " seed=" << cfg->seed << " terminals";
    for (auto t : terms) d << " " << t;
    d << " flows=" << cfg->random_flows << "," << cfg->high_distance_flows << " " << g.str();
    c.note(d.str());
    bool known; u64 opt = optimum(g, fix, k, &known);
    if (!known) { c.count("oracle gave up"); return; }
    auto G = to_mg(g);
    std::vector<terminal> tv;
    for (u32 i = 0; i < k; ++i) tv.emplace_back(terms[i], i);
    auto prob = std::make_shared<multicut_problem>(G, tv);
    c.eval(); c.count("reduction:" + op);
    u64 hh = mix(g.hash(), hash_str(d.str().substr(0, 200)));
    auto judge_uf = [&](union_find* uf) {
        std::map<u32, u32> id; std::vector<u32> cls(g.n);
        for (u32 v = 0; v < g.n; ++v) { u32 f = uf->Find(v); cls[v] = id.emplace(f, id.size()).first->second; }
        u32 q = id.size();
        c.eq(op + "/sets", static_cast<u32>(uf->n()), q, "number of sets");
        if (q == g.n) return;
        c.count("vertices merged", g.n - q); c.count("reductions that merged"); c.nontrivial(hh);
        Graph Q; std::vector<u32> qf;
        if (!c.check(merged(g, cls, q, fix, &Q, &qf), op + "/terminals-merged", "two terminals are in one set")) return;
        bool kn; u64 got = optimum(Q, qf, k, &kn);
        if (kn) c.eq(op, got, opt, "optimum of the contracted graph");
    };
    // the problem's own graph, after it was contracted in place
    auto judge_problem = [&](bool exact) {
        std::string bad = mg_integrity(prob->graph);
        if (!c.check(bad.empty(), op + "/graph", bad)) return;
        Graph Q = normalise(from_mg(prob->graph)); std::vector<u32> qf(Q.n, ~0u);
        for (u32 i = 0; i < k; ++i) {
            u32 at = prob->graph->getCurrentPosition(terms[i]);
            if (!c.check(at < Q.n && qf[at] == ~0u, op + "/terminals-merged", "terminal " + std::to_string(i))) return;
            qf[at] = i;
        }
        for (auto& t : prob->terminals) c.check(t.original_id < k && t.position == prob->graph->getCurrentPosition(terms[t.original_id]), op + "/terminal-list", "");
        if (Q.n < g.n || Q.e.size() < g.e.size()) { c.count("reductions that merged"); c.count("vertices merged", g.n - Q.n); c.nontrivial(hh); }
        bool kn; u64 got = optimum(Q, qf, k, &kn);
        if (!kn) return;
        got += prob->deleted_weight;
        if (exact) c.eq(op, got, opt, "optimum of the reduced problem, with the weight deleted");
        else c.check(got >= opt, op, "reduced problem has a solution of weight " + std::to_string(got) + " < " + std::to_string(opt));
    };
    auto blocks_weight = [&]() {
        Graph Q = from_mg(prob->graph); u64 w = prob->deleted_weight;
        for (auto& x : Q.e) if (prob->graph->getPartitionIndex(x.u) != prob->graph->getPartitionIndex(x.v)) w += x.w;
        return w;
    };
    std::vector<bool> active(g.n, true);
    if (op == "kernelization") {
        // as in the solver: isolating cuts first
        maximum_flow mf(terms);
        if (r.chance(2, 3)) mf.maximumIsolatingFlow(prob, 0, par);
        else graph_contraction::setTerminals(prob, terms);
        graph_contraction::deleteTermEdges(prob, terms);
        if (prob->terminals.size() < 2) { judge_problem(true); return; }
        // a bound on the weight, above or just at the optimum
        u64 ub = r.chance(1, 3) ? opt + 1 : r.chance(1, 3) ? opt : opt + 1 + r.below(tot + 1);
        if (ub < prob->deleted_weight) ub = prob->deleted_weight;
        // the solver calls it only on problems that can still improve
        u64 sum = 0;
        for (auto& t : prob->terminals) sum += prob->graph->getWeightedNodeDegree(t.position);
        if (prob->deleted_weight + (sum + 1) / 2 >= ub) { c.count("problems below the bound left out"); return; }
        kernelization_criteria kc(terms);
        kc.kernelization(prob, ub, par);
        if (static_cast<u64>(prob->lower_bound) >= ub && ub <= opt) { c.count("problems given up by bound"); return; }
        if (opt < ub) c.check(prob->lower_bound < static_cast<FlowType>(ub), op + "/given-up", "bound " + std::to_string(ub) + ", optimum " + std::to_string(opt));
        judge_problem(opt < ub);
    } else if (op == "isolating") {
        maximum_flow mf(terms);
        mf.maximumIsolatingFlow(prob, 0, par);
        c.check(static_cast<u64>(prob->lower_bound) <= opt, op + "/lower-bound", std::to_string(prob->lower_bound) + " > " + std::to_string(opt));
        c.check(static_cast<u64>(prob->upper_bound) >= opt, op + "/upper-bound", std::to_string(prob->upper_bound) + " < " + std::to_string(opt));
        c.check(blocks_weight() <= static_cast<u64>(prob->upper_bound), op + "/blocks", "blocks of weight " + std::to_string(blocks_weight()) + ", upper bound " + std::to_string(prob->upper_bound));
        judge_problem(true);
    } else if (op == "terminal-edges") {
        graph_contraction::deleteTermEdges(prob, terms);
        judge_problem(true);
        for (u32 i = 0; i < k; ++i) for (EdgeID e : prob->graph->edges_of(terms[i]))
            c.check(fix[prob->graph->getEdgeTarget(terms[i], e)] == ~0u, op + "/left", "an edge between terminals is left");
        c.check(blocks_weight() >= prob->deleted_weight, op + "/blocks", "");
    } else if (op == "two-terminals") {
        maximum_flow mf(terms);
        mf.maximumSTFlow(prob);
        c.eq(op, static_cast<u64>(prob->upper_bound), opt, "maximum flow between two terminals");
        c.eq(op + "/blocks", blocks_weight(), opt, "weight of the blocks");
        for (u32 i = 0; i < k; ++i) c.eq(op + "/terminal-block", prob->graph->getPartitionIndex(terms[i]), static_cast<PartitionID>(i));
        c.nontrivial(hh);
    } else if (op == "nonterminal-flow") {
        maximum_flow mf(terms);
        auto uf = mf.nonTerminalFlow(prob, par, active); judge_uf(&uf);
    } else if (op == "equal-neighborhood") {
        equal_neighborhood en; auto uf = en.findEqualNeighborhoods(prob, active); judge_uf(&uf);
    } else if (op == "articulation-points") {
        find_articulation_points f(G);
        if (f.findAllArticulationPoints()) { auto uf = f.terminalsOnBothSides(prob->terminals); if (uf.has_value()) judge_uf(&uf.value()); else c.count("articulation points between terminals only"); }
    } else if (op == "bridges") {
        auto cc = g.components();
        if (std::any_of(cc.begin(), cc.end(), [](u32 x) { return x; })) return;  // says nothing about terminals in several components
        find_bridges f(G);
        if (f.findAllBridges()) {
            auto v = f.terminalsOnBothSides(prob->terminals);
            if (std::holds_alternative<union_find>(v)) { auto uf = std::get<union_find>(v); judge_uf(&uf); }
            else {
                auto [n, e] = std::get<std::pair<NodeID, EdgeID> >(v);
                if (!c.check(n < g.n && e < G->get_first_invalid_edge(n), op + "/edge", "")) return;
                u32 t = G->getEdgeTarget(n, e);
                Graph h = g; h.e.erase(std::remove_if(h.e.begin(), h.e.end(), [&](const vf::Edge& x) { return (x.u == n && x.v == t) || (x.u == t && x.v == n); }), h.e.end());
                auto comp = h.components();
                bool a = false, b = false;
                for (auto x : terms) { a |= comp[x] == comp[n]; b |= comp[x] == comp[t]; }
                c.check(comp[n] != comp[t] && a && b, op + "/edge", std::to_string(n) + "-" + std::to_string(t) + " is not a bridge between terminals");
                c.count("bridges between terminals"); c.nontrivial(hh);
            }
        }
    } else if (op == "cliques") {
        maximal_clique mc;
        auto cl = mc.findCliques(G);
        auto a = g.adj();
        for (auto& q : cl) for (size_t i = 0; i < q.size(); ++i) for (size_t j = 0; j < i; ++j) {
            bool adj = false; for (auto& [t, w] : a[q[i]]) { (void)w; adj |= t == q[j]; }
            c.check(adj, op + "/clique", std::to_string(q[i]) + " and " + std::to_string(q[j]) + " are not adjacent");
        }
        c.count("cliques", cl.size());
        auto uf = mc.contractSemiIsolatedCliques(prob); judge_uf(&uf);
    }
    if (c.index % 101 == 0) c.sample(d.str().substr(0, 300));
}
}  // namespace
int main(int argc, char** argv) { return run_main(argc, argv, run_case); }
