// Conversions between the harness' edge lists and VieCut's graph types, using
// only their public construction and access interfaces.
#pragma once
#include "common.hpp"

#include "common/configuration.h"
#include "common/definitions.h"
#include "data_structure/graph_access.h"
#include "data_structure/mutable_graph.h"
#include "tlx/logger.hpp"
#include "tools/random_functions.h"

namespace vf {
inline graphAccessPtr to_ga(const Graph& g) {
    auto G = std::make_shared<graph_access>();
    auto a = g.adj();
    G->start_construction(g.n, 2 * g.e.size());
    for (u32 i = 0; i < g.n; ++i) {
        NodeID v = G->new_node();
        G->setPartitionIndex(v, 0);
        for (auto& [t, w] : a[i]) {
            EdgeID e = G->new_edge(i, t);
            G->setEdgeWeight(e, w);
        }
    }
    G->finish_construction();
    G->computeDegrees();
    return G;
}
inline mutableGraphPtr to_mg(const Graph& g) {
    auto G = std::make_shared<mutable_graph>();
    G->start_construction(g.n);
    for (auto& x : g.e) G->new_edge_order(x.u, x.v, x.w);
    G->finish_construction();
    return G;
}
inline Graph from_mg(const mutableGraphPtr& G) {
    Graph g; g.n = G->n();
    for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v)) {
        NodeID t = G->getEdgeTarget(v, e);
        if (v < t) g.e.push_back({v, t, G->getEdgeWeight(v, e)});
    }
    return g;
}
inline Graph from_ga(const graphAccessPtr& G) {
    Graph g; g.n = G->number_of_nodes();
    for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v)) {
        NodeID t = G->getEdgeTarget(e);
        if (v < t) g.e.push_back({v, t, G->getEdgeWeight(e)});
    }
    return g;
}
inline std::vector<std::tuple<u32, u32, u64> > sorted_edges(const Graph& g) {
    std::vector<std::tuple<u32, u32, u64> > r;
    for (auto& x : g.e) r.emplace_back(std::min(x.u, x.v), std::max(x.u, x.v), x.w);
    std::sort(r.begin(), r.end());
    return r;
}

// Is the mutable graph a consistent symmetric structure?  "" or what is wrong.
inline std::string mg_integrity(const mutableGraphPtr& G, bool contained = true) {
    std::ostringstream o;
    u64 arcs = 0;
    for (NodeID v : G->nodes()) {
        u64 deg = 0;
        for (EdgeID e : G->edges_of(v)) {
            ++arcs;
            NodeID t = G->getEdgeTarget(v, e);
            if (t >= G->n()) { o << "edge " << v << "/" << e << " to nonexistent vertex " << t; return o.str(); }
            if (t == v) { o << "self loop at " << v; return o.str(); }
            EdgeID r = G->getReverseEdge(v, e);
            if (r >= G->get_first_invalid_edge(t)) { o << "reverse id out of range at " << v << "/" << e; return o.str(); }
            if (G->getEdgeTarget(t, r) != v || G->getReverseEdge(t, r) != e) { o << "reverse of " << v << "->" << t << " is not its mirror"; return o.str(); }
            if (G->getEdgeWeight(t, r) != G->getEdgeWeight(v, e)) { o << "weights of " << v << "<->" << t << " differ"; return o.str(); }
            if (G->getEdgeSource(v, e) != v) { o << "getEdgeSource of " << v << "/" << e << " wrong"; return o.str(); }
            deg += G->getEdgeWeight(v, e);
        }
        if (deg != G->getWeightedNodeDegree(v)) { o << "weighted degree of " << v << " is " << G->getWeightedNodeDegree(v) << ", edges sum to " << deg; return o.str(); }
        if (G->getUnweightedNodeDegree(v) != G->get_first_invalid_edge(v)) { o << "unweighted degree of " << v; return o.str(); }
    }
    if (arcs != G->number_of_edges()) { o << "number_of_edges() is " << G->number_of_edges() << " but there are " << arcs << " arcs"; return o.str(); }
    if (contained) {
        std::vector<u32> seen(G->getOriginalNodes(), 0);
        for (NodeID v : G->nodes()) for (NodeID x : G->containedVertices(v)) {
            if (x >= seen.size()) { o << "contained vertex " << x << " does not exist"; return o.str(); }
            if (seen[x]++) { o << "original vertex " << x << " contained twice"; return o.str(); }
            if (G->getCurrentPosition(x) != v) { o << "original vertex " << x << " is contained in " << v << " but its position is " << G->getCurrentPosition(x); return o.str(); }
        }
        for (u32 x = 0; x < seen.size(); ++x) if (!seen[x]) { o << "original vertex " << x << " contained nowhere"; return o.str(); }
    }
    return "";
}

// every setting a harness varies, back to its documented default
inline configuration* fresh_config() {
    auto c = configuration::getConfig();
    c->partition_file = ""; c->output_path = ""; c->seed = 0; c->verbose = false;
    c->edge_selection = "heavy_vertex"; c->queue_type = "bound_sum";
    c->term_strings.clear(); c->top_k = 0; c->random_k = 0; c->bfs_size = 0;
    c->threads = 1; c->preset_percentage = 0; c->print_cc = 0; c->num_terminals = 0;
    c->disable_cpu_affinity = true; c->high_distance_factor = 0.9;
    c->high_distance_flows = 5; c->distant_terminals = 0; c->first_branch_path = "";
    c->write_solution = false; c->neighborhood_degrees = 50; c->random_flows = 5;
    c->removeTerminalsBeforeBranch = 0.1; c->contractionDepthAroundTerminal = 1;
    c->maximumBranchingFactor = 5; c->multibranch = true; c->inexact = false;
    c->runLocalSearch = true; c->timeoutSeconds = 600; c->save_cut = false;
    c->algorithm = ""; c->sampling_type = "geometric"; c->pq = "default";
    c->num_iterations = 1; c->disable_limiting = false; c->contraction_factor = 0.0;
    c->find_most_balanced_cut = false; c->find_lowest_conductance = false;
    c->blacklist = true; c->set_node_in_cut = false; c->cactus_filename = "";
    c->depthOfPartialRelabeling = 1; c->optimal = 0; c->use_ilp = false;
    c->orign = 0; c->origm = 0;
    random_functions::setSeed(0);
    return c.get();
}
inline void silence() { tlx::shim_log_enabled() = false; }
}  // namespace vf
