// I01: graph files, vectors, cuts and event lists are read and written faithfully.
#include "vc.hpp"

#include <fstream>
#include <unistd.h>

#include "io/graph_io.h"

using namespace vf;

namespace {
bool& huge_mode() { static bool h = false; return h; }
Graph any_graph(Rng& r, bool small) {
    GenOpts o; o.nmin = 1; o.nmax = small ? 12 : 150; o.connected = r.chance(1, 2); o.large = true;
    Graph g = huge_mode() ? gen_huge(r, o.connected) : normalise(gen_graph(r, o));
    if (r.chance(1, 4)) { g.n += 1 + r.below(4); g = relabel(g, r); g.desc += "+isolated"; }
    if (r.chance(1, 20)) g.e.clear();
    if (r.chance(1, 6)) { for (auto& x : g.e) x.w = r.chance(1, 2) ? r.below(1ull << 62) / std::max<u64>(1, g.e.size()) + 1 : 1 + r.below(9); g.desc += "/w64"; }
    return g;
}

// one well-formed METIS file that describes g
struct Layout { bool edge_w, vertex_w, sizes, loops, comments, blanks, tabs, crlf, last_newline; u32 ncon; std::string fmt; };
std::string metis(Rng& r, const Graph& g, const Layout& l, std::string* what) {
    std::ostringstream o;
    const char* nl = l.crlf ? "\r\n" : "\n";
    auto comment = [&] { if (l.comments) while (r.chance(1, 3)) o << "%" << (r.chance(1, 2) ? " 1 2 3" : "") << nl; };
    auto sep = [&] { if (l.tabs && r.chance(1, 2)) o << "\t"; else o << " "; if (l.blanks) while (r.chance(1, 3)) o << (l.tabs && r.chance(1, 2) ? "\t" : " "); };
    auto edge = [&] { if (l.blanks) while (r.chance(1, 3)) o << " "; };
    comment(); edge();
    u64 loops = 0; std::vector<u32> loop(g.n, 0);
    if (l.loops) for (auto& x : loop) if (r.chance(1, 4)) { x = 1; ++loops; }
    o << g.n; sep(); o << g.e.size();
    if (!l.fmt.empty()) { sep(); o << l.fmt; if (l.ncon) { sep(); o << l.ncon; } }
    edge(); o << nl;
    auto a = g.adj();
    for (u32 v = 0; v < g.n; ++v) {
        comment();
        r.shuffle(a[v]);
        std::vector<std::pair<u64, u64> > items;
        for (auto& [t, w] : a[v]) items.emplace_back(t, w);
        if (loop[v]) items.insert(items.begin() + r.below(items.size() + 1), {v, 1 + r.below(5)});
        edge();
        bool first = true;
        auto num = [&](u64 x) { if (!first) sep(); first = false; o << x; };
        if (l.sizes) num(1 + r.below(9));
        if (l.vertex_w) for (u32 i = 0; i < std::max<u32>(1, l.ncon); ++i) num(r.below(20));
        for (auto& [t, w] : items) { num(t + 1); if (l.edge_w) num(w); }
        edge();
        // the line of an isolated last vertex exists only through its newline
        if (v + 1 < g.n || l.last_newline || first) o << nl;
    }
    if (l.last_newline) comment();
    std::ostringstream w; w << "metis fmt=" << (l.fmt.empty() ? "-" : l.fmt) << (l.ncon ? " ncon=" + std::to_string(l.ncon) : "") << (l.loops ? " loops" : "") << (l.comments ? " comments" : "") << (l.blanks ? " blanks" : "") << (l.tabs ? " tabs" : "") << (l.crlf ? " crlf" : "") << (l.last_newline ? "" : " no-newline-at-end");
    *what = w.str();
    return o.str();
}
std::string path(Ctx& c, const char* name) { return R().a.scratch + "/" + name + std::to_string(getpid()); }
void spill(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; }
std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
std::vector<std::string> lines(const std::string& s) {
    std::vector<std::string> r; std::string cur;
    for (char x : s) if (x == '\n') { r.push_back(cur); cur.clear(); } else cur += x;
    if (!cur.empty()) r.push_back(cur);
    return r;
}
std::vector<i64> numbers(const std::string& l) { std::istringstream s(l); std::vector<i64> v; i64 x; while (s >> x) v.push_back(x); return v; }

void same_graph(Ctx& c, const std::string& K, const Graph& got, u64 arcs, const Graph& g) {
    c.eq(K + "/vertices", got.n, g.n);
    c.eq(K + "/arcs", arcs, static_cast<u64>(2 * g.e.size()));
    c.check(sorted_edges(got) == sorted_edges(g), K, "edges differ: read " + got.str(60));
}
template <class G> bool arcs_ok(Ctx& c, const std::string& K, const G& A, const Graph& g);
template <> bool arcs_ok(Ctx& c, const std::string& K, const graphAccessPtr& A, const Graph& g) {
    // both directions, in particular weights
    std::map<std::pair<u32, u32>, u64> m;
    for (auto& x : g.e) m[{x.u, x.v}] = m[{x.v, x.u}] = x.w;
    for (NodeID v : A->nodes()) { for (EdgeID e : A->edges_of(v)) { auto it = m.find({v, A->getEdgeTarget(e)}); if (!c.check(it != m.end() && it->second == A->getEdgeWeight(e), K + "/arc", std::to_string(v) + "->" + std::to_string(A->getEdgeTarget(e)))) return false; } }
    return true;
}

// strict reading of a written METIS file
bool parse(Ctx& c, const std::string& K, const std::string& text, bool weighted, const Graph& g, bool unit) {
    auto L = lines(text);
    if (!c.check(L.size() == g.n + 1, K + "/lines", std::to_string(L.size()) + " lines for " + std::to_string(g.n) + " vertices")) return false;
    auto h = numbers(L[0]);
    if (!c.check(h.size() >= 2 && h[0] == static_cast<i64>(g.n) && h[1] == static_cast<i64>(g.e.size()) && (h.size() > 2 ? h[2] % 10 : 0) == weighted, K + "/header", L[0])) return false;
    Graph got; got.n = g.n; u64 arcs = 0;
    std::map<std::pair<u32, u32>, u64> m;
    for (auto& x : g.e) m[{x.u, x.v}] = m[{x.v, x.u}] = unit ? 1 : x.w;
    for (u32 v = 0; v < g.n; ++v) {
        auto q = numbers(L[v + 1]);
        if (!c.check(!weighted || q.size() % 2 == 0, K + "/line", L[v + 1])) return false;
        for (size_t i = 0; i < q.size(); i += weighted ? 2 : 1) {
            ++arcs;
            auto it = m.find({v, static_cast<u32>(q[i] - 1)});
            if (!c.check(it != m.end() && (!weighted || static_cast<u64>(q[i + 1]) == it->second), K + "/arc", std::to_string(v) + " line " + L[v + 1])) return false;
        }
    }
    return c.eq(K + "/arcs", arcs, static_cast<u64>(2 * g.e.size()));
}

void run_case(Ctx& c) {
    silence();
    Rng& r = c.rng;
    bool small = c.mode == "small";
    huge_mode() = c.mode == "huge";
    Graph g = any_graph(r, small);
    const char* ops[] = {"read", "read", "read", "read", "write", "write mutable", "write unweighted", "dimacs", "cut", "vector", "write vector", "events", "flow graph"};
    std::string op = ops[r.below(13)];
    c.eval(); c.count("operations:" + op);
    std::string f = path(c, "io-file");
    std::string what;
    auto unit = g; for (auto& x : unit.e) x.w = 1;
    if (op == "read") {
        Layout l;
        l.edge_w = r.chance(1, 2); l.vertex_w = r.chance(1, 4); l.sizes = r.chance(1, 12); l.loops = r.chance(1, 6);
        l.comments = r.chance(1, 3); l.blanks = r.chance(1, 3); l.tabs = r.chance(1, 5); l.crlf = r.chance(1, 10); l.last_newline = !r.chance(1, 6);
        l.ncon = l.vertex_w && r.chance(1, 3) ? 1 + r.below(3) : 0;
        std::string d; d += l.sizes ? '1' : '0'; d += l.vertex_w ? '1' : '0'; d += l.edge_w ? '1' : '0';
        if (!l.ncon) { if (d == "000" && r.chance(1, 2)) d = ""; else while (d.size() > 1 && d[0] == '0' && r.chance(1, 2)) d.erase(0, 1); }
        l.fmt = d;
        std::string text = metis(r, g, l, &what);
        spill(f, text);
        c.note(what + " " + g.str(60) + "\n" + text.substr(0, 600));
        c.nontrivial(hash_str(text));
        for (const char* k : {"blanks", "comments", "tabs", "crlf", "loops"}) if (what.find(k) != std::string::npos) c.count(std::string("layouts:") + k);
        if (l.vertex_w) c.count("layouts:vertex weights");
        c.distinct("formats", hash_str(l.fmt) >> 8);
        const Graph& want = l.edge_w ? g : unit;
        if (r.chance(2, 3)) {
            auto A = graph_io::readGraphWeighted<graph_access>(f);
            same_graph(c, op, from_ga(A), A->number_of_edges(), want);
            if (!c.fails) arcs_ok(c, op, A, want);
            if (c.fails) return;
            for (NodeID v : A->nodes()) c.eq(op + "/block", A->getPartitionIndex(v), static_cast<PartitionID>(0));
            u64 mn = ~0ull; std::vector<u64> deg(g.n, 0);
            for (auto& x : want.e) { deg[x.u] += x.w; deg[x.v] += x.w; }
            for (auto x : deg) mn = std::min(mn, x);
            c.eq(op + "/minimum degree", static_cast<u64>(A->getMinDegree()), mn);
        } else {
            auto M = graph_io::readGraphWeighted<mutable_graph>(f);
            same_graph(c, op + " mutable", from_mg(M), M->number_of_edges(), want);
            auto bad = mg_integrity(M); c.check(bad.empty(), op + " mutable/graph", bad);
        }
    } else if (op == "write" || op == "write mutable" || op == "write unweighted") {
        c.note(op + " " + g.str());
        if (g.e.size() > 1) c.nontrivial(mix(g.hash(), hash_str(op)));
        auto A = to_ga(g);
        if (op == "write") c.eq(op + "/status", graph_io::writeGraphWeighted(A, f), 0);
        else if (op == "write mutable") c.eq(op + "/status", graph_io::writeGraphWeighted(to_mg(g), f), 0);
        else c.eq(op + "/status", graph_io::writeGraph(A, f), 0);
        bool w = op != "write unweighted";
        if (!parse(c, op + "/file", slurp(f), w, g, !w)) return;
        auto B = graph_io::readGraphWeighted(f);
        same_graph(c, op + "/read back", from_ga(B), B->number_of_edges(), w ? g : unit);
        if (!c.fails) arcs_ok(c, op + "/read back", B, w ? g : unit);
    } else if (op == "dimacs") {
        c.note(op + " " + g.str());
        if (g.e.size() > 1) c.nontrivial(mix(g.hash(), hash_str(op)));
        graph_io::writeGraphDimacsKS(to_ga(g), f, "max");
        auto L = lines(slurp(f));
        if (!c.eq(op + "/lines", L.size(), g.e.size() + 1)) return;
        c.check(L[0] == "p max " + std::to_string(g.n) + " " + std::to_string(g.e.size()), op + "/header", L[0]);
        std::set<std::string> want, got(L.begin() + 1, L.end());
        for (auto& x : g.e) want.insert("a " + std::to_string(x.u + 1) + " " + std::to_string(x.v + 1) + " " + std::to_string(x.w));
        c.check(want == got, op, "edge lines differ");
    } else if (op == "cut") {
        c.note(op + " " + g.str(50));
        bool mut = r.chance(1, 2);
        std::string want;
        auto A = to_ga(g); auto M = to_mg(g);
        for (u32 v = 0; v < g.n; ++v) { bool in = r.chance(1, 2); want += in ? "1\n" : "0\n"; A->setNodeInCut(v, in); M->setNodeInCut(v, in); }
        if (mut) graph_io::writeCut(M, f); else graph_io::writeCut(A, f);
        c.check(slurp(f) == want, op, "file differs");
        c.nontrivial(hash_str(want) + mut);
        auto back = graph_io::readVector<NodeID>(f);
        if (!c.eq(op + "/read back", back.size(), static_cast<size_t>(g.n))) return;
        for (u32 v = 0; v < g.n; ++v) c.eq(op + "/read back", back[v], static_cast<NodeID>(want[2 * v] - '0'));
    } else if (op == "vector") {
        std::vector<u64> v(r.below(30)); bool big = r.chance(1, 3), comments = r.chance(1, 2), end = r.chance(2, 3), crlf = r.chance(1, 8);
        for (auto& x : v) x = r.below(big ? 1ull << 32 : 10);
        std::string text; const char* nl = crlf ? "\r\n" : "\n";
        for (size_t i = 0; i < v.size(); ++i) {
            if (comments && r.chance(1, 4)) text += std::string("% 5") + nl;
            text += std::to_string(v[i]);
            if (i + 1 < v.size() || end) text += nl;
        }
        if (end && comments && r.chance(1, 3)) text += std::string("%") + nl;
        spill(f, text); c.note("vector " + text); c.nontrivial(hash_str(text));
        auto got = graph_io::readVector<NodeID>(f);
        if (!c.eq(op + "/length", got.size(), v.size())) return;
        for (size_t i = 0; i < v.size(); ++i) if (!c.eq(op, static_cast<u64>(got[i]), v[i], "entry " + std::to_string(i))) return;
    } else if (op == "write vector") {
        std::vector<NodeID> v(r.below(200)); for (auto& x : v) x = r.below(r.chance(1, 2) ? 1ull << 32 : 10);
        std::string want; for (auto x : v) want += std::to_string(x) + "\n";
        graph_io gio; gio.writeVector(v, f);
        c.note("vector " + want.substr(0, 500));
        c.check(slurp(f) == want, op, "file differs"); c.nontrivial(hash_str(want));
        c.check(graph_io::readVector<NodeID>(f) == v, op + "/read back", "");
    } else if (op == "events") {
        // u v t | u v w t | u v +w t | u v -w t, in any order of time
        u32 k = r.below(40), n = 0; int kind = r.below(3); bool distinct = r.chance(1, 2), tabs = r.chance(1, 4), end = r.chance(3, 4);
        std::vector<u64> t(k); u64 base = 0;
        for (auto& x : t) x = distinct ? ++base : r.below(10);
        r.shuffle(t);
        std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > want;
        std::ostringstream o; const char* s = tabs ? "\t" : " ";
        for (u32 i = 0; i < k; ++i) {
            if (r.chance(1, 6)) o << "% asym 1 2\n";
            u32 a = 1 + r.below(50), b = 1 + r.below(50); i64 w = 1; n = std::max({n, a, b});
            o << a << s << b << s;
            if (kind == 1) { w = 1 + r.below(5); o << w << s; }
            if (kind == 2) { w = 1 + r.below(1000); bool neg = r.chance(1, 2); o << (neg ? "-" : "+") << w << s; if (neg) w = -w; }
            o << t[i];
            if (i + 1 < k || end) o << "\n";
            want.emplace_back(a - 1, b - 1, w, t[i]);
        }
        spill(f, o.str()); c.note("events " + o.str()); c.nontrivial(hash_str(o.str()));
        auto [nv, ev] = graph_io::readTemporalGraph(f);
        c.eq(op + "/vertices", nv, n);
        for (size_t i = 1; i < ev.size(); ++i) if (!c.check(std::get<3>(ev[i - 1]) <= std::get<3>(ev[i]), op + "/order", "event " + std::to_string(i))) return;
        // by time; events of the same time (an edge is inserted and deleted again) as they are in the file
        std::stable_sort(want.begin(), want.end(), [](auto& x, auto& y) { return std::get<3>(x) < std::get<3>(y); });
        for (size_t i = 0; i < want.size() && i < ev.size(); ++i) if (!c.check(want[i] == ev[i], op, "event " + std::to_string(i))) return;
        c.eq(op + "/count", ev.size(), want.size());
    } else {
        c.note(op + " " + g.str());
        if (g.e.size() > 1) c.nontrivial(mix(g.hash(), hash_str(op)));
        auto F = graph_io::createFlowGraph(to_ga(g));
        if (!c.eq(op + "/vertices", F->number_of_nodes(), g.n)) return;
        c.eq(op + "/edges", static_cast<u64>(F->number_of_edges()), static_cast<u64>(4 * g.e.size()));
        std::map<std::pair<u32, u32>, u64> m, got;
        for (auto& x : g.e) m[{x.u, x.v}] = m[{x.v, x.u}] = x.w;
        for (NodeID v : F->nodes()) {
            u64 cap = 0;
            for (EdgeID e : F->edges_of(v)) {
                NodeID t = F->getEdgeTarget(v, e); EdgeID q = F->getReverseEdge(v, e);
                if (!c.check(t < g.n && q < F->get_first_invalid_edge(t) && F->getEdgeTarget(t, q) == v && F->getReverseEdge(t, q) == e, op + "/reverse", std::to_string(v) + "->" + std::to_string(t))) return;
                c.check((F->getEdgeCapacity(v, e) == 0) != (F->getEdgeCapacity(t, q) == 0), op + "/residual edge", "");
                c.eq(op + "/flow", F->getEdgeFlow(v, e), static_cast<FlowType>(0));
                if (F->getEdgeCapacity(v, e)) got[{v, t}] += F->getEdgeCapacity(v, e);
                cap += F->getEdgeCapacity(v, e);
            }
            c.eq(op + "/capacity", static_cast<u64>(F->getCapacity(v)), cap);
        }
        c.check(m == got, op, "capacities differ");
    }
    unlink(f.c_str());
    if (c.index % 101 == 0) c.sample(op + " " + what + " " + g.str().substr(0, 150));
}
}  // namespace
int main(int argc, char** argv) { return run_main(argc, argv, run_case); }
