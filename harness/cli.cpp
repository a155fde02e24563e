// I02: the programs, run as a user runs them: a graph file, options, and what
// they print and write is compared with independent answers.
// mode = <program>[:<size>[:<variant of the binary>]]
#include "cactus.hpp"
#include "multiway.hpp"

#include <spawn.h>
#include <sys/wait.h>

using namespace vf;
extern char** environ;

namespace {
std::string VAR = "SEQ_REL";
bool PAR = false;

std::string bin(const std::string& app) {
    std::string up = app;
    for (auto& ch : up) ch = toupper(ch);
    std::string k = "VF_TOOL_" + up + "_CPP_" + VAR;
    const char* p = getenv(k.c_str());
    if (!p) throw std::logic_error("no binary: " + k);
    return p;
}
void spill(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; }
std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
bool exists(const std::string& p) { struct stat st; return stat(p.c_str(), &st) == 0; }
std::vector<std::string> lines(const std::string& s) {
    std::vector<std::string> r; std::istringstream i(s); std::string l;
    while (std::getline(i, l)) r.push_back(l);
    return r;
}

struct Result { int rc = 0; bool sig = false; std::string out; };
// in the current directory, output of both streams together
Result call(Ctx& c, const std::string& app, std::vector<std::string> args) {
    std::string b = bin(app);
    std::vector<std::string> all{b};
    all.insert(all.end(), args.begin(), args.end());
    std::vector<char*> argv;
    for (auto& a : all) argv.push_back(const_cast<char*>(a.c_str()));
    argv.push_back(nullptr);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 1, "cli.out", O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    posix_spawn_file_actions_adddup2(&fa, 1, 2);
    pid_t pid;
    int e = posix_spawn(&pid, b.c_str(), &fa, nullptr, argv.data(), environ);
    posix_spawn_file_actions_destroy(&fa);
    if (e) throw std::runtime_error("posix_spawn failed");
    int st;
    child() = pid;
    while (waitpid(pid, &st, 0) < 0) { }
    child() = 0;
    Result r;
    r.out = slurp("cli.out");
    if (WIFSIGNALED(st)) { r.sig = true; r.rc = WTERMSIG(st); }
    else r.rc = WEXITSTATUS(st);
    c.count("runs:" + app + (PAR ? "_parallel" : ""));
    c.eval();
    return r;
}
std::string tail(const std::string& s, size_t n = 1500) { return s.size() > n ? s.substr(s.size() - n) : s; }
bool ended_well(Ctx& c, const std::string& app, const Result& r) {
    if (!r.sig && r.rc == 0) return true;
    std::string kind = "exit-" + std::to_string(r.rc);
    if (r.sig) kind = "signal-" + std::to_string(r.rc);
    auto has = [&](const char* x) { return r.out.find(x) != std::string::npos; };
    if (has("AddressSanitizer")) kind = "asan";
    else if (has("runtime error:")) kind = "ubsan";
    else if (has("Assertion") || has("VIECUT_ASSERT")) kind = "assertion";
    c.fail("ended:" + app + ":" + kind, tail(r.out));
    return false;
}
// the k=v words of every line that contains RESULT
std::vector<std::map<std::string, std::string> > results(const std::string& out) {
    std::vector<std::map<std::string, std::string> > r;
    for (auto& l : lines(out)) {
        auto p = l.find("RESULT");
        if (p == std::string::npos) continue;
        r.emplace_back();
        std::istringstream i(l.substr(p + 6)); std::string w;
        while (i >> w) { auto q = w.find('='); if (q != std::string::npos) r.back()[w.substr(0, q)] = w.substr(q + 1); }
    }
    return r;
}
u64 num(const std::string& s) { return s.empty() || s.find_first_not_of("0123456789") != std::string::npos ? ~0ull - 1 : std::stoull(s); }

std::string metis(Rng& r, const Graph& g) {
    bool unit = std::all_of(g.e.begin(), g.e.end(), [](const auto& e) { return e.w == 1; });
    bool w = !unit || r.chance(1, 2);
    std::ostringstream o;
    if (r.chance(1, 6)) o << "% a comment\n";
    o << g.n << " " << g.e.size();
    if (w) o << (r.chance(1, 3) ? " 001" : " 1"); else if (r.chance(1, 4)) o << " 0";
    o << "\n";
    auto a = g.adj();
    for (u32 v = 0; v < g.n; ++v) {
        r.shuffle(a[v]);
        bool f = true;
        for (auto& [t, x] : a[v]) { if (!f) o << " "; f = false; o << t + 1; if (w) o << " " << x; }
        o << "\n";
    }
    return o.str();
}
// a graph file as the project writes them; "" or what is wrong
std::string read_metis(const std::string& f, Graph* g) {
    std::ifstream in(f); std::string l;
    if (!std::getline(in, l)) return "no file";
    std::istringstream h(l); u64 n, m, fmt = 0;
    if (!(h >> n >> m)) return "bad header";
    if (!(h >> fmt)) fmt = 0;
    g->n = n; g->e.clear();
    std::map<std::pair<u32, u32>, u64> arcs;
    for (u32 v = 0; v < n; ++v) {
        if (!std::getline(in, l)) return "line of vertex " + std::to_string(v + 1) + " missing";
        std::istringstream s(l); u64 t, w = 1;
        while (s >> t) {
            if (fmt % 10 == 1 && !(s >> w)) return "weight missing";
            if (t < 1 || t > n || t - 1 == v) return "bad neighbor";
            if (!arcs.insert({{v, u32(t - 1)}, w}).second) return "edge twice";
        }
    }
    while (std::getline(in, l)) if (!l.empty()) return "more lines than vertices";
    for (auto& [p, w] : arcs) {
        auto i = arcs.find({p.second, p.first});
        if (i == arcs.end() || i->second != w) return "not symmetric";
        if (p.first < p.second) g->e.push_back({p.first, p.second, w});
    }
    if (g->e.size() != m) return "header says " + std::to_string(m) + " edges, there are " + std::to_string(g->e.size());
    return "";
}
std::vector<char> read_cut(Ctx& c, const std::string& app, const std::string& f, u32 n, bool* ok) {
    auto l = lines(slurp(f));
    std::vector<char> s;
    *ok = c.check(l.size() == n, "cut-file-size:" + app, f + " has " + std::to_string(l.size()) + " lines for " + std::to_string(n) + " vertices");
    for (auto& x : l) {
        if (x != "0" && x != "1") { *ok = false; c.fail("cut-file-content:" + app, "line '" + x + "'"); break; }
        s.push_back(x == "1");
    }
    return s;
}
std::string join(const std::vector<std::string>& a) { std::string r; for (auto& x : a) r += (r.empty() ? "" : " ") + x; return r; }
std::string file_name(Rng& r, const std::string& base) {
    // names with dots and directories, as users have them
    switch (r.below(5)) {
    case 0: return base;
    case 1: return base + ".graph";
    case 2: return "./" + base + ".metis";
    case 3: mkdir("sub.dir", 0700); return "sub.dir/" + base + ".graph";
    default: return base + ".v2.graph";
    }
}
u64 min_degree(const Graph& g) {
    std::vector<u64> d(g.n, 0); for (auto& e : g.e) { d[e.u] += e.w; d[e.v] += e.w; }
    return *std::min_element(d.begin(), d.end());
}
u64 max_degree(const Graph& g) {
    std::vector<u64> d(g.n, 0); for (auto& e : g.e) { d[e.u] += e.w; d[e.v] += e.w; }
    return *std::max_element(d.begin(), d.end());
}
Graph pick_graph(Ctx& c, const std::string& size, bool connected, bool large) {
    GenOpts o; o.nmin = size == "small" ? 3 : 20; o.nmax = size == "small" ? 12 : 150;
    o.connected = connected || !c.rng.chance(1, 12); o.large = large;
    return normalise(gen_graph(c.rng, o));
}

// ------------------------------------------------------------- mincut ----
void graphml(Ctx& c, const Graph& g, u64 lambda, const std::string& f) {
    std::string s = slurp(f);
    auto attr = [&](size_t p, const char* name) { auto q = s.find(std::string(name) + "=\"", p); q += strlen(name) + 2; return s.substr(q, s.find('"', q) - q); };
    auto data = [&](size_t p) { auto q = s.find("<data", p); q = s.find('>', q) + 1; return s.substr(q, s.find('<', q) - q); };
    std::vector<std::vector<u32> > in; std::map<std::string, u32> id; Graph k;
    for (size_t p = s.find("<node "); p != std::string::npos; p = s.find("<node ", p + 1)) {
        id[attr(p, "id")] = in.size(); in.emplace_back();
        std::istringstream d(data(p)); std::string w;
        while (std::getline(d, w, ',')) in.back().push_back(std::stoul(w));
    }
    k.n = in.size();
    std::set<std::string> eids; bool dup = false;
    for (size_t p = s.find("<edge "); p != std::string::npos; p = s.find("<edge ", p + 1)) {
        dup |= !eids.insert(attr(p, "id")).second;
        auto a = id.find(attr(p, "source")), b = id.find(attr(p, "target"));
        if (a == id.end() || b == id.end()) return c.fail("graphml-edge", "edge names a node that is not there");
        k.e.push_back({a->second, b->second, u64(std::stod(data(p)))});
    }
    c.check(!dup, "graphml-edge-ids", "two edges have the same id");
    c.check(s.rfind("</graphml>") != std::string::npos, "graphml-end", "the file ends early");
    c.check(id.size() == in.size(), "graphml-node-ids", "two nodes have the same id");
    auto C = std::make_shared<mutable_graph>();
    C->start_construction(std::max<u32>(g.n, k.n));
    C->finish_construction();
    // only what read_cactus looks at
    auto M = std::make_shared<mutable_graph>();
    M->start_construction(k.n);
    for (auto& e : k.e) M->new_edge_order(e.u, e.v, e.w);
    M->finish_construction();
    M->setOriginalNodes(g.n);
    for (u32 i = 0; i < k.n; ++i) {
        std::vector<NodeID> cv(in[i].begin(), in[i].end());
        M->setContainedVertices(i, cv);
        for (u32 v : in[i]) if (v < g.n) M->setCurrentPosition(v, i);
    }
    auto R = read_cactus(M, g.n, lambda);
    if (!R.bad.empty()) return c.fail("graphml-cactus", R.bad);
    auto all = all_mincuts(g, 20000);
    if (!all.truncated) c.check(R.cuts == all.cuts, "graphml-cuts", "the file stands for " + std::to_string(R.cuts.size()) + " cuts, there are " + std::to_string(all.cuts.size()) + " minimum cuts");
    c.count("graphml files checked");
}

void mincut_case(Ctx& c, const std::string& size) {
    Rng& r = c.rng;
    static const std::vector<std::string> seq{"vc", "noi", "noi", "ks", "matula", "pr", "cactus", "cactus"}, par{"inexact", "exact", "exact", "cactus"};
    std::string alg = r.pick(PAR ? par : seq);
    Graph g = pick_graph(c, size, alg == "cactus" || alg == "ks", size == "small" && r.chance(1, 4) && alg != "cactus");
    if (alg == "cactus") { u64 t = 0; for (auto& e : g.e) t += e.w; if (t > 5000000) for (auto& e : g.e) e.w = e.w % 50 + 1; }
    u64 lambda = size == "small" ? brute_mincuts(g).value : stoer_wagner(g);
    std::string f = file_name(r, "g");
    spill(f, metis(r, g));
    std::vector<std::string> a;
    auto opt = [&](const std::string& s, const std::string& v = "") {
        if (v.empty()) a.push_back("-" + s);
        else if (r.chance(1, 4)) a.push_back("-" + s + v);
        else { a.push_back("-" + s); a.push_back(v); }
    };
    bool bq = max_degree(g) < 2000000;
    if (r.chance(1, 2)) { const char* q[] = {"heap", "bqueue", "bstack"}; opt("q", q[bq ? r.below(3) : 0]); }
    u32 iters = 1, runs = 1;
    if (r.chance(1, 3)) { iters = 1 + r.below(3); opt("i", std::to_string(iters)); }
    if (r.chance(1, 4)) opt("l");
    std::vector<u32> procs{1};
    if (PAR && r.chance(3, 4)) {
        procs.clear();
        u32 k = 1 + r.below(2);
        for (u32 i = 0; i < k; ++i) { procs.push_back(1 + r.below(8)); opt("p", std::to_string(procs.back())); }
    }
    runs = iters * procs.size();
    bool save = r.chance(2, 3), bal = false, cond = false, file = false, xml = false;
    if (save) opt("s");
    if (save && alg == "cactus") { bal = r.chance(1, 2); if (bal) opt("b"); else if (r.chance(1, 4)) { cond = true; opt("d"); } }
    if (save && r.chance(5, 6)) { file = true; opt("o", "cut.out"); }
    if (alg == "cactus" && !PAR && r.chance(1, 3)) { xml = true; opt("t", "cactus.xml"); }
    if (r.chance(1, 3)) { const char* e[] = {"random", "heavy", "heavy_weighted", "heavy_vertex"}; opt("e", e[r.below(4)]); }
    if (r.chance(1, 2)) opt("r", std::to_string(r.below(1000)));
    // options before, after and between the two parameters
    u32 x = r.below(3);
    std::vector<std::string> args;
    if (x == 0) { args = a; args.push_back(f); args.push_back(alg); }
    else if (x == 1) { args = {f, alg}; args.insert(args.end(), a.begin(), a.end()); }
    else { args = {f}; args.insert(args.end(), a.begin(), a.end()); args.push_back(alg); }
    c.note("mincut " + join(args) + " on " + g.str(120));
    unlink("cut.out"); unlink("cactus.xml");
    auto R = call(c, "mincut", args);
    c.distinct("command lines", hash_str(join(args)));
    if (g.e.size() > 1) c.nontrivial(mix(g.hash(), hash_str(join(args))));
    if (!ended_well(c, "mincut", R)) return;
    auto res = results(R.out);
    if (!c.check(res.size() == runs, "results:mincut", std::to_string(res.size()) + " result lines for " + std::to_string(runs) + " runs\n" + tail(R.out))) return;
    bool exact = alg == "noi" || alg == "exact" || alg == "cactus";
    std::set<u64> vals;
    if (size == "small" && !exact) all_cuts(g, [&](u64, u64 w) { vals.insert(w); });
    u64 last = 0;
    for (u32 i = 0; i < runs; ++i) {
        u64 got = last = num(res[i]["cut"]);
        if (exact) c.eq("cut:mincut:" + alg, got, lambda, tail(R.out, 400));
        else {
            c.check(got >= lambda, "below-minimum:mincut:" + alg, std::to_string(got) + " < " + std::to_string(lambda));
            if (!vals.empty()) c.check(vals.count(got), "not-a-cut:mincut:" + alg, "no cut has weight " + std::to_string(got));
            if (alg == "matula" && g.connected()) c.check(got <= 2 * lambda + 2, "matula-bound:mincut", std::to_string(got) + " for " + std::to_string(lambda));
        }
        c.eq("n:mincut", num(res[i]["n"]), g.n);
        c.eq("m:mincut", num(res[i]["m"]), g.e.size());
        c.eq("processes:mincut", num(res[i]["processes"]), procs[i % procs.size()]);
    }
    if (file) {
        bool ok; auto side = read_cut(c, "mincut:" + alg + (bal || cond ? ":balanced" : ""), "cut.out", g.n, &ok);
        if (ok) {
            u32 ones = std::count(side.begin(), side.end(), 1);
            c.check(ones > 0 && ones < g.n, "cut-file-improper:mincut:" + alg, "all vertices on one side");
            c.eq("cut-file-weight:mincut:" + alg, cut_weight(g, side), last);
            c.count("cut files checked");
            if (bal) {
                auto all = all_mincuts(g, 20000);
                if (!all.truncated) {
                    u32 best = 0;
                    for (auto& b : all.cuts) { u32 k = 0; for (u64 w : b) k += __builtin_popcountll(w); best = std::max(best, std::min(k, g.n - k)); }
                    c.eq("most-balanced:mincut", std::min(ones, g.n - ones), best);
                }
            }
        }
    }
    if (xml) graphml(c, g, lambda, "cactus.xml");
    c.sample("mincut " + join(args));
}

// -------------------------------------------------- multiterminal_cut ----
void multiterminal_case(Ctx& c, const std::string& size) {
    Rng& r = c.rng;
    GenOpts o; o.nmin = size == "small" ? 4 : 12; o.nmax = size == "small" ? 12 : 36; o.connected = !r.chance(1, 8);
    Graph g = normalise(gen_graph(r, o));
    u32 k = 2 + r.below(std::min(size == "small" ? 3u : 4u, g.n - 2));
    std::string f = file_name(r, "g");
    spill(f, metis(r, g));
    std::vector<u32> map(g.n, ~0u), p(g.n); std::iota(p.begin(), p.end(), 0u); r.shuffle(p);
    std::vector<std::string> a;
    bool known_terms = true; u32 bfs = 0;
    switch (r.below(6)) {
    case 0: case 1:
        for (u32 i = 0; i < k; ++i) { map[p[i]] = i; a.push_back("-t"); a.push_back(std::to_string(p[i])); }
        break;
    case 3:
        if (r.chance(1, 2)) {
            // a block and a position in it for every vertex, the first ones are terminals
            u32 pct = r.chance(1, 4) ? 0 : 1 + r.below(100);
            std::vector<u32> blk(g.n), pos(g.n), cnt(k, 0);
            u32 first = r.below(2);
            for (u32 i = 0; i < g.n; ++i) { u32 b = i < k ? i : r.below(k); blk[p[i]] = b; pos[p[i]] = first + cnt[b]++; }
            u32 lim = std::max<u32>(1, pct ? (g.n / k) * pct / 100 : 1);
            std::ostringstream s1, s2;
            for (u32 v = 0; v < g.n; ++v) { s1 << blk[v] << "\n"; s2 << pos[v] << "\n"; if (pos[v] <= lim) map[v] = blk[v]; }
            std::string pf = "order." + std::to_string(k);
            spill(pf, s1.str()); spill(pf + ".pos", s2.str());
            a.push_back("-f"); a.push_back(pf);
            if (pct || r.chance(1, 2)) { a.push_back("-n"); a.push_back(std::to_string(pct)); }
            c.count("order files");
            break;
        }
        // fall through
    case 2: {
        for (u32 i = 0; i < k; ++i) map[p[i]] = i;
        u32 den = 2 + r.below(6);
        for (u32 i = k; i < g.n; ++i) if (r.chance(1, den)) map[p[i]] = r.below(k);
        std::ostringstream s;
        for (u32 v = 0; v < g.n; ++v) s << (map[v] == ~0u ? k : map[v]) << "\n";
        std::string pf = "part." + std::to_string(k) + ".pre";
        spill(pf, s.str());
        a.push_back("-f"); a.push_back(pf);
        break;
    }
    case 4: known_terms = false; a.push_back("-k"); a.push_back(std::to_string(k)); break;
    default: known_terms = false; a.push_back(r.chance(1, 2) ? "-r" : "-D"); a.push_back(std::to_string(k)); break;
    }
    bool file = !a.empty() && a[0] == "-f";
    if (!file && r.chance(1, 4)) { bfs = 1 + r.below(std::max(1u, g.n / k)); a.push_back("-b"); a.push_back(std::to_string(bfs)); if (bfs > 1) known_terms = false; }
    u32 thr = 1 + (r.chance(2, 3) ? 0 : r.below(4));
    a.push_back("-p"); a.push_back(std::to_string(thr));
    bool inexact = r.chance(1, 6);
    if (inexact) {
        a.push_back("-X");
        if (r.chance(1, 3)) { a.push_back("-c"); a.push_back(std::to_string(r.below(4))); }
        if (r.chance(1, 3)) { a.push_back("-l"); a.push_back(r.chance(1, 2) ? "0.3" : "0.7"); }
    }
    if (r.chance(1, 4)) { const char* e[] = {"heavy_vertex", "random", "heavy", "heavy_global", "connection", "distance"}; a.push_back("-e"); a.push_back(e[r.below(6)]); }
    if (r.chance(1, 2)) { const char* q[] = {"bound_sum", "small_graph", "few_terminals", "upper_bound", "lower_bound", "bigger_distance", "lower_distance", "most_deleted"}; a.push_back("-q"); a.push_back(q[r.below(8)]); }
    if (r.chance(1, 2)) { a.push_back("-s"); a.push_back(std::to_string(r.below(1000))); }
    if (r.chance(1, 2)) a.push_back("-d");
    bool write = r.chance(5, 6) || !known_terms;
    if (write) a.push_back("-w");
    if (r.chance(1, 2)) a.insert(a.begin(), f); else a.push_back(f);
    c.note("multiterminal_cut " + join(a) + " on " + g.str());
    if (r.chance(1, 3)) spill("solution", "0\n1\n2\n"); else unlink("solution");
    auto R = call(c, "multiterminal_cut", a);
    if (!ended_well(c, "multiterminal_cut", R)) return;
    auto res = results(R.out);
    if (!c.check(res.size() == 1, "results:multiterminal_cut", tail(R.out))) return;
    u64 got = num(res[0]["cut"]);
    c.eq("terminals:multiterminal_cut", num(res[0]["terminals"]), k);
    c.eq("n:multiterminal_cut", num(res[0]["n"]), g.n);
    c.eq("m:multiterminal_cut", num(res[0]["m"]), g.e.size());
    if (write) {
        auto l = lines(slurp("solution"));
        std::vector<u32> sol; for (auto& x : l) sol.push_back(num(x));
        if (c.check(sol.size() == g.n, "solution-size:multiterminal_cut", std::to_string(sol.size()) + " lines")) {
            u64 w = 0; bool ok = true;
            for (u32 v = 0; v < g.n && ok; ++v) {
                ok = c.check(sol[v] < k, "solution-block:multiterminal_cut", "vertex " + std::to_string(v));
                if (known_terms && ok) ok = c.check(map[v] == ~0u || map[v] == sol[v], "solution-terminal:multiterminal_cut", "vertex " + std::to_string(v) + " of terminal " + std::to_string(map[v]) + " is in block " + std::to_string(sol[v]));
            }
            for (auto& e : g.e) if (sol[e.u] != sol[e.v]) w += e.w;
            if (ok) c.eq("solution-weight:multiterminal_cut", got, w);
            c.count("solutions checked");
        }
    }
    if (known_terms) {
        MultiwayOracle M(g, map, k, size == "small" ? 400000 : 4000);
        if (M.run()) {
            if (inexact) c.check(got >= M.best, "below-optimum:multiterminal_cut", std::to_string(got) + " < " + std::to_string(M.best));
            else c.eq("optimum:multiterminal_cut", got, M.best);
            c.count("optima known");
        }
    }
    c.nontrivial(mix(g.hash(), hash_str(join(a))));
    c.distinct("command lines", hash_str(join(a)));
    c.sample("multiterminal_cut " + join(a));
}

// ----------------------------------------------------- dynamic_mincut ----
u64 value_of(const std::map<std::pair<u32, u32>, u64>& m, u32 n) {
    Graph g; g.n = n;
    for (auto& [p, w] : m) g.e.push_back({p.first, p.second, w});
    return n <= 12 ? brute_mincuts(g).value : stoer_wagner(g);
}
void dynamic_case(Ctx& c, const std::string& size) {
    Rng& r = c.rng;
    bool init = r.chance(3, 4);
    Graph g = pick_graph(c, size, false, false);
    for (auto& e : g.e) e.w = e.w % 20 + 1;
    std::map<std::pair<u32, u32>, u64> m;
    u32 n = g.n;
    if (init) for (auto& e : g.e) m[{std::min(e.u, e.v), std::max(e.u, e.v)}] += e.w;
    u32 k = 1 + r.below(size == "small" ? 40 : 25);
    // "v1 v2 weight time"; vertices from 1.  Without an initial graph the largest number decides how many there are.
    std::ostringstream ev; u32 top = 0;
    struct Ev { u32 a, b; i64 w; u64 t; };
    std::vector<Ev> evs; u64 now = 1;
    bool st = r.chance(1, 4), nb = r.chance(1, 2);
    u32 skew = r.below(3);
    for (u32 i = 0; i < k; ++i) {
        if (r.chance(1, 2)) now += 1 + r.below(3);
        bool del = !m.empty() && r.chance(skew == 0 ? 1 : skew == 1 ? 2 : 3, 4);
        Ev e;
        if (del) {
            auto it = m.begin(); std::advance(it, r.below(m.size()));
            e = {it->first.first, it->first.second, -1, now};
            m.erase(it);
        } else {
            u32 x = r.below(n), y = r.below(n);
            if (x == y && !r.chance(1, 4)) y = (x + 1) % n;
            e = {x, y, 1 + r.below(9), now};
            // one edge per pair of vertices, so that a deletion has one meaning
            if (x != y && m.count({std::min(x, y), std::max(x, y)})) { --i; if (r.chance(1, 20)) break; continue; }
            if (x != y) m[{std::min(x, y), std::max(x, y)}] += e.w;
        }
        if (r.chance(1, 2)) std::swap(e.a, e.b);
        evs.push_back(e);
        top = std::max({top, e.a + 1, e.b + 1});
    }
    if (evs.empty()) return;
    if (!init) n = top;
    if (n < 2) return;
    if (r.chance(1, 3)) ev << "% comment\n";
    for (auto& e : evs) ev << e.a + 1 << " " << e.b + 1 << " " << e.w << " " << e.t << "\n";
    spill("events", ev.str());
    std::vector<std::string> a{"-d", "events"};
    if (init) { spill("init.graph", metis(r, g)); a.push_back("-i"); a.push_back("init.graph"); }
    if (st) a.push_back("-s");
    if (nb) a.push_back("-b");
    if (PAR) { a.push_back("-p"); a.push_back(std::to_string(1 + r.below(6))); }
    if (r.chance(1, 2)) { a.push_back("-r"); a.push_back(std::to_string(r.below(100))); }
    if (r.chance(1, 6)) a.push_back("-v");
    if (r.chance(1, 6)) a.push_back("-m");
    c.note("dynamic_mincut " + join(a) + " n=" + std::to_string(n) + " events " + [&] { auto s = ev.str(); for (auto& ch : s) if (ch == '\n') ch = ';'; return s.substr(0, 1500); }() + " on " + (init ? g.str(120) : "nothing"));
    // what has to come out
    m.clear();
    if (init) for (auto& e : g.e) m[{std::min(e.u, e.v), std::max(e.u, e.v)}] += e.w;
    u64 prev = value_of(m, n), changes = 0, ins = 0, dels = 0;
    bool first = true; u64 ts = evs[0].t, open = 0;
    for (auto& e : evs) {
        if (st) {
            if ((e.t != ts || nb) && open) { open = 0; ts = e.t; u64 v = value_of(m, n); if (v != prev) { prev = v; ++changes; } }
        }
        if (e.a == e.b) continue;
        ++open;
        std::pair<u32, u32> key{std::min(e.a, e.b), std::max(e.a, e.b)};
        if (e.w > 0) { m[key] += e.w; ++ins; } else { m.erase(key); ++dels; }
        if (!st) { u64 v = value_of(m, n); if (v != prev) { prev = v; ++changes; } }
    }
    (void)first;
    u64 fin = value_of(m, n);
    if (st && fin != prev) ++changes;
    auto R = call(c, "dynamic_mincut", a);
    if (!ended_well(c, "dynamic_mincut", R)) return;
    auto res = results(R.out);
    if (!c.check(res.size() == 1, "results:dynamic_mincut", tail(R.out))) return;
    std::string tag = std::string("dynamic_mincut") + (st ? ":static" : "");
    c.eq("insert:" + tag, num(res[0]["insert"]), ins);
    c.eq("delete:" + tag, num(res[0]["delete"]), dels);
    c.eq("n:" + tag, num(res[0]["n"]), n);
    c.eq("initialm:" + tag, num(res[0]["initialm"]), init ? g.e.size() : 0u);
    c.eq("cutchange:" + tag, num(res[0]["cutchange"]), changes, "number of times the minimum cut changes\n" + tail(R.out, 300));
    if (!st) {
        for (auto& l : lines(R.out)) {
            u64 cn, cc;
            auto p = l.find("n ");
            if (p != std::string::npos && sscanf(l.c_str() + p, "n %lu c %lu", &cn, &cc) == 2) { c.eq("final:" + tag, cc, fin); c.count("final values compared"); }
        }
    }
    c.nontrivial(mix(hash_str(ev.str()), hash_str(join(a))));
    c.distinct("command lines", hash_str(join(a)));
    c.sample("dynamic_mincut " + join(a));
}

// ------------------------------------------------ dynmc_from_static ----
// The program turns a graph into a history of its own choosing; the same seed
// gives the same history with and without -s, so that the incremental answers
// can be held against the ones recomputed from scratch after each update.
void dyngen_case(Ctx& c, const std::string& size) {
    Rng& r = c.rng;
    Graph g = pick_graph(c, size, true, false);
    for (auto& e : g.e) e.w = e.w % 30 + 1;

    std::vector<u32> deg(g.n, 0);
    for (auto& e : g.e) { ++deg[e.u]; ++deg[e.v]; }
    // the program looks for edges whose ends both have a further one
    for (u32 k = 0; k < 4 * g.n; ++k) {
        u32 a = r.below(g.n), b = r.below(g.n);
        if (a == b || (deg[a] >= 3 && deg[b] >= 3)) continue;
        bool have = false;
        for (auto& e : g.e) if ((e.u == a && e.v == b) || (e.u == b && e.v == a)) have = true;
        if (have) continue;
        g.e.push_back({a, b, 1 + r.below(9)}); ++deg[a]; ++deg[b];
    }
    u64 eligible = 0;
    for (auto& e : g.e) eligible += deg[e.u] >= 2 && deg[e.v] >= 2;
    if (eligible < 4 || g.n < 3) return;
    bool only = r.chance(1, 2);
    u64 ins = 1 + r.below(eligible / 2), rem = only ? 0 : r.below(eligible / 3 + 1);
    if (ins + rem > 60) ins = 1 + r.below(30), rem = only ? 0 : r.below(30);
    std::vector<std::string> a{"-g", "start.graph", "-x", std::to_string(r.below(1000))};
    if (r.chance(1, 4) && !rem && ins == eligible / 2) { a.push_back("-i"); a.push_back("0.3"); }
    else { a.push_back("-i"); a.push_back(std::to_string(ins)); }
    a.push_back("-r"); a.push_back(std::to_string(rem));
    if (r.chance(1, 4)) { a.push_back("-d"); a.push_back(std::to_string(1 + r.below(4))); }
    spill("start.graph", metis(r, g));
    c.note("dynmc_from_static " + join(a) + " on " + g.str(120));
    auto changes = [&](const std::string& out) {
        std::vector<std::pair<u64, u64> > v;
        for (auto& l : lines(out)) {
            u64 x, y; auto p = l.find("after ");
            if (p != std::string::npos && sscanf(l.c_str() + p, "after %lu %lu", &x, &y) == 2) v.push_back({x, y});
        }
        return v;
    };
    auto R = call(c, "dynmc_from_static", a);
    if (!ended_well(c, "dynmc_from_static", R)) return;
    auto res = results(R.out);
    if (!c.check(res.size() == 1, "results:dynmc_from_static", tail(R.out))) return;
    auto dyn = changes(R.out);
    c.eq("cutchange:dynmc_from_static", num(res[0]["cutchange"]), dyn.size());
    u64 total = num(res[0]["insert"]) + num(res[0]["delete"]);
    u64 lam = [&] { std::map<std::pair<u32, u32>, u64> m; for (auto& e : g.e) m[{std::min(e.u, e.v), std::max(e.u, e.v)}] += e.w; return value_of(m, g.n); }();
    u64 last = 0; bool up = true;
    for (auto& [k, v] : dyn) { up &= v > last; last = v; c.check(k >= 1 && k <= total, "position:dynmc_from_static", tail(R.out)); }
    // with insertions only the graph that comes out is the one that was read
    if (only && !dyn.empty()) {
        c.eq("final:dynmc_from_static", last, lam, "minimum cut of the whole graph " + g.str(80));
        c.check(up, "descends:dynmc_from_static", "the minimum cut got smaller although edges were only added\n" + tail(R.out));
    }
    auto b = a; b.push_back("-s");
    if (r.chance(1, 3)) { b.push_back("-m"); }
    auto Q = call(c, "dynmc_from_static", b);
    if (!ended_well(c, "dynmc_from_static", Q)) return;
    auto sta = changes(Q.out);
    // the last change is announced in other words
    for (auto& l : lines(Q.out)) { u64 y; auto p = l.find("at end, cut "); if (p != std::string::npos && sscanf(l.c_str() + p, "at end, cut %lu", &y) == 1) sta.push_back({total, y}); }
    auto str = [](const std::vector<std::pair<u64, u64> >& v) { std::string s; for (auto& [x, y] : v) s += std::to_string(x) + ":" + std::to_string(y) + " "; return s; };
    c.check(dyn == sta, "differs:dynmc_from_static", "changes of the minimum cut (update:value) " + str(dyn) + "incrementally, " + str(sta) + "from scratch; " + g.str(80));
    c.count("cut changes compared", dyn.size());
    c.nontrivial(mix(hash_str(join(a)), g.hash()));
    c.distinct("command lines", hash_str(join(b)));
    c.sample("dynmc_from_static " + join(a));
}


// ------------------------------------------------- balanced_small_cut ----
// prints the minimum cut of a sequence of graphs, each of them a contraction
// of the first one, and writes them
void balanced_case(Ctx& c, const std::string& size) {
    Rng& r = c.rng;
    Graph g = pick_graph(c, size, true, false);
    for (auto& e : g.e) e.w = e.w % 30 + 1;
    std::string f = file_name(r, "b");
    for (u32 i = 0; i < 400; ++i) { std::string x = f + "_" + std::to_string(i); if (unlink(x.c_str())) break; }
    spill(f, metis(r, g));
    std::vector<std::string> a{f, "-o"};
    // (-a and -b, which add weight to cuts, have no stated end)
    bool all = false, one = false;
    if (r.chance(1, 3)) a.push_back("-c");
    if (PAR) { a.push_back("-p"); a.push_back(std::to_string(1 + r.below(4))); }
    c.note("balanced_small_cut " + join(a) + " on " + g.str(120));
    auto R = call(c, "balanced_small_cut", a);
    if (!ended_well(c, "balanced_small_cut", R)) return;
    std::vector<u64> vals;
    for (auto& l : lines(R.out)) { auto p = l.find("Minimum cut "); u64 v; if (p != std::string::npos && sscanf(l.c_str() + p, "Minimum cut %lu", &v) == 1) vals.push_back(v); }
    c.check(!vals.empty(), "results:balanced_small_cut", tail(R.out));
    Graph cur = g;
    for (u32 i = 0; i < vals.size(); ++i) {
        // augmenting changes weights, then only the first value is known
        if (i == 0 || !(all || one))
            c.eq("cut:balanced_small_cut", vals[i], cur.n <= 12 ? brute_mincuts(cur).value : stoer_wagner(cur), "graph number " + std::to_string(i));
        if (i) c.check(vals[i] >= vals[i - 1], "falling:balanced_small_cut", std::to_string(vals[i]) + " after " + std::to_string(vals[i - 1]));
        Graph nx;
        auto e = read_metis(f + "_" + std::to_string(i), &nx);
        if (!c.check(e.empty(), "file:balanced_small_cut", "graph " + std::to_string(i) + ": " + e)) return;
        // with augmented edges a step may only add weight
        c.check(nx.n < cur.n || ((all || one) && nx.n <= cur.n), "not-smaller:balanced_small_cut", std::to_string(nx.n) + " of " + std::to_string(cur.n));
        c.check(nx.n == 1 || nx.connected(), "disconnected:balanced_small_cut", "");
        // no smaller cuts appear: all minimum cuts of the graph before are gone or still cuts of the same graph
        cur = nx;
        c.count("graphs of the sequence checked");
    }
    c.eq("end:balanced_small_cut", cur.n, 1u);
    c.nontrivial(mix(g.hash(), hash_str(join(a))));
    c.distinct("command lines", hash_str(join(a)));
    c.sample("balanced_small_cut " + join(a));
}

// -------------------------------------------------------------- others ----
std::vector<u32> core_numbers(const Graph& g) {     // by the number of edges
    auto a = g.adj(); std::vector<u32> d(g.n), res(g.n, 0); std::vector<char> gone(g.n, 0);
    for (u32 v = 0; v < g.n; ++v) d[v] = a[v].size();
    u32 k = 0;
    for (u32 i = 0; i < g.n; ++i) {
        u32 b = ~0u;
        for (u32 v = 0; v < g.n; ++v) if (!gone[v] && (b == ~0u || d[v] < d[b])) b = v;
        k = std::max(k, d[b]); res[b] = k; gone[b] = 1;
        for (auto& [t, w] : a[b]) if (!gone[t]) --d[t];
    }
    return res;
}
Graph largest_component(const Graph& g, u32* size) {
    u32 k; auto comp = g.components(&k);
    std::vector<u32> s(k, 0); for (u32 v = 0; v < g.n; ++v) ++s[comp[v]];
    u32 b = std::max_element(s.begin(), s.end()) - s.begin();
    *size = s[b];
    Graph h; std::vector<u32> id(g.n, ~0u);
    for (u32 v = 0; v < g.n; ++v) if (comp[v] == b) id[v] = h.n++;
    for (auto& e : g.e) if (comp[e.u] == b) h.e.push_back({id[e.u], id[e.v], e.w});
    return h;
}
std::vector<u64> shape(const Graph& g) {            // invariant under renaming
    std::vector<u64> d(g.n, 0); for (auto& e : g.e) { d[e.u] += e.w; d[e.v] += e.w; }
    std::sort(d.begin(), d.end());
    d.push_back(g.e.size());
    return d;
}

void kcore_case(Ctx& c, const std::string& size) {
    Rng& r = c.rng;
    Graph g = pick_graph(c, size, false, false);
    for (auto& e : g.e) e.w = 1;
    std::string f = file_name(r, "k");
    spill(f, metis(r, g));
    auto core = core_numbers(g);
    u32 top = *std::max_element(core.begin(), core.end());
    std::vector<u32> ks; std::vector<std::string> a;
    bool nocut = r.chance(1, 2);
    if (top > 2 && r.chance(1, 3)) {
        // the lowest core with a cut that is no single vertex
        a.push_back("-l"); if (nocut) a.push_back("-c");
        a.insert(r.chance(1, 2) ? a.begin() : a.end(), f);
        c.note("kcore " + join(a) + " on " + g.str(150));
        auto of = [&](u32 k) { return f + "_core_" + std::to_string(k); };
        for (u32 k = 0; k <= top + 1; ++k) unlink(of(k).c_str());
        auto R = call(c, "kcore", a);
        if (!ended_well(c, "kcore", R)) return;
        u32 k = 2; bool found = false, sure = true;
        for (; k < top; ++k) {
            if (k > 2 && std::count(core.begin(), core.end(), k - 1) == 0) continue;
            Graph h; std::vector<u32> id(g.n, ~0u);
            for (u32 v = 0; v < g.n; ++v) if (core[v] >= k) id[v] = h.n++;
            for (auto& e : g.e) if (id[e.u] != ~0u && id[e.v] != ~0u) h.e.push_back({id[e.u], id[e.v], 1});
            u32 sz; Graph L = largest_component(h, &sz);
            u32 nc; auto comp = h.components(&nc);
            std::vector<u32> s(nc, 0); for (u32 x : comp) ++s[x];
            if (std::count(s.begin(), s.end(), sz) != 1) { sure = false; break; }
            u64 cut = L.n < 2 ? 0 : L.n <= 12 ? brute_mincuts(L).value : stoer_wagner(L);
            if (!(nocut || cut < min_degree(L))) continue;
            Graph w; auto e = read_metis(of(k), &w);
            if (c.check(e.empty(), "core-file:kcore", of(k) + ": " + e)) c.check(w.n == L.n && shape(w) == shape(L), "core-wrong:kcore", of(k) + " is not the largest component of the core");
            found = true; c.count("lowest cores found");
            break;
        }
        if (sure) for (u32 x = 0; x <= top + 1; ++x) if (!(found && x == k)) c.check(!exists(of(x)), "core-written:kcore", of(x));
        c.count("lowest core runs");
        c.nontrivial(mix(g.hash(), hash_str(join(a))));
        c.distinct("command lines", hash_str(join(a)));
        return;
    }
    for (u32 i = 0; i < 1 + r.below(3); ++i) { ks.push_back(1 + r.below(top + 1)); a.push_back("-k"); a.push_back(std::to_string(ks.back())); }
    if (nocut) a.push_back("-c");
    a.insert(r.chance(1, 2) ? a.begin() : a.end(), f);
    c.note("kcore " + join(a) + " on " + g.str(150));
    for (u32 k : ks) unlink((f + "_core_" + std::to_string(k)).c_str());
    auto R = call(c, "kcore", a);
    if (!ended_well(c, "kcore", R)) return;
    for (u32 k : ks) {
        std::string of = f + "_core_" + std::to_string(k);
        if (k > top) { c.check(!exists(of), "core-too-high:kcore", of); continue; }
        Graph h; std::vector<u32> id(g.n, ~0u);
        for (u32 v = 0; v < g.n; ++v) if (core[v] >= k) id[v] = h.n++;
        for (auto& e : g.e) if (id[e.u] != ~0u && id[e.v] != ~0u) h.e.push_back({id[e.u], id[e.v], 1});
        u32 sz; Graph L = largest_component(h, &sz);
        u32 nc; auto comp = h.components(&nc);
        std::vector<u32> s(nc, 0); for (u32 x : comp) ++s[x];
        bool unique = std::count(s.begin(), s.end(), sz) == 1;
        u64 cut = L.n < 2 ? 0 : L.n <= 12 ? brute_mincuts(L).value : stoer_wagner(L);
        bool want = nocut || cut < min_degree(L);
        if (!unique) { c.count("core with several largest components"); if (exists(of)) { Graph w; c.check(read_metis(of, &w).empty() && w.n == sz && w.connected(), "core-file:kcore", of); } continue; }
        if (!c.check(exists(of) == want, want ? "core-not-written:kcore" : "core-written:kcore", of + ": minimum cut " + std::to_string(cut) + ", minimum degree " + std::to_string(min_degree(L)))) continue;
        if (want) {
            Graph w; auto e = read_metis(of, &w);
            if (c.check(e.empty(), "core-file:kcore", e)) c.check(w.n == L.n && shape(w) == shape(L), "core-wrong:kcore", of + " is not the largest component of the core");
            c.count("cores compared");
        } else c.count("cores not to be written");
    }
    c.nontrivial(mix(g.hash(), hash_str(join(a))));
    c.distinct("command lines", hash_str(join(a)));
    c.sample("kcore " + join(a));
}

void recursive_case(Ctx& c) {
    Rng& r = c.rng;
    // the program works on graphs with more than 1000 vertices
    Graph g;
    if (r.chance(1, 2)) { g = gen_gnm(r, 1001 + r.below(300), 3000 + r.below(3000)); connect(g, r, 1); }
    else g = gen_blocks(r, 60 + r.below(40), 12, 24, r.chance(1, 2));
    g = normalise(g);
    if (r.chance(1, 2)) for (auto& e : g.e) e.w = 1 + r.below(5);
    std::string f = file_name(r, "r");
    for (u32 i = 0; i < 2000; ++i) { std::string x = f + "_" + std::to_string(i); if (unlink(x.c_str())) break; }
    spill(f, metis(r, g));
    std::vector<std::string> a{f, "-o"};
    c.note("mincut_recursive " + join(a) + " on " + g.desc + " n=" + std::to_string(g.n) + " m=" + std::to_string(g.e.size()));
    auto R = call(c, "mincut_recursive", a);
    if (!ended_well(c, "mincut_recursive", R)) return;
    std::vector<u64> vals;
    for (auto& l : lines(R.out)) { auto p = l.find("Minimum cut "); u64 v; if (p != std::string::npos && sscanf(l.c_str() + p, "Minimum cut %lu", &v) == 1) vals.push_back(v); }
    Graph cur = g; u32 i = 0;
    for (; i < vals.size() && cur.n > 1000; ++i) {
        if (i < 6 || r.chance(1, 20)) c.eq("cut:mincut_recursive", vals[i], ma_mincut(cur), "graph number " + std::to_string(i));
        Graph nx; auto e = read_metis(f + "_" + std::to_string(i), &nx);
        if (!c.check(e.empty(), "file:mincut_recursive", e)) return;
        if (!c.check(nx.n < cur.n && nx.connected(), "block:mincut_recursive", std::to_string(nx.n) + " of " + std::to_string(cur.n))) return;
        cur = nx;
        c.count("graphs of the sequence checked");
    }
    c.check(i == vals.size() && cur.n <= 1000, "end:mincut_recursive", std::to_string(vals.size()) + " values, " + std::to_string(cur.n) + " vertices left");
    c.nontrivial(g.hash());
    c.sample("mincut_recursive " + join(a));
}

void tools_case(Ctx& c, const std::string& size) {
    Rng& r = c.rng;
    u32 which = r.below(3);
    Graph g = pick_graph(c, size, false, which == 0);
    if (r.chance(1, 2)) { Graph h = pick_graph(c, size, false, which == 0); for (auto& e : h.e) g.e.push_back({e.u + g.n, e.v + g.n, e.w}); g.n += h.n; g = relabel(g, r); }
    std::string f = file_name(r, "t");
    u32 sz; Graph L = largest_component(g, &sz);
    u32 nc; auto comp = g.components(&nc);
    std::vector<u32> s(nc, 0); for (u32 x : comp) ++s[x];
    bool unique = std::count(s.begin(), s.end(), sz) == 1;
    if (which == 0) {
        bool w = r.chance(1, 2);
        spill(f, metis(r, g));
        std::vector<std::string> a{f}; if (w) a.push_back("-w");
        c.note("largest_cc " + join(a) + " on " + g.str(150));
        // in place of the extensions, next to the input
        auto sl = f.rfind('/'); auto dot = f.find('.', sl == std::string::npos ? 0 : sl);
        std::string of = (dot == std::string::npos ? f : f.substr(0, dot)) + ".cc";
        unlink(of.c_str());
        auto R = call(c, "largest_cc", a);
        if (!ended_well(c, "largest_cc", R)) return;
        Graph x; auto e = read_metis(of, &x);
        if (!c.check(e.empty(), "file:largest_cc", of + ": " + e)) return;
        if (!w) for (auto& q : L.e) q.w = 1;
        if (unique) c.check(x.n == L.n && sorted_edges(normalise(x)) == sorted_edges(normalise(L)), "component:largest_cc", "");
        else c.check(x.n == sz && x.connected(), "component:largest_cc", "");
        c.count("components compared");
    } else if (which == 1) {
        // events: u v weight time
        std::ostringstream ev; u64 t = 1;
        auto es = g.e; r.shuffle(es);
        if (es.empty()) return;
        u32 top = 0;
        for (auto& e : es) { t += r.below(3); ev << e.u + 1 << " " << e.v + 1 << " " << e.w % 100 + 1 << " " << t << "\n"; top = std::max({top, e.u + 1, e.v + 1}); }
        spill(f, ev.str());
        c.note("temporal_largest_cc " + f + " on " + g.str(150));
        unlink((f + ".cc").c_str());
        auto R = call(c, "temporal_largest_cc", {f});
        if (!ended_well(c, "temporal_largest_cc", R)) return;
        u32 prev = 0; std::vector<std::string> want;
        std::vector<u32> id(g.n, 0);
        u32 big = std::max_element(s.begin(), s.end()) - s.begin(); (void)prev;
        for (u32 v = 0, k = 0; v < g.n; ++v) if (comp[v] == big) id[v] = ++k;
        t = 1;
        std::istringstream in(ev.str()); u64 x, y, w, tt;
        while (in >> x >> y >> w >> tt) if (comp[x - 1] == big) want.push_back(std::to_string(id[x - 1]) + " " + std::to_string(id[y - 1]) + " " + std::to_string(w) + " " + std::to_string(tt));
        auto got = lines(slurp(f + ".cc"));
        if (unique) c.check(got == want, "events:temporal_largest_cc", std::to_string(got.size()) + " lines, expected " + std::to_string(want.size()));
        c.count("event lists compared");
    } else {
        if (!g.connected()) return;
        for (auto& e : g.e) e.w = 1;
        spill(f, metis(r, g));
        u64 lo = 1 + r.below(5), hi = lo + r.below(20), mul = 1 + r.below(5);
        std::vector<std::string> a{f, "weighted.graph", std::to_string(lo), std::to_string(hi), std::to_string(mul)};
        if (r.chance(1, 2)) { a.push_back("-s"); a.push_back(std::to_string(r.below(100))); }
        c.note("make_graph_weighted " + join(a) + " on " + g.str(150));
        unlink("weighted.graph");
        auto R = call(c, "make_graph_weighted", a);
        if (!ended_well(c, "make_graph_weighted", R)) return;
        Graph x; auto e = read_metis("weighted.graph", &x);
        if (!c.check(e.empty(), "file:make_graph_weighted", e)) return;
        bool in = true; std::vector<char> light(g.n, 0);
        for (auto& q : x.e) in &= (q.w >= lo && q.w <= hi) || (q.w % mul == 0 && q.w / mul >= lo && q.w / mul <= hi);
        c.check(in, "weights:make_graph_weighted", "a weight outside of the range");
        for (auto& q : x.e) q.w = 1;
        c.check(x.n == g.n && sorted_edges(x) == sorted_edges(g), "edges:make_graph_weighted", "not the edges of the input");
        c.count("weighted graphs compared");
    }
    c.nontrivial(mix(g.hash(), which));
}

void contract_case(Ctx& c, const std::string& size, bool heavy) {
    Rng& r = c.rng;
    static const std::vector<std::string> seq{"vc", "noi", "matula", "pr"}, par{"inexact", "exact"};
    std::string alg = r.pick(PAR ? par : seq), app = heavy ? "mincut_heavy" : "mincut_contract";
    Graph g = pick_graph(c, size, true, false);
    std::string f = file_name(r, "c");
    spill(f, metis(r, g));
    std::vector<std::string> a{f, alg};
    double factor = r.below(heavy ? 100 : 80) / 100.0;
    if (heavy) {
        factor = 0.3 + 0.7 * factor;
        // at least two vertices have to be left
        std::vector<u64> d(g.n, 0); for (auto& e : g.e) { d[e.u] += e.w; d[e.v] += e.w; }
        auto q = d; std::sort(q.begin(), q.end());
        // as the program sees it, with the factor as printed
        auto left = [&](double x) { u64 b = q[static_cast<size_t>(static_cast<double>(g.n) * x)]; return std::count_if(d.begin(), d.end(), [&](u64 y) { return y < b; }); };
        factor = std::stod(std::to_string(factor));
        if (left(factor) < 2 || left(0.9) < 2) return c.count("left out: too few light vertices");
    }
    bool save = r.chance(1, 2); u32 it = 1;
    if (r.chance(3, 4)) { a.push_back("-c"); a.push_back(std::to_string(factor)); }
    if (save) a.push_back("-s");
    if (r.chance(1, 3)) { it = 1 + r.below(3); a.push_back("-i"); a.push_back(std::to_string(it)); }
    if (r.chance(1, 3)) { a.push_back("-q"); a.push_back("heap"); }
    u32 procs = 1;
    if (PAR) { procs = 1 + r.below(2); for (u32 i = 0; i < procs; ++i) { a.push_back("-p"); a.push_back(std::to_string(1 + r.below(6))); } }
    if (PAR && !heavy && r.chance(3, 4)) { const char* k[] = {"geometric", "random", "separate", "weighted"}; a.push_back("-k"); a.push_back(k[r.below(4)]); }
    c.note(app + " " + join(a) + " on " + g.str(150));
    unlink((f + ".cut").c_str());
    auto R = call(c, app, a);
    if (!ended_well(c, app, R)) return;
    auto res = results(R.out);
    if (!c.check(res.size() == it * procs, "results:" + app, tail(R.out))) return;
    // random contraction may leave one vertex, which has no cut
    for (auto& l : lines(R.out)) if (l.find("for contraction from") != std::string::npos && l.size() > 5 && l.substr(l.size() - 5) == " to 1") return c.count("contracted to one vertex");
    u64 lambda = size == "small" ? brute_mincuts(g).value : stoer_wagner(g);
    std::set<u64> vals;
    if (size == "small") all_cuts(g, [&](u64, u64 w) { vals.insert(w); });
    u64 last = 0;
    for (auto& x : res) {
        last = num(x["cut"]);
        c.check(last >= lambda && (vals.empty() || vals.count(last)), "not-a-cut:" + app, "no cut of the graph has weight " + x["cut"] + ", the minimum is " + std::to_string(lambda));
        c.count(last == lambda ? "contracted: still minimum" : "contracted: above minimum");
    }
    if (save) {
        bool ok; auto side = read_cut(c, app, f + ".cut", g.n, &ok);
        if (ok) {
            u32 ones = std::count(side.begin(), side.end(), 1);
            c.check(ones > 0 && ones < g.n, "cut-file-improper:" + app, "all vertices on one side");
            c.eq("cut-file-weight:" + app, cut_weight(g, side), last);
            c.count("cut files checked");
        }
    }
    c.nontrivial(mix(g.hash(), hash_str(join(a))));
    c.distinct("command lines", hash_str(join(a)));
    c.sample(app + " " + join(a));
}

void one(Ctx& c) {
    silence();
    std::vector<std::string> p; { std::istringstream i(c.mode); std::string w; while (std::getline(i, w, ':')) p.push_back(w); }
    if (p.size() > 2) VAR = p[2];
    PAR = VAR.compare(0, 3, "PAR") == 0;
    std::string size = p.size() > 1 ? p[1] : "small";
    if (p[0] == "mincut") mincut_case(c, size);
    else if (p[0] == "multiterminal") multiterminal_case(c, size);
    else if (p[0] == "dynamic") dynamic_case(c, size);
    else if (p[0] == "dyngen") dyngen_case(c, size);
    else if (p[0] == "balanced") balanced_case(c, size);
    else if (p[0] == "kcore") kcore_case(c, size);
    else if (p[0] == "recursive") recursive_case(c);
    else if (p[0] == "tools") tools_case(c, size);
    else if (p[0] == "contract") contract_case(c, size, false);
    else if (p[0] == "heavy") contract_case(c, size, true);
    else throw std::logic_error("mode " + c.mode);
}
}  // namespace
int main(int argc, char** argv) {
    if (!R().a.scratch.empty()) { }
    return run_main(argc, argv, one);
}
