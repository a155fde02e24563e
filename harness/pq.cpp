// S01: every priority queue against an ordered-map model over random
// operation histories.
#include "vc.hpp"

#include "data_structure/priority_queues/bucket_pq.h"
#include "data_structure/priority_queues/fifo_node_bucket_pq.h"
#include "data_structure/priority_queues/maxNodeHeap.h"
#include "data_structure/priority_queues/node_bucket_pq.h"
#include "data_structure/priority_queues/vecMaxNodeHeap.h"
using namespace vf;

// many elements: the model keeps them ordered, state is compared at the end
static void huge(Ctx& c) {
    Rng& r = c.rng;
    int kind = r.below(5);
    static const char* names[] = {"bucket", "fifo_bucket", "node_bucket", "heap", "vec_heap"};
    std::string K = names[kind];
    u32 n = 65530 + r.below(12) + (r.chance(1, 2) ? r.below(60000) : 0);
    u64 span = r.chance(1, 3) ? r.below(50) : r.chance(1, 2) ? 65530 + r.below(100000) : kind < 3 ? 300000 : 1ull << 40;
    std::unique_ptr<priority_queue_interface> q;
    switch (kind) {
    case 0: q.reset(new bucket_pq(n, span)); break;
    case 1: q.reset(new fifo_node_bucket_pq(n, span)); break;
    case 2: q.reset(new node_bucket_pq(n, span)); break;
    case 3: q.reset(new maxNodeHeap(n, span)); break;
    default: q.reset(new vecMaxNodeHeap(n, span)); break;
    }
    c.note(K + " n=" + std::to_string(n) + " span=" + std::to_string(span));
    std::vector<u64> key(n, 0); std::vector<char> in(n, 0);
    std::set<std::pair<u64, u32> > m;
    std::vector<u32> order(n); std::iota(order.begin(), order.end(), 0u); r.shuffle(order);
    auto put = [&](u32 v) { u64 k = r.below(span + 1); q->insert(v, k); key[v] = k; in[v] = 1; m.insert({k, v}); };
    for (u32 v : order) put(v);
    u64 h = mix(n, span);
    for (u32 i = 0, ops = n + r.below(n); i < ops; ++i) {
        u32 v = r.below(n);
        h = mix(h, v);
        switch (r.below(6)) {
        case 0: if (in[v]) { q->deleteNode(v); m.erase({key[v], v}); in[v] = 0; } else put(v); break;
        case 1: if (!m.empty()) {
            u32 g = q->deleteMax();
            if (g >= n || !in[g] || key[g] != m.rbegin()->first) { c.fail(K + ":deleteMax", "after " + std::to_string(i) + " operations"); return; }
            m.erase({key[g], g}); in[g] = 0; break;
        }
            break;
        default: if (in[v]) {
            u64 k = r.below(span + 1);
            if (r.chance(1, 2)) q->changeKey(v, k); else if (k >= key[v]) q->increaseKey(v, k); else q->decreaseKey(v, k);
            m.erase({key[v], v}); key[v] = k; m.insert({k, v});
        } else put(v);
        }
        c.count("pq operations");
        if (!c.eq(K + ":size", static_cast<u64>(q->size()), static_cast<u64>(m.size()))) return;
        if (!m.empty() && !c.eq(K + ":maxValue", static_cast<u64>(q->maxValue()), m.rbegin()->first, "after " + std::to_string(i) + " operations")) return;
        if (!c.eq(K + ":contains", static_cast<bool>(q->contains(v)), static_cast<bool>(in[v]))) return;
    }
    for (u32 v = 0; v < n; ++v) if (!c.eq(K + ":contains", static_cast<bool>(q->contains(v)), static_cast<bool>(in[v])) || (in[v] && !c.eq(K + ":getKey", static_cast<u64>(q->getKey(v)), key[v]))) return;
    while (!m.empty()) {
        u32 g = q->deleteMax();
        if (g >= n || !in[g] || key[g] != m.rbegin()->first) { c.fail(K + ":drain", ""); return; }
        m.erase({key[g], g}); in[g] = 0;
    }
    c.check(q->empty(), K + ":drain empty", "");
    c.eval(); c.count("large histories on " + K); c.nontrivial(h);
}

static void one(Ctx& c) {
    if (c.mode == "huge") { huge(c); return; }
    Rng& r = c.rng;
    int kind = r.below(5);
    static const char* names[] = {"bucket", "fifo_bucket", "node_bucket", "heap", "vec_heap"};
    std::string K = names[kind];
    // population and key range from tiny (many ties) to large
    u32 n = 1 + (r.chance(1, 6) ? r.below(400) : r.below(24));
    u64 span;
    switch (r.below(4)) { case 0: span = 1 + r.below(3); break; case 1: span = 1 + r.below(40); break;
        case 2: span = 1 + r.below(2000); break; default: span = kind < 3 ? 1 + r.below(60000) : 0xfffffff0ull; }
    std::unique_ptr<priority_queue_interface> q;
    switch (kind) {
    case 0: q.reset(new bucket_pq(n, span)); break;
    case 1: q.reset(new fifo_node_bucket_pq(n, span)); break;
    case 2: q.reset(new node_bucket_pq(n, span)); break;
    case 3: if (r.chance(1, 2)) q.reset(new maxNodeHeap(n, span)); else q.reset(new maxNodeHeap()); break;
    default: q.reset(new vecMaxNodeHeap(n, span)); break;
    }
    c.note(K + " n=" + std::to_string(n) + " span=" + std::to_string(span));
    std::map<u32, u64> model;
    // bias of the phases: growing, churning (key changes), draining
    int style = r.below(4);
    u32 ops = 20 + r.below(c.thorough ? 1500 : 300);
    u64 h = mix(kind, span);
    u64 monotone = 0;
    std::string last;
    auto maxkey = [&]() { u64 m = 0; for (auto& [a, b] : model) m = std::max(m, b); (void)0; return m; };
    for (u32 i = 0; i < ops; ++i) {
        int op = r.below(10);
        u64 key = r.chance(1, 5) ? (r.chance(1, 2) ? span : 0) : r.below(span + 1);
        if (style == 1) key = monotone = std::min<u64>(span, monotone + r.below(3));   // rising keys
        if (style == 2) key = r.below(std::min<u64>(span, 3) + 1);                      // ties
        u32 v = r.below(n);
        std::ostringstream d;
        if (model.empty() || (op < 4 && model.size() < n)) {
            while (model.count(v)) v = (v + 1) % n;
            q->insert(v, key); model[v] = key; d << "insert " << v << ":" << key;
        } else if (op < 7) {
            auto it = model.begin(); std::advance(it, r.below(model.size()));
            v = it->first; u64 old = it->second;
            int how = r.below(3);
            if (how == 0) { q->changeKey(v, key); d << "change " << v << ":" << old << "->" << key; }
            else if (key >= old) { q->increaseKey(v, key); d << "increase " << v << ":" << old << "->" << key; }
            else { q->decreaseKey(v, key); d << "decrease " << v << ":" << old << "->" << key; }
            it->second = key;
        } else if (op < 8) {
            auto it = model.begin(); std::advance(it, r.below(model.size()));
            v = it->first; d << "delete " << v;
            q->deleteNode(v); model.erase(it);
        } else {
            u64 m = maxkey();
            u64 mv = q->maxValue(); u32 me = q->maxElement();
            c.eq(K + ":maxValue", mv, m, "after " + last);
            if (!model.count(me) || model[me] != m) c.fail(K + ":maxElement", "maxElement " + std::to_string(me) + " does not have the largest key; after " + last);
            u32 got = q->deleteMax();
            if (!model.count(got) || model[got] != m) { c.fail(K + ":deleteMax", "deleteMax returned " + std::to_string(got) + ", largest key is " + std::to_string(m) + "; after " + last); return; }
            model.erase(got); d << "deleteMax";
        }
        last = d.str();
        h = mix(h, hash_str(last));
        c.count("pq operations");
        if (!c.eq(K + ":size", q->size(), model.size(), "after " + last)) return;
        if (!c.eq(K + ":empty", q->empty(), model.empty(), "after " + last)) return;
        if (!model.empty()) {
            u64 m = maxkey();
            if (!c.eq(K + ":maxValue", (u64)q->maxValue(), m, "after " + last)) return;
            u32 me = q->maxElement();
            if (!model.count(me) || model[me] != m) { c.fail(K + ":maxElement", "after " + last); return; }
        }
        if (i % 8 == 0 || n < 10) for (u32 x = 0; x < n; ++x) {
            auto it = model.find(x);
            if (!c.eq(K + ":contains", q->contains(x), it != model.end(), "element " + std::to_string(x) + " after " + last)) return;
            if (it != model.end() && !c.eq(K + ":getKey", (u64)q->getKey(x), it->second, "element " + std::to_string(x) + " after " + last)) return;
            c.count("state comparisons");
        }
    }
    // drain: a sorted sequence of exactly the stored elements
    while (!model.empty()) {
        u64 m = maxkey();
        if (!c.eq(K + ":drain size", q->size(), model.size())) return;
        u32 got = q->deleteMax();
        if (!model.count(got) || model[got] != m) { c.fail(K + ":drain", "deleteMax returned " + std::to_string(got) + " while the largest key is " + std::to_string(m)); return; }
        model.erase(got);
        c.count("pq operations");
    }
    c.check(q->empty(), K + ":drain empty", "not empty after removing all elements");
    c.eval();
    c.count("histories on " + K);
    c.nontrivial(h);
    if (c.index < 3) c.sample(K + " n=" + std::to_string(n) + " key range 0.." + std::to_string(span) + ", " + std::to_string(ops) + " operations, last: " + last);
}
int main(int argc, char** argv) { silence(); return run_main(argc, argv, one); }
