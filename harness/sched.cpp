// A scheduler for the code under test: exactly one thread runs at a time, and
// who runs next is decided by a seeded generator at yield points - every
// memory access (the compiler's -fsanitize=thread instrumentation calls
// __tsan_*, defined here instead of in the thread sanitizer's runtime), every
// operation on a mutex, condition, future or thread, and every OpenMP
// construct (GOMP_*, omp_*, defined here instead of in libgomp).  The code is
// the real code, the interleavings are sequentially consistent, and a seed
// repeats an interleaving.  Time is virtual: a sleep or timed wait ends when
// nobody else can run, or early by chance.
// This file is compiled without that instrumentation.
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <deque>
#include <new>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;

namespace {
struct Team;
struct Thread {
    int id = 0;
    std::atomic<int> go{0};
    enum State { FREE, RUNNABLE, BLOCKED, DONE } state = FREE;
    const void* on = nullptr;       // what it is blocked on
    const char* why = "";
    bool timed = false, timed_out = false, woken = false, detached = false;
    u64 deadline = 0;
    u64 prio = 0;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    Team* team = nullptr;
    int team_id = 0;
    unsigned ws = 0;                // work sharing constructs met in this team
};

struct WS { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; int kind = 0; bool claimed = false; int left = 0; void* copy = nullptr; };
struct Team {
    int n = 1;
    int arrived = 0; unsigned gen = 0;
    std::deque<WS> ws;
    void (*fn)(void*) = nullptr; void* data = nullptr;
    int alive = 0;
};

std::vector<Thread*>& all() { static auto* v = new std::vector<Thread*>(); return *v; }
__thread Thread* self_ = nullptr;
int omp_n = 0;
u64 vnow = 0;

// policy
bool preempt = false;
u64 rs = 1, steps = 0, switches = 0, hash_ = 0, maxthreads = 1, lastforced = 0;
long budget = 1L << 60;        // plain accesses until the next decision
u32 p_plain = 0, p_sync = 0;   // one in so many
bool pct = false;
int paused = 0;
// switching near accesses to what another thread has accessed last
u32 p_conf = 0;
struct Last { uintptr_t a; u32 epoch; int id; } last_access[8192];
u32 epoch = 0;
int change_left = 0;

u64 mixx(u64 x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
u64 rnd() { rs += 0x9e3779b97f4a7c15ULL; return mixx(rs); }
u64 below(u64 n) { return n ? rnd() % n : 0; }

void futex_wait(std::atomic<int>* a) { while (a->load() == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a->store(0); }
void futex_wake(std::atomic<int>* a) { a->store(1); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

[[noreturn]] void die(const char* what) {
    fprintf(stderr, "\nVF-SCHED: %s\n", what);
    for (auto t : all()) if (t->state != Thread::FREE)
        fprintf(stderr, "  thread %d: %s %s %p\n", t->id, t->state == Thread::RUNNABLE ? "can run" : t->state == Thread::DONE ? "ended" : "blocked on", t->why, t->on);
    fflush(stderr);
    _exit(95);
}

Thread* self() {
    if (!self_) {
        // the first thread to arrive is the main thread
        self_ = new Thread(); self_->id = all().size(); self_->state = Thread::RUNNABLE; self_->prio = 1000;
        all().push_back(self_);
    }
    return self_;
}

void set_budget() {
    if (!preempt || !p_plain) { budget = 1L << 60; return; }
    // geometric
    budget = 1 + static_cast<long>(below(2 * p_plain));
}

Thread* pick() {
    static std::vector<Thread*> run, tim; run.clear(); tim.clear();
    for (auto t : all()) {
        if (t->state == Thread::RUNNABLE) run.push_back(t);
        else if (t->state == Thread::BLOCKED && t->timed) tim.push_back(t);
    }
    if (!tim.empty() && (run.empty() || (preempt && below(200) == 0))) {
        Thread* t = tim[0];
        if (run.empty()) { for (auto x : tim) if (x->deadline < t->deadline) t = x; }
        else t = tim[below(tim.size())];
        if (t->deadline > vnow) vnow = t->deadline;
        t->state = Thread::RUNNABLE; t->timed_out = true; t->timed = false;
        return t;
    }
    if (run.empty()) die("deadlock");
    if (!preempt) return run[0];
    if (pct) {
        Thread* b = run[0];
        for (auto t : run) if (t->prio > b->prio) b = t;
        return b;
    }
    return run[below(run.size())];
}

void transfer(Thread* me, Thread* to, bool wait = true) {
    if (to == me) return;
    ++switches; hash_ = mixx(hash_ ^ (steps * 64 + to->id));
    futex_wake(&to->go);
    if (wait) { futex_wait(&me->go); }
}

void resched() {
    Thread* me = self();
    transfer(me, pick());
    set_budget();
}

bool alone() {
    for (auto t : all()) if (t != self_ && (t->state == Thread::RUNNABLE || (t->state == Thread::BLOCKED && t->timed))) return false;
    return true;
}

void decide() {
    Thread* me = self();
    if (pct) {
        // only at change points, and when somebody spins
        ++change_left;
        me->prio = below(1000);
    }
    (void)me;
    resched();
}

inline void plain(const void* a = nullptr) {
    if (paused) return;
    ++steps;
    if (p_conf && a) {
        uintptr_t u = reinterpret_cast<uintptr_t>(a);
        Last& l = last_access[(u ^ (u >> 11)) & 8191];
        int me = self_ ? self_->id : 0;
        if (l.a == u && l.epoch == epoch && l.id != me && below(p_conf) == 0) budget = 1 + static_cast<long>(below(4));
        l.a = u; l.epoch = epoch; l.id = me;
    }
    if (__builtin_expect(--budget > 0, 1)) return;
    if (alone()) { set_budget(); return; }
    decide();
}

inline void sync_point() {
    if (paused) return;
    ++steps;
    if (!preempt) return;
    if (p_sync && below(p_sync) == 0 && !alone()) decide();
}

// blocks until woken (or timed out: false)
bool block(const void* on, const char* why, bool timed = false, u64 delay = 0) {
    Thread* me = self();
    me->state = Thread::BLOCKED; me->on = on; me->why = why; me->timed = timed; me->timed_out = false; me->deadline = vnow + delay;
    Thread* t = pick();
    transfer(me, t);
    set_budget();
    me->on = nullptr; me->timed = false;
    return !me->timed_out;
}
void wake(const void* on, bool one = false) {
    static std::vector<Thread*> w; w.clear();
    for (auto t : all()) if (t->state == Thread::BLOCKED && t->on == on) w.push_back(t);
    if (w.empty()) return;
    if (one) { Thread* t = w[preempt ? below(w.size()) : 0]; t->state = Thread::RUNNABLE; t->timed = false; return; }
    for (auto t : w) { t->state = Thread::RUNNABLE; t->timed = false; }
}

template <class F> F* real(const char* n) { return reinterpret_cast<F*>(dlsym(RTLD_NEXT, n)); }

void* body(void* p) {
    Thread* t = static_cast<Thread*>(p);
    self_ = t;
    for (;;) {
        futex_wait(&t->go);
        set_budget();
        t->ret = t->fn(t->arg);
        t->state = t->detached ? Thread::FREE : Thread::DONE;
        wake(t);
        Thread* n = pick();
        ++switches; hash_ = mixx(hash_ ^ (steps * 64 + n->id));
        futex_wake(&n->go);
    }
    return nullptr;
}

Thread* spawn(void* (*fn)(void*), void* arg) {
    self();
    Thread* t = nullptr;
    for (auto x : all()) if (x->state == Thread::FREE) { t = x; break; }
    bool fresh = !t;
    if (fresh) { t = new Thread(); t->id = all().size(); all().push_back(t); }
    t->fn = fn; t->arg = arg; t->ret = nullptr; t->team = nullptr; t->team_id = 0; t->ws = 0; t->detached = false;
    t->prio = preempt ? below(1000) : 500; t->state = Thread::RUNNABLE; t->why = "";
    if (fresh) {
        static auto create = real<int(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8 << 20);
        pthread_t id;
        if (create(&id, &a, body, t)) die("no more threads");
        pthread_attr_destroy(&a);
    }
    u64 n = 0; for (auto x : all()) n += x->state == Thread::RUNNABLE || x->state == Thread::BLOCKED;
    if (n > maxthreads) maxthreads = n;
    return t;
}
void* join(Thread* t) {
    while (t->state != Thread::DONE) block(t, "join");
    t->state = Thread::FREE;
    return t->ret;
}

// owner and lock word live in the mutex itself, so that a new mutex at the
// same address starts free
bool try_lock(pthread_mutex_t* m) {
    if (m->__data.__lock) return false;
    m->__data.__lock = 1; m->__data.__owner = self()->id + 1;
    return true;
}
void lock(pthread_mutex_t* m) {
    while (!try_lock(m)) {
        if (m->__data.__owner == self()->id + 1 && m->__data.__kind == 0) die("mutex-locked-twice by one thread");
        block(m, "mutex");
    }
}
void unlock(pthread_mutex_t* m) {
    if (!m->__data.__lock) die("mutex-unlocked that is not locked");
    if (m->__data.__owner != self()->id + 1) die("mutex-unlocked by a thread that does not own it");
    m->__data.__lock = 0; m->__data.__owner = 0;
    wake(m);
}
}  // namespace

extern "C" {
struct VfSched { u64 steps, switches, hash, threads; };
void vf_sched_begin(u64 seed) {
    self();
    rs = mixx(seed); steps = switches = 0; hash_ = 0; maxthreads = 1; vnow = 0;
    preempt = true;
    static const u32 pl[] = {5000, 2, 5, 12, 30, 100, 400, 2000}, sy[] = {1, 2, 4, 16, 64};
    p_plain = pl[below(8)]; p_sync = sy[below(5)];
    pct = below(3) == 0;
    if (pct) { p_plain = 50u << below(9); p_sync = 4u << below(6); }
    change_left = 0; ++epoch; p_conf = 0;
    if (below(3) == 0) { p_conf = 1u << below(6); p_plain = pct ? p_plain : 5000; }
    self()->prio = below(1000);
    set_budget();
}
void vf_sched_pause(int d) { paused += d; }
void vf_sched_end(VfSched* s) {
    preempt = false; set_budget();
    for (auto t : all()) if (t != self() && t->state != Thread::FREE) { if (t->state == Thread::DONE) t->state = Thread::FREE; else die("a thread was left running"); }
    *s = {steps, switches, hash_, maxthreads};
}

// ------------------------------------------------------------- pthreads ----
int pthread_create(pthread_t* id, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    Thread* t = spawn(fn, arg);
    *id = reinterpret_cast<pthread_t>(t);
    sync_point();
    return 0;
}
int pthread_join(pthread_t id, void** ret) {
    sync_point();
    void* r = join(reinterpret_cast<Thread*>(id));
    if (ret) *ret = r;
    return 0;
}
int pthread_detach(pthread_t id) {
    Thread* t = reinterpret_cast<Thread*>(id);
    if (t->state == Thread::DONE) t->state = Thread::FREE; else t->detached = true;
    return 0;
}
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { sync_point(); lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { sync_point(); return try_lock(m) ? 0 : EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t* m) { unlock(m); sync_point(); return 0; }
static bool cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, u64 delay) {
    unlock(m);
    bool ok = block(c, "condition", timed, delay);
    lock(m);
    return ok;
}
static u64 until(clockid_t clk, const timespec* a) {
    timespec n; clock_gettime(clk, &n);
    int64_t d = (a->tv_sec - n.tv_sec) * 1000000000LL + a->tv_nsec - n.tv_nsec;
    return d < 0 ? 0 : d;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { sync_point(); cond_wait(c, m, false, 0); return 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* a) { sync_point(); return cond_wait(c, m, true, until(CLOCK_REALTIME, a)) ? 0 : ETIMEDOUT; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* a) { sync_point(); return cond_wait(c, m, true, until(k, a)) ? 0 : ETIMEDOUT; }
int pthread_cond_signal(pthread_cond_t* c) { wake(c, true); sync_point(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { wake(c); sync_point(); return 0; }
int nanosleep(const timespec* a, timespec*) { block(a, "sleep", true, a->tv_sec * 1000000000ULL + a->tv_nsec); return 0; }
int clock_nanosleep(clockid_t, int, const timespec* a, timespec*) { block(a, "sleep", true, a->tv_sec * 1000000000ULL + a->tv_nsec); return 0; }
int usleep(useconds_t us) { block(&us, "sleep", true, us * 1000ULL); return 0; }
int sched_yield() { if (preempt && !alone()) resched(); return 0; }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    while (*o != 2) {
        if (*o == 0) { *o = 1; f(); *o = 2; wake(o); break; }
        block(o, "once");
    }
    return 0;
}
int __cxa_guard_acquire(long long* g) {
    unsigned char* b = reinterpret_cast<unsigned char*>(g);
    for (;;) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        block(g, "static initialisation");
    }
}
void __cxa_guard_release(long long* g) { unsigned char* b = reinterpret_cast<unsigned char*>(g); b[0] = 1; b[1] = 0; wake(g); }
void __cxa_guard_abort(long long* g) { unsigned char* b = reinterpret_cast<unsigned char*>(g); b[1] = 0; wake(g); }

// --------------------------------------------------------------- openmp ----
static int team_size(unsigned n) {
    if (self()->team) return 1;
    if (n) return n;
    if (!omp_n) { const char* e = getenv("OMP_NUM_THREADS"); omp_n = e ? atoi(e) : 1; if (omp_n < 1) omp_n = 1; }
    return omp_n;
}
struct Member { Team* team; int id; };
static void* member(void* p) {
    Member* m = static_cast<Member*>(p);
    self()->team = m->team; self()->team_id = m->id; self()->ws = 0;
    m->team->fn(m->team->data);
    self()->team = nullptr;
    return nullptr;
}
void GOMP_barrier() {
    sync_point();
    Team* t = self()->team;
    if (!t || t->n == 1) return;
    unsigned g = t->gen;
    if (++t->arrived == t->n) { t->arrived = 0; ++t->gen; wake(t); sync_point(); return; }
    while (t->gen == g) block(t, "barrier");
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
    Thread* me = self();
    Team* before = me->team; int bid = me->team_id; unsigned bws = me->ws;
    Team t; t.n = team_size(n); t.fn = fn; t.data = data;
    std::vector<Member> mem(t.n);
    std::vector<Thread*> th;
    for (int i = 1; i < t.n; ++i) { mem[i] = {&t, i}; th.push_back(spawn(member, &mem[i])); }
    me->team = &t; me->team_id = 0; me->ws = 0;
    sync_point();
    fn(data);
    me->team = before; me->team_id = bid; me->ws = bws;
    // a thread that stays behind at a barrier of the region is a deadlock
    for (auto x : th) join(x);
}
static WS& work(bool count = true) {
    Thread* me = self();
    static WS lone;
    Team* t = me->team;
    if (!t) { lone = WS(); return lone; }
    unsigned i = me->ws; if (count) ++me->ws;
    while (t->ws.size() <= i) t->ws.emplace_back();
    return t->ws[i];
}
static bool next_chunk(WS& w, long* s, long* e) {
    sync_point();
    long left = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr;
    if (left <= 0) return false;
    long c = w.chunk;
    if (w.kind == 1) { long k = left / (self()->team ? self()->team->n : 1); if (k > c) c = k; }
    if (w.kind == 2) c = left;
    // chunks are scaled down like the graphs
    if (preempt && c > 1) { long lim = 1 + below(6); if (c > lim && below(4)) c = lim; }
    if (c > left) c = left;
    *s = w.next; w.next += c * w.incr; *e = w.next;
    return true;
}
static thread_local WS* cur_ws = nullptr;
static WS lone_ws;
static bool loop_start(int kind, long a, long b, long incr, long chunk, long* s, long* e) {
    Thread* me = self();
    WS* w;
    if (me->team) w = &work(); else { lone_ws = WS(); w = &lone_ws; }
    if (!w->init) { w->init = true; w->next = a; w->end = b; w->incr = incr; w->chunk = chunk < 1 ? 1 : chunk; w->kind = kind; }
    cur_ws = w;
    return next_chunk(*w, s, e);
}
#define LOOP(name, kind) \
    bool GOMP_loop_##name##_start(long a, long b, long i, long c, long* s, long* e) { return loop_start(kind, a, b, i, c, s, e); } \
    bool GOMP_loop_##name##_next(long* s, long* e) { return next_chunk(*cur_ws, s, e); } \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long a, long b, long i, long c, unsigned fl); \
    bool GOMP_loop_ull_##name##_start(bool up, u64 a, u64 b, u64 i, u64 c, u64* s, u64* e) { (void)up; return loop_start(kind, a, b, i, c, reinterpret_cast<long*>(s), reinterpret_cast<long*>(e)); } \
    bool GOMP_loop_ull_##name##_next(u64* s, u64* e) { return next_chunk(*cur_ws, reinterpret_cast<long*>(s), reinterpret_cast<long*>(e)); }
LOOP(dynamic, 0) LOOP(nonmonotonic_dynamic, 0) LOOP(guided, 1) LOOP(nonmonotonic_guided, 1) LOOP(static, 0)
bool GOMP_loop_runtime_start(long a, long b, long i, long* s, long* e) { return loop_start(0, a, b, i, 1, s, e); }
bool GOMP_loop_runtime_next(long* s, long* e) { return next_chunk(*cur_ws, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long* s, long* e) { return loop_start(0, a, b, i, 1, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* s, long* e) { return next_chunk(*cur_ws, s, e); }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() { sync_point(); }
// combined constructs: the loop of the team exists before its threads start
static void par_loop(int kind, void (*fn)(void*), void* data, unsigned n, long a, long b, long i, long c) {
    Thread* me = self();
    Team* before = me->team; int bid = me->team_id; unsigned bws = me->ws;
    Team t; t.n = team_size(n); t.fn = fn; t.data = data;
    t.ws.emplace_back(); WS& w = t.ws[0];
    w.init = true; w.next = a; w.end = b; w.incr = i; w.chunk = c < 1 ? 1 : c; w.kind = kind;
    std::vector<Member> mem(t.n); std::vector<Thread*> th;
    struct First { static void* go(void* p) {
        Member* m = static_cast<Member*>(p);
        self()->team = m->team; self()->team_id = m->id; self()->ws = 1; cur_ws = &m->team->ws[0];
        m->team->fn(m->team->data); self()->team = nullptr; return nullptr; } };
    for (int k = 1; k < t.n; ++k) { mem[k] = {&t, k}; th.push_back(spawn(First::go, &mem[k])); }
    WS* cb = cur_ws;
    me->team = &t; me->team_id = 0; me->ws = 1; cur_ws = &w;
    sync_point(); fn(data);
    me->team = before; me->team_id = bid; me->ws = bws; cur_ws = cb;
    for (auto x : th) join(x);
}
#define PLOOP(name, kind) void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long a, long b, long i, long c, unsigned) { par_loop(kind, fn, data, n, a, b, i, c); }
PLOOP(dynamic, 0) PLOOP(nonmonotonic_dynamic, 0) PLOOP(guided, 1) PLOOP(nonmonotonic_guided, 1) PLOOP(static, 0)
bool GOMP_single_start() {
    sync_point();
    if (!self()->team) return true;
    WS& w = work();
    if (w.claimed) return false;
    w.claimed = true;
    return true;
}
void* GOMP_single_copy_start() {
    if (!self()->team) return nullptr;
    WS& w = work();
    if (!w.claimed) { w.claimed = true; return nullptr; }
    while (!w.copy) block(&w, "single copyprivate");
    return w.copy;
}
void GOMP_single_copy_end(void* p) {
    Team* t = self()->team; if (!t) return;
    WS& w = t->ws[self()->ws - 1]; w.copy = p; wake(&w);
    GOMP_barrier();
}
unsigned GOMP_sections_start(unsigned n) { long s, e; return loop_start(0, 1, n + 1, 1, 1, &s, &e) ? s : 0; }
unsigned GOMP_sections_next() { long s, e; return next_chunk(*cur_ws, &s, &e) ? s : 0; }
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() { }
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start() { sync_point(); lock(&crit); }
void GOMP_critical_end() { unlock(&crit); sync_point(); }
void GOMP_critical_name_start(void** p) { sync_point(); if (!*p) *p = calloc(1, sizeof(pthread_mutex_t)); lock(static_cast<pthread_mutex_t*>(*p)); }
void GOMP_critical_name_end(void** p) { unlock(static_cast<pthread_mutex_t*>(*p)); sync_point(); }
void GOMP_atomic_start() { sync_point(); lock(&atom); }
void GOMP_atomic_end() { unlock(&atom); sync_point(); }
int omp_get_thread_num() { return self()->team ? self()->team_id : 0; }
int omp_get_num_threads() { return self()->team ? self()->team->n : 1; }
int omp_get_max_threads() { if (!omp_n) team_size(0); return omp_n ? omp_n : 1; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return self()->team && self()->team->n > 1; }
void omp_set_num_threads(int n) { omp_n = n < 1 ? 1 : n; }
void omp_set_dynamic(int) { }
void omp_set_nested(int) { }
int omp_get_level() { return self()->team ? 1 : 0; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
void omp_init_lock(void** l) { *l = calloc(1, sizeof(pthread_mutex_t)); }
void omp_destroy_lock(void** l) { free(*l); *l = nullptr; }
void omp_set_lock(void** l) { sync_point(); lock(static_cast<pthread_mutex_t*>(*l)); }
void omp_unset_lock(void** l) { unlock(static_cast<pthread_mutex_t*>(*l)); sync_point(); }
int omp_test_lock(void** l) { sync_point(); return try_lock(static_cast<pthread_mutex_t*>(*l)); }

// ------------------------------------------- instrumented memory accesses --
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
void __tsan_vptr_update(void**, void*) { }
void __tsan_vptr_read(void**) { }
#define RW(n) void __tsan_read##n(void* a) { plain(a); } void __tsan_write##n(void* a) { plain(a); } \
    void __tsan_unaligned_read##n(void* a) { plain(a); } void __tsan_unaligned_write##n(void* a) { plain(a); } \
    void __tsan_volatile_read##n(void* a) { plain(a); } void __tsan_volatile_write##n(void* a) { plain(a); } \
    void __tsan_unaligned_volatile_read##n(void* a) { plain(a); } void __tsan_unaligned_volatile_write##n(void* a) { plain(a); } \
    void __tsan_read_write##n(void* a) { plain(a); } void __tsan_unaligned_read_write##n(void* a) { plain(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long) { plain(a); }
void __tsan_write_range(void* a, unsigned long) { plain(a); }
// one thread runs at a time: plain operations are atomic
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T* a, int) { sync_point(); return *a; } \
    void __tsan_atomic##B##_store(volatile T* a, T v, int) { sync_point(); *a = v; sync_point(); } \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { sync_point(); T o = *a; *a = v; sync_point(); return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { sync_point(); T o = *a; *a = o + v; sync_point(); return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { sync_point(); T o = *a; *a = o - v; sync_point(); return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { sync_point(); T o = *a; *a = o & v; sync_point(); return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { sync_point(); T o = *a; *a = o | v; sync_point(); return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { sync_point(); T o = *a; *a = o ^ v; sync_point(); return o; } \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { sync_point(); T o = *a; *a = ~(o & v); sync_point(); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { \
        sync_point(); bool ok = *a == *c; if (ok) *a = v; else *c = *a; sync_point(); return ok; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { \
        sync_point(); bool ok = *a == *c; if (ok) *a = v; else *c = *a; sync_point(); return ok; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { sync_point(); T o = *a; if (o == c) *a = v; sync_point(); return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { sync_point(); }
void __tsan_atomic_signal_fence(int) { }
}

// futures wait on a futex inside libstdc++: these two take its place
namespace std {
struct __atomic_futex_unsigned_base {
    bool _M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds ns);
    bool _M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds ns);
    static void _M_futex_notify_all(unsigned* a);
};
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) {
    sync_point();
    if (*a != v) return true;
    return block(a, "future", timed, 1000000000ULL);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds ns) { return _M_futex_wait_until(a, v, timed, s, ns); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { wake(a); sync_point(); }
}  // namespace std
