// Implementation of the mc engine; see mc.h.
#include "mc.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <execinfo.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#define MC_HIDDEN

namespace mc {
namespace eng {

constexpr int MAXT = 24;
constexpr size_t MSGLEN = 16384;
constexpr size_t MAXCHOICES = 1u << 20;

// ------------------------------------------------------------------ real functions
template<typename F>
static F real(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

static int64_t real_ns()
{
    timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return int64_t(ts.tv_sec) * 1000000000 + ts.tv_nsec;
}

static void futex_wait(std::atomic<int>* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0); }
static void futex_wake(std::atomic<int>* a) { syscall(SYS_futex, a, FUTEX_WAKE, 1 << 30, nullptr, nullptr, 0); }

// ------------------------------------------------------------------ shared control block
struct WorkerSlot
{
    std::atomic<int> busy;
    std::atomic<int64_t> started;      // real ns of the current execution's start
    std::atomic<int> has_report;
    std::atomic<uint32_t> nchoices;
    char report[MSGLEN];
    char notes[MSGLEN];
    std::atomic<uint32_t> notelen;
    char where[2048];
    uint8_t* choices;                  // MAXCHOICES bytes (shared)
};

constexpr size_t OUTCOME_SLOTS = 1 << 16;
constexpr size_t VIS_SLOTS = 1 << 22;

constexpr int NLEVEL = 6;
struct Shared
{
    std::atomic<int> lock;
    std::atomic<int> inflight;
    std::atomic<int> stop;
    std::atomic<size_t> top[NLEVEL];   // bytes used in the stack of each level (level = preemptions so far)
    std::atomic<long> items;
    std::atomic<long> dropped;
    std::atomic<long> nodes, execs, pruned, diverged, points, steps, transitions, traces, preempted;
    std::atomic<long> maxdepth, maxthreads;
    std::atomic<long> states;
    std::atomic<long> noutcomes;
    std::atomic<uint64_t> outcomes[OUTCOME_SLOTS];
    std::atomic<int> nsamples;
    char samples[6][1024];
    std::atomic<int> noutsamples;
    char outsamples[12][512];
    int64_t deadline;
    long max_execs;
    WorkerSlot slot[64];
    std::atomic<uint64_t> vis[VIS_SLOTS];      // visited: 56 bit hash << 8 | remaining+1
    std::atomic<uint64_t> st[VIS_SLOTS];       // distinct states
};
static Shared* S;
static uint8_t* stackmem;
constexpr size_t STACKCAP = size_t(1) << 32;   // per level
static WorkerSlot* W;                  // this worker's slot
static int g_worker = -1;

static void lock() { int z; do { z = 0; if (S->lock.compare_exchange_weak(z, 1)) return; for (int i = 0; i < 50; ++i) __builtin_ia32_pause(); } while (true); }
static void unlock() { S->lock.store(0); }

static void push_prefix_locked(const uint8_t* p, uint32_t n, uint8_t last, int lvl)
{
    if (lvl >= NLEVEL) lvl = NLEVEL - 1;
    uint8_t* mem = stackmem + size_t(lvl) * STACKCAP;
    size_t need = n + 1 + 4;
    size_t t = S->top[lvl].load();
    if (t + need > STACKCAP) { S->dropped++; return; }
    memcpy(mem + t, p, n);
    mem[t + n] = last;
    uint32_t len = n + 1;
    memcpy(mem + t + n + 1, &len, 4);
    S->top[lvl] = t + need;
    S->items++;
}
// fewest preemptions first: the search is complete for bound k before any schedule with k+1 is run
static bool pop_prefix_locked(std::vector<uint8_t>& out)
{
    for (int lvl = 0; lvl < NLEVEL; ++lvl) {
        uint8_t* mem = stackmem + size_t(lvl) * STACKCAP;
        size_t t = S->top[lvl].load();
        if (t == 0) continue;
        uint32_t len;
        memcpy(&len, mem + t - 4, 4);
        out.assign(mem + t - 4 - len, mem + t - 4);
        S->top[lvl] = t - 4 - len;
        S->items--;
        return true;
    }
    return false;
}

// ------------------------------------------------------------------ execution state
struct VC { uint32_t c[MAXT]; };
static void vc_join(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

enum TState { RUN, BLK_MUTEX, BLK_COND, BLK_JOIN, BLK_SLEEP, BLK_PRED, FINISHED };

struct Thr
{
    int id = 0;
    TState st = RUN;
    void* obj = nullptr;
    int64_t deadline = -1;
    bool timedout = false, signaled = false, yielding = false;
    std::function<bool()> pred;
    const char* what = "";
    std::atomic<int> baton{0};
    pthread_t real{};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    Thr* jointarget = nullptr;
    bool detached = false, joined = false, frozen = false;
    VC vc{}, acqpend{}, relf{};
    bool has_relf = false;
};

struct Mtx { int owner = -1; int depth = 0; };
struct RW { int writer = -1; std::multiset<int> readers; };

static thread_local Thr* self = nullptr;
static thread_local int in_engine = 0;
struct Guard { Guard() { ++in_engine; } ~Guard() { --in_engine; } };

struct Exec
{
    const Scenario* sc = nullptr;
    std::vector<uint8_t> prefix;
    std::vector<uint8_t> alts;         // number of alternatives at each point
    std::vector<uint8_t> lvl;          // preemptions before each point
    std::vector<uint64_t> costs;       // which alternatives cost one more
    uint32_t pos = 0;
    std::vector<Thr*> thr;
    Thr* cur = nullptr;
    int budget = 0, spur = 0, used = 0;
    int64_t clock = 0;
    int jumps = 0;
    long steps = 0;
    int samerun = 0, spins = 0;
    std::unordered_map<void*, Mtx> mtx;
    std::unordered_map<void*, RW> rw;
    std::unordered_map<void*, VC> sync;
    std::unordered_map<uint64_t, VC> stacks;
    std::unordered_map<void*, int> guards;
    std::string outc;
    std::atomic<int> done{0};
    bool active = false;
    bool bodydone = false;
    bool diverged = false;
    bool pruned = false;
};
static Exec E;
static bool g_warm = false;
static bool g_replay = false, g_thorough = false, g_trace = false;
static uint64_t g_seed = 1;
static int64_t g_tick = 100;
static std::vector<std::function<void()>> g_worker_start;
static std::function<void(const char*)> g_at_point;
static int in_at_point = 0;
static bool g_race = false, g_free = false, g_schedat = false, g_schedrc = false;

static void shadow_reset();
static inline void* canon(const void* p);
static std::string where_am_i();
static void alloc_reset();
static void flush_outcome();

// ------------------------------------------------------------------ reporting
static void notev(const char* fmt, va_list ap)
{
    Guard g;
    char buf[2048];
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    if (n < 0) return;
    if (n > int(sizeof buf) - 1) n = sizeof buf - 1;
    if (g_trace) fprintf(stderr, "  [T%d] %s\n", self ? self->id : -1, buf);
    if (!W) return;
    uint32_t l = W->notelen.load();
    char pre[16];
    int pn = snprintf(pre, sizeof pre, "[T%d] ", self ? self->id : -1);
    if (l + n + pn + 2 >= MSGLEN) return;
    memcpy(W->notes + l, pre, pn); l += pn;
    memcpy(W->notes + l, buf, n); l += n;
    W->notes[l++] = '\n';
    W->notes[l] = 0;
    W->notelen = l;
}

[[noreturn]] static void die_with(const char* msg)
{
    // the report is in shared memory; this worker ends, the parent starts another one
    if (W && !W->has_report.exchange(1)) {
        snprintf(W->report, MSGLEN, "%s", msg);
    }
    if (!W) { fprintf(stderr, "mc: %s\n", msg); }
    _exit(77);
}

static void describe_threads(std::string& o)
{
    static const char* names[] = {"runnable", "waiting for mutex", "waiting on condition", "joining", "sleeping", "blocked", "finished"};
    for (auto* t : E.thr) {
        char b[256];
        snprintf(b, sizeof b, "; T%d %s%s%s", t->id, names[t->st], (t->what && *t->what) ? " at " : "", t->what ? t->what : "");
        o += b;
        if (t->st == BLK_MUTEX && E.mtx.count(t->obj)) { snprintf(b, sizeof b, " (locked by T%d)", E.mtx[t->obj].owner); o += b; }
    }
}

[[noreturn]] static void failmsg(const std::string& m)
{
    ++in_engine;
    // push the unexplored alternatives of this execution before this worker ends
    if (W && !g_replay && !g_warm) {
        lock();
        for (uint32_t i = E.alts.size(); i-- > E.prefix.size();) {
            for (int a = E.alts[i] - 1; a >= 1; --a) push_prefix_locked(W->choices, i, uint8_t(a), E.lvl[i] + int(a < 64 && (E.costs[i] >> a & 1)));
        }
        S->execs++;
        unlock();
    }
    die_with(m.c_str());
}

static void crash_handler(int sig, siginfo_t* si, void* uc)
{
    static std::atomic<int> once{0};
    if (once.exchange(1)) { for (;;) pause(); }
    in_engine = 1000;
    void* bt[40];
    int n = backtrace(bt, 40);
    std::string m = "crash: signal " + std::to_string(sig) + " (" + strsignal(sig) + ")";
    if (sig == SIGSEGV || sig == SIGBUS) { char b[64]; snprintf(b, sizeof b, " address %p", si->si_addr); m += b; }
    m += " at";
    auto* ctx = static_cast<ucontext_t*>(uc);
    char b[64];
    snprintf(b, sizeof b, " pc:%#llx", (unsigned long long)ctx->uc_mcontext.gregs[REG_RIP]);
    m += b;
    for (int i = 2; i < n && i < 30; ++i) { snprintf(b, sizeof b, " pc:%p", bt[i]); m += b; }
    if (!W) { fprintf(stderr, "%s\n", m.c_str()); _exit(78); }
    failmsg(m);
}

static void terminate_handler()
{
    ++in_engine;
    std::string m = "uncaught exception";
    if (auto* t = abi::__cxa_current_exception_type()) {
        int st;
        char* d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
        m += std::string(" of type ") + (d ? d : t->name());
        try { throw; } catch (std::exception& e) { m += std::string(": ") + e.what(); } catch (...) {}
    } else {
        m = "std::terminate called (e.g. joinable thread destroyed)";
    }
    if (!W) { fprintf(stderr, "%s\n", m.c_str()); _exit(78); }
    failmsg(m);
}

// ------------------------------------------------------------------ choices
static int decide(int n, const char* label, uint64_t costs = 0)
{
    if (n <= 1) return 0;
    Guard g;
    if (n > 250) n = 250;
    uint32_t p = E.pos++;
    int c = 0;
    if (p < E.prefix.size()) {
        c = E.prefix[p];
        if (c >= n) { E.diverged = true; c = 0; }
    }
    if (E.alts.size() <= p) E.alts.resize(p + 1);
    E.alts[p] = uint8_t(n);
    if (E.lvl.size() <= p) { E.lvl.resize(p + 1); E.costs.resize(p + 1); }
    E.lvl[p] = uint8_t(E.used);
    E.costs[p] = costs;
    if (W && p < MAXCHOICES) { W->choices[p] = uint8_t(c); W->nchoices = p + 1; }
    (void)label;
    return c;
}

static bool enabled(Thr* t)
{
    switch (t->st) {
        case RUN: return true;
        case BLK_MUTEX: {
            auto it = E.mtx.find(t->obj);
            return it == E.mtx.end() || it->second.owner < 0;
        }
        case BLK_COND: return t->signaled || t->timedout;
        case BLK_JOIN: return t->jointarget->st == FINISHED;
        case BLK_SLEEP: return t->timedout;
        case BLK_PRED: return t->timedout || t->pred();
        case FINISHED: return false;
    }
    return false;
}

static void hand_over(Thr* t)
{
    E.cur = t;
    t->baton.store(1);
    futex_wake(&t->baton);
}
static void await_baton(Thr* t)
{
    while (t->baton.load() == 0) futex_wait(&t->baton, 0);
    t->baton.store(0);
}

static void expire(int64_t now)
{
    for (auto* t : E.thr)
        if (t->deadline >= 0 && t->deadline <= now && (t->st == BLK_COND || t->st == BLK_SLEEP || t->st == BLK_PRED) && !t->signaled && !t->timedout) t->timedout = true;
}

// pick the next thread.  cur_enabled: the current thread could go on.
static void reschedule(bool finishing)
{
    Guard g;
    Thr* me = E.cur;
    if (++E.steps > E.sc->opts.max_steps) {
        std::string m = "livelock: more than " + std::to_string(E.sc->opts.max_steps) + " scheduling steps";
        describe_threads(m);
        failmsg(m);
    }
    struct Cand { Thr* t; int kind; };   // kind 0 run, 1 timeout, 2 spurious
    Cand cand[64];
    int n = 0;
    bool me_en = !finishing && enabled(me);
    bool yielding = me->yielding;
    me->yielding = false;
    int others = 0;
    for (auto* t : E.thr) if (t != me && enabled(t)) ++others;
    if (me_en && yielding && !others && ++E.spins > 20) {
        // busy waiting costs time: let the next timeout come
        int64_t best = INT64_MAX;
        for (auto* t : E.thr)
            if (t != me && t->deadline >= 0 && (t->st == BLK_COND || t->st == BLK_SLEEP || t->st == BLK_PRED)) best = std::min(best, t->deadline);
        if (best != INT64_MAX) {
            if (++E.jumps > E.sc->opts.max_time_jumps) {
                std::string m = "no progress: only busy waiting and timeouts";
                describe_threads(m);
                failmsg(m);
            }
            E.clock = std::max(E.clock, best);
            expire(E.clock);
            for (auto* t : E.thr) if (t != me && enabled(t)) ++others;
        }
        E.spins = 0;
    }
    if (me_en && !yielding && others && ++E.samerun > 400) { yielding = true; E.samerun = 0; }
    bool free_switch = !me_en || yielding;
    if (me_en && !(yielding && others)) cand[n++] = {me, 0};
    if (free_switch || E.budget > 0) {
        // round-robin order starting after me keeps the default schedule fair
        size_t N = E.thr.size();
        for (size_t k = 1; k < N && n < 40; ++k) {
            Thr* t = E.thr[(me->id + k) % N];
            if (t != me && enabled(t)) cand[n++] = {t, 0};
        }
    }
    int base = n;
    bool any_enabled = me_en || others;
    if (any_enabled) {
        if (E.budget > 0) {
            if (E.sc->opts.early_timeouts) for (auto* t : E.thr)
                if (n < 60 && t->deadline >= 0 && (t->st == BLK_COND || t->st == BLK_SLEEP || t->st == BLK_PRED) && !enabled(t)) cand[n++] = {t, 1};
            if (E.spur > 0)
                for (auto* t : E.thr)
                    if (n < 62 && t->st == BLK_COND && !enabled(t)) cand[n++] = {t, 2};
        }
    } else {
        int64_t best = INT64_MAX;
        for (auto* t : E.thr)
            if (t->deadline >= 0 && (t->st == BLK_COND || t->st == BLK_SLEEP || t->st == BLK_PRED)) best = std::min(best, t->deadline);
        if (best == INT64_MAX) {
            bool all = true;
            for (auto* t : E.thr) if (t->st != FINISHED && !t->frozen) all = false;
            if (all) {   // frozen threads cannot be joined
                bool fz = false;
                for (auto* t : E.thr) fz |= t->frozen && t->st != FINISHED;
                E.done.store(fz ? 2 : 1); futex_wake(&E.done); return;
            }
            if (E.bodydone && E.sc->opts.leak_threads_ok) { E.done.store(2); futex_wake(&E.done); if (!finishing) for (;;) pause(); return; }
            std::string m = E.bodydone ? "threads still blocked forever after everything ended" : "deadlock: no thread can make progress";
            describe_threads(m);
            failmsg(m);
        }
        if (++E.jumps > E.sc->opts.max_time_jumps) {
            std::string m = "no progress: only timeouts expire any more";
            describe_threads(m);
            failmsg(m);
        }
        for (auto* t : E.thr)
            if (n < 60 && t->deadline == best && (t->st == BLK_COND || t->st == BLK_SLEEP || t->st == BLK_PRED)) cand[n++] = {t, 1};
        base = n;
    }
    // delay bounding: every deviation from the default (round robin) scheduler counts, not only preemptions
    bool delays = E.sc->opts.delays;
    if (delays && E.budget <= 0) n = 1;
    auto costly = [&](int i) { const Cand& k = cand[i]; return k.kind == 0 ? (delays ? i > 0 : k.t != me && !free_switch) : any_enabled || (delays && i > 0); };
    uint64_t costs = 0;
    for (int i = 0; i < n; ++i) if (costly(i)) costs |= 1ull << i;
    int c = decide(n, "sched", costs);
    Cand ch = cand[c];
    bool cost = costly(c);
    (void)base;
    if (cost) { --E.budget; ++E.used; }
    if (ch.kind == 1) {
        E.clock = std::max(E.clock, ch.t->deadline);
        ch.t->timedout = true;
        expire(E.clock);
    } else if (ch.kind == 2) {
        --E.spur;
        ch.t->signaled = true;
    }
    if (g_trace && ch.t != me) fprintf(stderr, "  -- switch T%d -> T%d%s%s at step %ld t=%lld\n", me->id, ch.t->id, ch.kind == 1 ? " (timeout)" : ch.kind == 2 ? " (spurious)" : "", cost ? " [preempt]" : "", E.steps, (long long)E.clock);
    if (ch.t == me) { return; }
    E.samerun = 0;
    hand_over(ch.t);
    if (!finishing) await_baton(me);
}

static inline bool ctl() { return self && !in_engine && E.active; }

static void at_point(const char* what)
{
    if (!g_at_point || in_at_point || in_engine || !self) return;
    in_at_point = 1;
    g_at_point(what);
    in_at_point = 0;
}
static void point(const char* what)
{
    if (!ctl()) return;
    if (g_at_point) at_point(what);
    self->what = what;
    if (E.thr.size() > 1) reschedule(false);
    else if (++E.steps > 50L * E.sc->opts.max_steps) failmsg("livelock: too many steps in a single thread");
}

// block until enabled; returns when scheduled again
static void block(TState st, void* obj, int64_t deadline, const char* what)
{
    self->st = st;
    self->obj = obj;
    self->deadline = deadline;
    self->timedout = false;
    self->what = what;
    if (deadline >= 0 && deadline <= E.clock) self->timedout = true;
    reschedule(false);
    while (!enabled(self)) reschedule(false);
    self->st = RUN;
    self->deadline = -1;
    self->obj = nullptr;
}

// ------------------------------------------------------------------ happens-before
static inline void hb_acquire(void* o)
{
    auto it = E.sync.find(o);
    if (it != E.sync.end()) vc_join(self->vc, it->second);
}
static inline void hb_release(void* o)
{
    vc_join(E.sync[o], self->vc);
    self->vc.c[self->id]++;
}

// ------------------------------------------------------------------ mutex model
static int mtx_kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }

static int m_lock(pthread_mutex_t* m, int64_t deadline, bool trypoint, const char* what)
{
    Guard g0;
    --in_engine; point(what); ++in_engine;
    (void)trypoint;
    void* k = canon(m);
    Mtx* x = &E.mtx[k];
    if (x->owner == self->id) {
        if (mtx_kind(m) == PTHREAD_MUTEX_RECURSIVE) { x->depth++; return 0; }
        if (mtx_kind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        if (deadline < 0) { std::string s = "self-deadlock: thread locks a mutex it already holds"; describe_threads(s); failmsg(s + where_am_i()); }
    }
    while (x->owner >= 0) {
        if (deadline >= 0) {
            self->pred = [k]() { auto it = E.mtx.find(k); return it == E.mtx.end() || it->second.owner < 0; };
            block(BLK_PRED, k, deadline, what);
            x = &E.mtx[k];
            if (x->owner >= 0) return ETIMEDOUT;
        } else {
            block(BLK_MUTEX, k, -1, what);
            x = &E.mtx[k];
        }
    }
    x->owner = self->id;
    x->depth = 1;
    hb_acquire(k);
    if (g_at_point) { --in_engine; at_point("locked"); ++in_engine; }
    return 0;
}
static int m_trylock(pthread_mutex_t* m)
{
    Guard g0;
    --in_engine; point("trylock"); ++in_engine;
    void* k = canon(m);
    Mtx& x = E.mtx[k];
    if (x.owner == self->id && mtx_kind(m) == PTHREAD_MUTEX_RECURSIVE) { x.depth++; return 0; }
    if (x.owner >= 0) return EBUSY;
    x.owner = self->id;
    x.depth = 1;
    hb_acquire(k);
    return 0;
}
static int m_unlock(pthread_mutex_t* m)
{
    if (g_at_point && E.mtx[canon(m)].depth == 1) at_point("unlocking");
    Guard g0;
    void* k = canon(m);
    Mtx& x = E.mtx[k];
    if (x.owner != self->id) {
        if (x.owner < 0) return EPERM;
        failmsg("mutex unlocked by a thread that does not own it" + where_am_i());
    }
    if (--x.depth > 0) return 0;
    hb_release(k);
    x.owner = -1;
    return 0;
}
static int c_wait(pthread_cond_t* c0, pthread_mutex_t* m, int64_t deadline)
{
    Guard g0;
    void* c = canon(c0);
    void* k = canon(m);
    // the caller holds m: waiting releases it atomically
    Mtx& x = E.mtx[k];
    if (x.owner != self->id) failmsg("condition wait without holding the mutex" + where_am_i());
    int depth = x.depth;
    hb_release(k);
    x.owner = -1;
    self->signaled = false;
    block(BLK_COND, c, deadline, "condition wait");
    bool to = !self->signaled;
    self->signaled = false;
    hb_acquire(c);
    Mtx* y = &E.mtx[k];
    while (y->owner >= 0) { block(BLK_MUTEX, k, -1, "mutex after wait"); y = &E.mtx[k]; }
    y->owner = self->id;
    y->depth = depth;
    hb_acquire(k);
    return to ? ETIMEDOUT : 0;
}
static int c_signal(pthread_cond_t* c0, bool all)
{
    Guard g0;
    --in_engine; point("notify"); ++in_engine;
    void* c = canon(c0);
    hb_release(c);
    std::vector<Thr*> w;
    for (auto* t : E.thr) if (t->st == BLK_COND && t->obj == c && !t->signaled && !t->timedout) w.push_back(t);
    if (w.empty()) return 0;
    if (all) { for (auto* t : w) t->signaled = true; }
    else { int k = decide(int(w.size()), "notify_one"); w[k]->signaled = true; }
    return 0;
}

// ------------------------------------------------------------------ threads
static void* trampoline(void* p)
{
    auto* t = static_cast<Thr*>(p);
    self = t;
    await_baton(t);
    {
        // a stack used before by a thread that has finished: its accesses are over
        Guard g;
        auto it = E.stacks.find(uint64_t(pthread_self()));
        if (it != E.stacks.end()) vc_join(t->vc, it->second);
    }
    t->ret = t->fn(t->arg);
    {
        Guard g;
        E.stacks[uint64_t(pthread_self())] = t->vc;
        t->st = FINISHED;
        t->what = "";
        if (t->id == 0) E.bodydone = true;
        E.cur = t;
        reschedule(true);
    }
    ++in_engine;   // thread-exit destructors run uncontrolled
    self = nullptr;
    return t->ret;
}

static Thr* new_thr(void* (*fn)(void*), void* arg)
{
    Guard g;
    auto* t = new Thr;
    t->id = int(E.thr.size());
    t->fn = fn;
    t->arg = arg;
    if (t->id >= MAXT) failmsg("too many threads for the engine");
    E.thr.push_back(t);
    t->vc.c[t->id] = 1;
    if (long(E.thr.size()) > S->maxthreads) S->maxthreads = E.thr.size();
    return t;
}

}   // namespace eng

using namespace eng;

// ================================================================== public API
int choose(int n, const char* label)
{
    if (n > 250) {      // one decision has at most 250 alternatives
        int hi = choose((n + 249) / 250, label);
        return hi * 250 + choose(std::min(250, n - hi * 250), label);
    }
    if (!E.active) return 0;
    int c = decide(n, label);
    if (g_trace) fprintf(stderr, "  [T%d] choose %s/%d -> %d\n", self ? self->id : -1, label, n, c);
    return c;
}
bool flag(const char* label) { return choose(2, label) == 1; }
void fail(const char* fmt, ...)
{
    char b[8192];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    failmsg(b);
}
void note(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    notev(fmt, ap);
    va_end(ap);
}
void outcome(const std::string& s) { Guard g; E.outc += s; E.outc += '|'; }
struct Abandon {};
void abandon() { E.pruned = true; throw Abandon(); }
bool visited(uint64_t h, int remaining)
{
    Guard g;
    if (g_replay) return false;
    h = (h ^ (h >> 31)) * 0x9E3779B97F4A7C15ull;
    uint64_t key = h & ~uint64_t(0xff);
    if (!key) key = 0x100;
    uint64_t rem = std::min(254, remaining) + 1;
    size_t i = (h >> 40) % VIS_SLOTS;
    for (int k = 0; k < 64; ++k, i = (i + 1) % VIS_SLOTS) {
        uint64_t v = S->vis[i].load();
        if (v == 0) { if (S->vis[i].compare_exchange_strong(v, key | rem)) { S->states++; return false; } }
        if ((v & ~uint64_t(0xff)) == key) {
            if ((v & 0xff) >= rem) return true;
            S->vis[i].store(key | rem);
            return false;
        }
    }
    return false;
}
void state(uint64_t h)
{
    Guard g;
    h = (h ^ (h >> 31)) * 0x9E3779B97F4A7C15ull;
    if (!h) h = 1;
    size_t i = (h >> 40) % VIS_SLOTS;
    for (int k = 0; k < 64; ++k, i = (i + 1) % VIS_SLOTS) {
        uint64_t v = S->st[i].load();
        if (v == h) return;
        if (v == 0 && S->st[i].compare_exchange_strong(v, h)) { S->states++; return; }
        if (v == h) return;
    }
}
void transition() { S->transitions++; }
void trace_validated() { S->traces++; }
int64_t now_ns() { return E.clock; }
void advance_ns(int64_t d) { Guard g; E.clock += d; expire(E.clock); }
void set_tick(int64_t t) { g_tick = t; }
void yield_point(const char* why) { point(why); }
void at_points(std::function<void(const char*)> f) { Guard g; g_at_point = std::move(f); in_at_point = 0; }
void freeze_others(const std::vector<int>& keep)
{
    bool me = false;
    {
        Guard g;
        for (auto* t : E.thr) {
            bool k = false;
            for (int i : keep) k |= t->id == i;
            if (k || t->st == FINISHED) continue;
            t->frozen = true;
            t->st = BLK_PRED;
            t->pred = [] { return false; };
            t->signaled = t->timedout = false;
            t->deadline = -1;
            t->what = "frozen";
            me |= t == self;
        }
    }
    in_at_point = 0;
    if (me) { Guard g; reschedule(true); for (;;) pause(); }
}
int threads() { Guard g; return int(E.thr.size()); }
bool thorough() { return g_thorough; }
uint64_t seed() { return g_seed; }
bool replaying() { return g_replay; }
int self_id() { return self ? self->id : -1; }
void on_worker_start(std::function<void()> f) { g_worker_start.push_back(std::move(f)); }
bool block_until(const std::function<bool()>& pred, int64_t deadline, const char* what)
{
    if (!ctl()) { return pred(); }
    point(what);
    Guard g;
    if (pred()) return true;
    self->pred = pred;
    block(BLK_PRED, nullptr, deadline, what);
    return pred();
}

// ================================================================== one execution
namespace eng {

static void* body_main(void*)
{
    try {
        E.sc->body();
    } catch (Abandon&) {
    }
    return nullptr;
}

static void flush_outcome()
{
    if (E.pruned) return;
    uint64_t h = hash_str(E.outc);
    if (!h) h = 1;
    size_t i = h % OUTCOME_SLOTS;
    for (int k = 0; k < 200; ++k, i = (i + 1) % OUTCOME_SLOTS) {
        uint64_t v = S->outcomes[i].load();
        if (v == h) return;
        if (v == 0 && S->outcomes[i].compare_exchange_strong(v, h)) {
            S->noutcomes++;
            int s = S->noutsamples.fetch_add(1);
            if (s < 12) snprintf(S->outsamples[s], sizeof S->outsamples[s], "%s", E.outc.c_str());
            return;
        }
        if (v == h) return;
    }
}

static void run_one(const Scenario& sc, std::vector<uint8_t> prefix)
{
    Guard g;
    E.sc = &sc;
    E.prefix = std::move(prefix);
    E.alts.clear(); E.lvl.clear(); E.costs.clear();
    E.used = 0;
    E.pos = 0;
    E.thr.clear();
    E.budget = g_thorough ? sc.opts.preemptions_thorough : sc.opts.preemptions;
    E.spur = sc.opts.spurious;
    E.clock = 1700000000LL * 1000000000LL;
    E.jumps = 0;
    E.steps = 0;
    E.samerun = 0;
    E.spins = 0;
    E.stacks.clear();
    E.mtx.clear(); E.rw.clear(); E.sync.clear(); E.guards.clear();
    E.outc.clear();
    E.done = 0;
    E.bodydone = E.diverged = E.pruned = false;
    g_at_point = nullptr; in_at_point = 0;
    g_race = sc.opts.races; g_free = sc.opts.freecheck;
    g_schedat = sc.opts.sched_atomics; g_schedrc = sc.opts.sched_refcounts;
    shadow_reset();
    alloc_reset();
    if (W) { W->nchoices = 0; W->notelen = 0; W->notes[0] = 0; W->started = real_ns(); W->busy = 1; }
    if (sc.opts.in_main) {
        Thr* t = new_thr(nullptr, nullptr);
        self = t;
        E.cur = t;
        E.active = true;
        { int save = in_engine; in_engine = 0; body_main(nullptr); in_engine = save; }
        E.active = false;
        self = nullptr;
        delete t;
        E.thr.clear();
    } else {
        Thr* t = new_thr(body_main, nullptr);
        E.cur = t;
        E.active = true;
        static auto rcreate = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
        static auto rjoin = real<int (*)(pthread_t, void**)>("pthread_join");
        rcreate(&t->real, nullptr, trampoline, t);
        t->baton.store(1);
        futex_wake(&t->baton);
        while (E.done.load() == 0) futex_wait(&E.done, 0);
        E.active = false;
        if (E.done.load() == 1) {
            for (auto* x : E.thr) {
                if (!x->joined) rjoin(x->real, nullptr);
                delete x;
            }
            E.thr.clear();
        }
    }
    if (!g_warm) flush_outcome();
    if (W) W->busy = 0;
}

static void record_and_push(const Scenario& sc)
{
    lock();
    for (uint32_t i = uint32_t(E.alts.size()); i-- > E.prefix.size();) {
        for (int a = E.alts[i] - 1; a >= 1; --a) push_prefix_locked(W->choices, i, uint8_t(a), E.lvl[i] + int(a < 64 && (E.costs[i] >> a & 1)));
    }
    unlock();
    long e = ++S->execs;
    if (E.pruned) S->pruned++;
    if (E.diverged) S->diverged++;
    S->points += long(E.alts.size());
    S->nodes += long(E.alts.size()) - long(std::min<size_t>(E.alts.size(), E.prefix.size())) + 1;
    S->steps += E.steps;
    long d = long(E.alts.size());
    if (d > S->maxdepth) S->maxdepth = d;
    int smp = -1;
    if (e == 1 || e == 17 || e == 257 || e == 4001 || e == 20011) smp = S->nsamples.fetch_add(1);
    if (smp >= 0 && smp < 6) {
        std::string s = sc.name + " choices=";
        for (uint32_t i = 0; i < E.alts.size() && s.size() < 500; ++i) { s += std::to_string(int(W->choices[i])); s += '.'; }
        s += " outcome=" + E.outc.substr(0, 300);
        snprintf(S->samples[smp], sizeof S->samples[smp], "%s", s.c_str());
    }
}

static void warm_up(const Scenario& sc)
{
    if (sc.opts.fork_each) return;
    bool r = g_replay, t = g_trace;
    g_trace = false;
    g_warm = true;
    run_one(sc, {});
    g_warm = false;
    g_replay = r;
    g_trace = t;
    if (E.done.load() == 2) { if (W) W->busy = 0; }
}

[[noreturn]] static void worker_main(int idx, const Scenario& sc)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    g_worker = idx;
    W = &S->slot[idx];
    W->has_report = 0;
    for (auto& f : g_worker_start) f();
    // warm-up: first-use initialisation of libraries must not show up as a difference between runs
    warm_up(sc);
    std::vector<uint8_t> p;
    long done = 0;
    while (true) {
        if (S->stop.load() || real_ns() > S->deadline || (S->max_execs && S->execs.load() >= S->max_execs)) break;
        lock();
        bool got = pop_prefix_locked(p);
        if (got) S->inflight++;
        bool finished = !got && S->inflight.load() == 0;
        unlock();
        if (!got) {
            if (finished) break;
            usleep(100);
            continue;
        }
        run_one(sc, p);
        record_and_push(sc);
        int dn = E.done.load();
        bool leaked = !sc.opts.in_main && dn == 2;
        S->inflight--;
        if (leaked || sc.opts.fork_each || ++done > 20000) { _exit(3); }   // ask for a fresh process
    }
    _exit(0);
}

// run one prefix in a child; returns true if it failed, with report
static bool run_child(const Scenario& sc, const std::vector<uint8_t>& prefix, std::string& report, std::string& notes, std::vector<uint8_t>& choices, int timeout_s)
{
    WorkerSlot* sl = &S->slot[63];
    sl->has_report = 0;
    sl->notelen = 0;
    sl->nchoices = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        W = sl;
        g_worker = 63;
        for (auto& f : g_worker_start) f();
        warm_up(sc);
        g_replay = true;
        run_one(sc, prefix);
        _exit(0);
    }
    int64_t t0 = real_ns();
    int st = 0;
    bool hung = false;
    while (waitpid(pid, &st, WNOHANG) == 0) {
        if (real_ns() - t0 > int64_t(timeout_s) * 1000000000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
        usleep(500);
    }
    choices.assign(sl->choices, sl->choices + std::min<uint32_t>(sl->nchoices, MAXCHOICES));
    notes = sl->notes;
    if (hung) { report = "hang: execution does not terminate and reaches no scheduling point"; return true; }
    if (sl->has_report) { report = sl->report; return true; }
    if (WIFSIGNALED(st)) { report = std::string("process killed by signal ") + strsignal(WTERMSIG(st)); return true; }
    if (WEXITSTATUS(st) != 0) { report = "process exited with status " + std::to_string(WEXITSTATUS(st)) + " (memory error reported on stderr?)"; return true; }
    return false;
}

static std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}

static std::string symbolize(const std::string& m)
{
    std::string out, cmd = "addr2line -Cfsp -e /proc/" + std::to_string(getpid()) + "/exe";
    std::vector<std::string> pcs;
    for (size_t i = 0; (i = m.find("pc:0x", i)) != std::string::npos; i += 5) {
        size_t e = i + 3;
        while (e < m.size() && !isspace(m[e])) ++e;
        pcs.push_back(m.substr(i + 3, e - i - 3));
    }
    if (pcs.empty()) return m;
    for (auto& p : pcs) cmd += " " + p;
    cmd += " 2>/dev/null";
    FILE* f = popen(cmd.c_str(), "r");
    std::vector<std::string> names;
    char line[2048];
    while (f && fgets(line, sizeof line, f)) { line[strcspn(line, "\n")] = 0; names.push_back(line); }
    if (f) pclose(f);
    out = m.substr(0, m.find("pc:0x"));
    size_t k = 0;
    size_t i = 0;
    out.clear();
    while (i < m.size()) {
        if (m.compare(i, 5, "pc:0x") == 0) {
            size_t e = i + 3;
            while (e < m.size() && !isspace(m[e])) ++e;
            std::string nm = k < names.size() ? names[k] : "?";
            ++k;
            if (nm.find("??") == std::string::npos) { if (nm.size() > 160) nm = nm.substr(0, 80) + "..." + nm.substr(nm.size() - 70); out += "<" + nm + ">"; }
            i = e;
        } else out += m[i++];
    }
    return out;
}

struct Result
{
    std::string name, what;
    long nodes = 0, execs = 0, pruned = 0, diverged = 0, points = 0, steps = 0, transitions = 0, traces = 0, states = 0, outcomes = 0, left = 0, dropped = 0, maxdepth = 0, maxthreads = 0, unreproduced = 0;
    bool exhaustive = false;
    double wall = 0;
    int preemptions = 0, complete = 0;
    std::vector<std::string> samples, outsamples;
    struct Viol { std::string msg, notes, replay; std::vector<uint8_t> choices; bool known = false; std::string knownid; };
    std::vector<Viol> viols;
};

}   // namespace eng

int run(int argc, char** argv, std::vector<Scenario> scenarios)
{
    std::string out, replay, only, replaydir = ".", property = "C00";
    double budget = 20;
    int jobs = 8;
    long maxexecs = 0;
    bool list = false;
    std::vector<std::pair<std::string, std::string>> known;   // scenario, substring
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--out") out = next();
        else if (a == "--replay") replay = next();
        else if (a == "--scenario") only = next();
        else if (a == "--budget") budget = atof(next().c_str());
        else if (a == "--jobs") jobs = atoi(next().c_str());
        else if (a == "--thorough") g_thorough = true;
        else if (a == "--trace") g_trace = true;
        else if (a == "--seed") g_seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--replay-dir") replaydir = next();
        else if (a == "--property") property = next();
        else if (a == "--max-execs") maxexecs = atol(next().c_str());
        else if (a == "--list") list = true;
        else if (a == "--known") { std::string s = next(), m = next(); known.emplace_back(s, m); }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (list) { for (auto& s : scenarios) printf("%s\t%s\n", s.name.c_str(), s.what.c_str()); return 0; }
    signal(SIGPIPE, SIG_IGN);
    static char altstack[1 << 16];
    stack_t ss{};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
#ifndef MC_SEQ
    struct sigaction sa{};
    sa.sa_sigaction = crash_handler;
    sa.sa_flags = SA_SIGINFO;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
#else
    {
        struct sigaction sa{};
        sa.sa_sigaction = crash_handler;
        sa.sa_flags = SA_SIGINFO;
        sigaction(SIGABRT, &sa, nullptr);
        sigaction(SIGFPE, &sa, nullptr);
    }
#endif
    std::set_terminate(terminate_handler);
    { void* bt[2]; backtrace(bt, 2); }   // loads libgcc before it is needed in a handler
    S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    stackmem = static_cast<uint8_t*>(mmap(nullptr, STACKCAP * NLEVEL, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    auto* ch = static_cast<uint8_t*>(mmap(nullptr, MAXCHOICES * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (S == MAP_FAILED || stackmem == MAP_FAILED || ch == MAP_FAILED) { perror("mmap"); return 2; }
    for (int i = 0; i < 64; ++i) S->slot[i].choices = ch + MAXCHOICES * i;

    if (!replay.empty()) {
        // replay file: first line scenario, second line choices
        FILE* f = fopen(replay.c_str(), "r");
        if (!f) { perror("replay"); return 2; }
        std::string text;
        char b[65536];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0) text.append(b, n);
        fclose(f);
        auto field = [&](const std::string& k) { size_t p = text.find("\"" + k + "\""); if (p == std::string::npos) return std::string(); p = text.find_first_of("\"[", p + k.size() + 2); size_t e = text.find_first_of("\"]", p + 1); return text.substr(p + 1, e - p - 1); };
        std::string sn = field("scenario"), cs = field("choices");
        g_thorough = field("tier") == "thorough";
        std::vector<uint8_t> pre;
        for (size_t p = 0; p < cs.size();) { if (isdigit(cs[p])) { size_t e = p; while (e < cs.size() && isdigit(cs[e])) ++e; pre.push_back(uint8_t(atoi(cs.substr(p, e - p).c_str()))); p = e; } else ++p; }
        for (auto& s : scenarios) if (s.name == sn) {
            std::string rep, notes;
            std::vector<uint8_t> c2;
            bool bad = run_child(s, pre, rep, notes, c2, 60);
            printf("scenario %s: %s\n", sn.c_str(), bad ? symbolize(rep).c_str() : "no violation");
            if (!notes.empty()) printf("%s", notes.c_str());
            return bad ? 1 : 0;
        }
        fprintf(stderr, "no scenario '%s'\n", sn.c_str());
        return 2;
    }

    double wsum = 0;
    std::vector<Scenario*> todo;
    for (auto& s : scenarios) {
        if (!only.empty() && s.name != only) continue;
        if (s.opts.thorough_only && !g_thorough) continue;
        todo.push_back(&s);
        wsum += s.opts.weight;
    }
    std::vector<Result> results;
    int64_t tbegin = real_ns();
    int rc = 0;
    double spent = 0;
    for (auto* sp : todo) {
        Scenario& sc = *sp;
        Result r;
        r.name = sc.name;
        r.what = sc.what;
        r.preemptions = g_thorough ? sc.opts.preemptions_thorough : sc.opts.preemptions;
        int64_t t0 = real_ns();
        // unused time of earlier scenarios goes to later ones
        double share = (budget - (t0 - tbegin) / 1e9) * sc.opts.weight / std::max(1e-9, wsum);
        wsum -= sc.opts.weight;
        share = std::max(share, 0.35 * (budget - (t0 - tbegin) / 1e9));
        if (share < 0.5) share = 0.5;
        (void)spent;
        // fresh shared state
        {
            size_t off = offsetof(Shared, inflight);
            madvise(S, sizeof(Shared), MADV_REMOVE);
            memset(reinterpret_cast<char*>(S) + off, 0, offsetof(Shared, slot) - off);
            S->lock = 0;
            for (size_t i = 0; i < VIS_SLOTS; i += 512) { if (S->vis[i].load()) { memset((void*)S->vis, 0, sizeof S->vis); memset((void*)S->st, 0, sizeof S->st); break; } }
            for (int i = 0; i < 64; ++i) { auto& sl = S->slot[i]; sl.busy = 0; sl.has_report = 0; sl.nchoices = 0; sl.notelen = 0; sl.choices = ch + MAXCHOICES * i; }
        }
        S->deadline = t0 + int64_t(share * 1e9);
        S->max_execs = maxexecs ? maxexecs : (g_thorough ? sc.opts.max_execs_thorough : sc.opts.max_execs);
        // root
        lock();
        { uint32_t z = 0; memcpy(stackmem, &z, 4); for (auto& t : S->top) t = 0; S->top[0] = 4; S->items = 1; }
        madvise(stackmem, STACKCAP * NLEVEL, MADV_REMOVE);
        memset(stackmem, 0, 4);
        unlock();
        std::vector<pid_t> pids(jobs, -1);
        int alive = 0;
        auto spawn = [&](int i) {
            fflush(nullptr);
            pid_t p = fork();
            if (p == 0) {
                sigaltstack(&ss, nullptr);
                worker_main(i, sc);
            }
            pids[i] = p;
            ++alive;
        };
        for (int i = 0; i < jobs; ++i) spawn(i);
        bool giveup = false;
        int failures = 0;
        while (alive > 0) {
            int st;
            pid_t p = waitpid(-1, &st, WNOHANG);
            int idx = -1;
            bool hung = false;
            if (p == 0) {
                int64_t now = real_ns();
                for (int i = 0; i < jobs; ++i) {
                    auto& sl = S->slot[i];
                    if (pids[i] > 0 && sl.busy.load() && now - sl.started.load() > int64_t(sc.opts.exec_timeout_s) * 1000000000) {
                        kill(pids[i], SIGKILL);
                        waitpid(pids[i], &st, 0);
                        p = pids[i];
                        idx = i;
                        hung = true;
                        break;
                    }
                }
                if (p == 0) { usleep(300); continue; }
            }
            if (p < 0) break;
            if (idx < 0) for (int i = 0; i < jobs; ++i) if (pids[i] == p) idx = i;
            if (idx < 0) continue;
            --alive;
            pids[idx] = -1;
            auto& sl = S->slot[idx];
            bool abnormal = hung || WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3);
            if (abnormal) {
                std::vector<uint8_t> choices(sl.choices, sl.choices + std::min<uint32_t>(sl.nchoices.load(), MAXCHOICES));
                std::string rep = sl.has_report.load() ? std::string(sl.report) : hung ? "hang" : "worker died";
                sl.busy = 0;
                // replay before believing it
                std::string rep2, notes2;
                std::vector<uint8_t> c2;
                bool again = false;
                for (int k = 0; k < 3 && !again; ++k) again = run_child(sc, choices, rep2, notes2, c2, sc.opts.exec_timeout_s + 10);
                S->inflight--;
                if (!again) {
                    r.unreproduced++;
                    if (getenv("MC_DEBUG")) fprintf(stderr, "unreproduced: %s: %s\n", sc.name.c_str(), symbolize(rep).c_str());
                    if (r.unreproduced > 200) S->stop = 1;
                } else {
                    Result::Viol v;
                    v.msg = symbolize(rep2);
                    v.notes = symbolize(notes2);
                    v.choices = c2.empty() ? choices : c2;
                    for (auto& k : known) if ((k.first == "*" || k.first == sc.name) && (v.msg.find(k.second) != std::string::npos || v.notes.find(k.second) != std::string::npos)) { v.known = true; v.knownid = k.second; }
                    bool dup = false;
                    for (auto& o : r.viols) if ((o.known && v.known && o.knownid == v.knownid) || (!o.known && !v.known)) dup = true;
                    if (!v.known) { S->stop = 1; giveup = true; rc = 1; }
                    if (!dup) r.viols.push_back(v);
                    if (++failures > 300) { S->stop = 1; }
                }
                if (!S->stop.load() && real_ns() < S->deadline) spawn(idx);
            } else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
                if (!S->stop.load() && real_ns() < S->deadline) spawn(idx);
            }
        }
        (void)giveup;
        r.left = S->items.load() + std::max(0, S->inflight.load());
        r.complete = r.preemptions;
        for (int l = NLEVEL; l-- > 0;) if (S->top[l].load()) r.complete = l - 1;
        if (S->stop.load()) r.complete = -1;
        r.exhaustive = r.left == 0 && S->dropped == 0 && r.unreproduced == 0 && !S->stop.load();
        r.nodes = S->nodes; r.execs = S->execs; r.pruned = S->pruned; r.diverged = S->diverged; r.points = S->points; r.steps = S->steps;
        r.transitions = S->transitions; r.traces = S->traces; r.states = S->states; r.outcomes = S->noutcomes; r.dropped = S->dropped;
        r.maxdepth = S->maxdepth; r.maxthreads = S->maxthreads;
        for (int i = 0; i < std::min(6, S->nsamples.load()); ++i) r.samples.push_back(S->samples[i]);
        for (int i = 0; i < std::min(12, S->noutsamples.load()); ++i) r.outsamples.push_back(S->outsamples[i]);
        r.wall = (real_ns() - t0) / 1e9;
        fprintf(stderr, "%-34s execs=%ld outcomes=%ld states=%ld points=%ld pre=%d depth=%ld threads=%ld left=%ld%s%s%s %.1fs\n", r.name.c_str(), r.execs, r.outcomes, r.states, r.points, r.preemptions, r.maxdepth, r.maxthreads,
                r.left, r.exhaustive ? " exhaustive" : (" complete<=" + std::to_string(r.complete)).c_str(), r.diverged ? (" DIVERGED=" + std::to_string(r.diverged)).c_str() : "", r.unreproduced ? (" UNREPRODUCED=" + std::to_string(r.unreproduced)).c_str() : "", r.wall);
        for (auto& v : r.viols) {
            fprintf(stderr, "  %s: %s\n%s", v.known ? "known" : "VIOLATION", v.msg.c_str(), v.notes.c_str());
            if (!v.known) {
                v.replay = replaydir + "/" + property + "-" + sc.name + ".json";
                FILE* f = fopen(v.replay.c_str(), "w");
                if (f) {
                    std::string cs;
                    for (auto c : v.choices) { if (!cs.empty()) cs += ","; cs += std::to_string(int(c)); }
                    char self_exe[512];
                    ssize_t l = readlink("/proc/self/exe", self_exe, sizeof self_exe - 1);
                    self_exe[l > 0 ? l : 0] = 0;
                    fprintf(f, "{\"property\": \"%s\", \"scenario\": \"%s\", \"tier\": \"%s\", \"choices\": [%s],\n \"message\": \"%s\",\n \"trace\": \"%s\",\n \"driver\": \"%s\"}\n", property.c_str(), sc.name.c_str(), g_thorough ? "thorough" : "quick", cs.c_str(), jesc(v.msg).c_str(), jesc(v.notes).c_str(), self_exe);
                    fclose(f);
                }
            }
        }
        results.push_back(r);
        if (rc) break;
    }
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        if (!f) { perror("out"); return 2; }
        fprintf(f, "{\"scenarios\": [\n");
        for (size_t i = 0; i < results.size(); ++i) {
            auto& r = results[i];
            fprintf(f, " {\"name\": \"%s\", \"what\": \"%s\", \"nodes\": %ld, \"execs\": %ld, \"pruned\": %ld, \"diverged\": %ld, \"points\": %ld, \"steps\": %ld, \"transitions\": %ld, \"traces\": %ld, \"states\": %ld, \"outcomes\": %ld, \"left\": %ld, \"exhaustive\": %s, \"wall\": %.3f, \"preemptions\": %d, \"complete_preemptions\": %d, \"maxdepth\": %ld, \"maxthreads\": %ld, \"unreproduced\": %ld,\n  \"samples\": [", jesc(r.name).c_str(), jesc(r.what).c_str(), r.nodes, r.execs, r.pruned, r.diverged, r.points, r.steps, r.transitions, r.traces, r.states, r.outcomes, r.left, r.exhaustive ? "true" : "false", r.wall, r.preemptions, r.complete, r.maxdepth, r.maxthreads, r.unreproduced);
            for (size_t k = 0; k < r.samples.size(); ++k) fprintf(f, "%s\"%s\"", k ? ", " : "", jesc(r.samples[k]).c_str());
            fprintf(f, "], \"outcome_samples\": [");
            for (size_t k = 0; k < r.outsamples.size(); ++k) fprintf(f, "%s\"%s\"", k ? ", " : "", jesc(r.outsamples[k]).c_str());
            fprintf(f, "], \"violations\": [");
            for (size_t k = 0; k < r.viols.size(); ++k) fprintf(f, "%s{\"msg\": \"%s\", \"known\": %s, \"knownid\": \"%s\", \"replay\": \"%s\"}", k ? ", " : "", jesc(r.viols[k].msg).c_str(), r.viols[k].known ? "true" : "false", jesc(r.viols[k].knownid).c_str(), jesc(r.viols[k].replay).c_str());
            fprintf(f, "]}%s\n", i + 1 < results.size() ? "," : "");
        }
        fprintf(f, "]}\n");
        fclose(f);
    }
    return rc;
}

}   // namespace mc

#ifndef MC_SEQ
#include "mc_interpose.inc"
#else
namespace mc {
namespace eng { static void shadow_reset() {} static void alloc_reset() {} static inline void* canon(const void* p) { return const_cast<void*>(p); } static std::string where_am_i() { return {}; } }
size_t live_bytes() { return 0; }
long live_allocs() { return 0; }
Quiet::Quiet() {}
Quiet::~Quiet() {}
}
#endif
