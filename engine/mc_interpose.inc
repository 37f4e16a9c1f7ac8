// Interposition layer of the mc engine: pthread, time, malloc and the __tsan_* ABI.
// Included at the end of mc.cc (not in MC_SEQ builds).
#include <semaphore.h>

namespace mc {
namespace eng {

// ------------------------------------------------------------------ canonical addresses of shared mappings
struct Map { char* b; char* e; uint64_t key; };
static Map g_maps[64];
static int g_nmaps = 0;
static inline void* canon(const void* p)
{
    auto* c = static_cast<char*>(const_cast<void*>(p));
    for (int i = g_nmaps; i-- > 0;)
        if (c >= g_maps[i].b && c < g_maps[i].e) return reinterpret_cast<void*>(g_maps[i].key + uint64_t(c - g_maps[i].b));
    return c;
}

// ------------------------------------------------------------------ shadow memory
struct Acc { uint32_t clk; uint8_t tid, mask, wr, pad; void* pc; };
struct Cell { uint64_t tag; uint8_t freed; uint8_t n; Acc a[5]; void* freepc; };
constexpr size_t SH = 1 << 18;
static Cell* g_sh = nullptr;
static uint32_t g_gen = 0;
struct Al { void* p; size_t size; uint32_t gen; uint8_t st; };   // st 1 live 2 freed 3 tombstone
constexpr size_t AL = 1 << 18;
static Al* g_al = nullptr;
static size_t g_alused = 0;
static size_t g_livebytes = 0;
static long g_liveallocs = 0;
static std::atomic<int> g_allock{0};
constexpr size_t QMAX = 1 << 17;
static void** g_quar = nullptr;
static size_t g_nquar = 0;
struct ALock { ALock() { int z; do { z = 0; } while (!g_allock.compare_exchange_weak(z, 1)); } ~ALock() { g_allock.store(0); } };
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);
void* __libc_memalign(size_t, size_t);
}

static void shadow_reset()
{
    if (!g_sh) g_sh = static_cast<Cell*>(mmap(nullptr, SH * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    ++g_gen;
}
static void alloc_reset()
{
    ALock l;
    if (!g_al) {
        g_al = static_cast<Al*>(mmap(nullptr, AL * sizeof(Al), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        g_quar = static_cast<void**>(mmap(nullptr, QMAX * sizeof(void*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    }
    for (size_t i = 0; i < g_nquar; ++i) __libc_free(g_quar[i]);
    g_nquar = 0;
    g_alused = 0;
    g_livebytes = 0;
    g_liveallocs = 0;
}
static Cell* cell(uint64_t gran, bool create)
{
    uint64_t tag = (gran << 16) ^ (g_gen & 0xffff);   // granule numbers fit 44 bits
    size_t i = (gran * 0x9E3779B97F4A7C15ull) >> 46;
    for (int k = 0; k < 12; ++k) {
        Cell* c = &g_sh[(i + k) & (SH - 1)];
        if (c->tag == tag) return c;
        if ((c->tag & 0xffff) != (tag & 0xffff)) {     // stale: free
            if (!create) return nullptr;
            c->tag = tag; c->freed = 0; c->n = 0;
            return c;
        }
    }
    if (!create) return nullptr;
    Cell* c = &g_sh[i & (SH - 1)];
    c->tag = tag; c->freed = 0; c->n = 0;
    return c;
}
static Al* al_find(void* p, bool create)
{
    size_t i = ((uint64_t(p) >> 4) * 0x9E3779B97F4A7C15ull) >> 46;
    Al* tomb = nullptr;
    for (size_t k = 0; k < AL; ++k) {
        Al* a = &g_al[(i + k) & (AL - 1)];
        if (a->gen != g_gen) { if (!create) return nullptr; Al* r = tomb ? tomb : a; r->p = p; r->gen = g_gen; r->st = 0; return r; }
        if (a->p == p && a->st != 3) return a;
        if (a->st == 3 && !tomb) tomb = a;
    }
    return nullptr;
}
constexpr int STK = 64;
struct CallStack { void* pc[STK]; int n; };
static thread_local CallStack g_stk;
static std::string stack_str()
{
    std::string s;
    char b[64];
    for (int i = std::min(g_stk.n, STK) - 1, k = 0; i >= 0 && k < 8; --i, ++k) { snprintf(b, sizeof b, " pc:%p", g_stk.pc[i]); s += b; }
    return s;
}
static std::string where_am_i() { return " ; stack" + stack_str(); }
static void freed_use(const void* p, const char* how, void* pc, Cell* c)
{
    Guard g;
    char b[256];
    snprintf(b, sizeof b, "use after free: %s at pc:%p ; freed at pc:%p ; stack", how, pc, c->freepc);
    failmsg(std::string(b) + stack_str());
}
static inline void check_alive(const void* p, const char* how)
{
    if (!g_free || !ctl()) return;
    Cell* c = cell(uint64_t(p) >> 3, false);
    if (c && c->freed) freed_use(p, how, __builtin_return_address(0), c);
}
static inline void access(const void* addr, size_t n, bool wr, void* pc)
{
    if (!(g_race || g_free) || !ctl()) return;
    if (n == 0) return;
    uint64_t a = uint64_t(g_nmaps ? canon(addr) : addr), e = a + n;
    if (n > 4096) e = a + 4096;
    Thr* me = self;
    while (a < e) {
        uint64_t gran = a >> 3;
        uint64_t ge = std::min<uint64_t>(e, (gran + 1) << 3);
        uint8_t mask = uint8_t(((1u << (ge - a)) - 1) << (a & 7));
        Cell* c = cell(gran, g_race);
        if (c) {
            if (c->freed && g_free) freed_use(addr, wr ? "write" : "read", pc, c);
            if (g_race) {
                int slot = -1, safe = -1;
                for (int i = 0; i < c->n; ++i) {
                    Acc& x = c->a[i];
                    bool hb = x.tid == me->id || x.clk <= me->vc.c[x.tid];
                    if (!hb && (x.mask & mask) && (x.wr || wr)) {
                        Guard g;
                        char b[300];
                        snprintf(b, sizeof b, "data race: %s by T%d at pc:%p conflicts with earlier %s by T%d at pc:%p ; stack", wr ? "write" : "read", me->id, pc, x.wr ? "write" : "read", x.tid, x.pc);
                        failmsg(std::string(b) + stack_str());
                    }
                    if (x.tid == me->id && x.mask == mask && (wr || !x.wr)) slot = i;
                    else if (hb && wr && (x.mask & ~mask) == 0) safe = i;
                }
                if (slot < 0) slot = safe;
                if (slot < 0) { if (c->n < 5) slot = c->n++; else slot = int(E.steps % 5); }
                c->a[slot] = Acc{me->vc.c[me->id], uint8_t(me->id), mask, uint8_t(wr), 0, pc};
            }
        }
        a = ge;
    }
}
static void mark_fresh(void* p, size_t n)
{
    uint64_t a = uint64_t(p) >> 3, e = (uint64_t(p) + std::min<size_t>(n, 65536) + 7) >> 3;
    for (; a < e; ++a) { Cell* c = cell(a, false); if (c) { c->n = 0; c->freed = 0; } }
}
static void track_alloc(void* p, size_t n)
{
    if (!p || !ctl() || !g_al) return;
    if (g_alused > AL / 2) return;
    Guard g;
    ALock l;
    Al* a = al_find(p, true);
    if (!a) return;
    if (a->st != 1) ++g_alused;
    a->st = 1; a->size = n;
    g_livebytes += n; ++g_liveallocs;
    if (g_race || g_free) mark_fresh(p, n);
}
// returns true if the caller must really free
static bool track_free(void* p, void* pc)
{
    if (!g_al || !E.active) return true;
    bool c = ctl();
    ++in_engine;
    bool r = true;
    const char* bad = nullptr;
    {
        ALock l;
        Al* a = al_find(p, false);
        if (a && a->st == 1) {
            g_livebytes -= a->size; --g_liveallocs;
            if (g_free && c && g_nquar < QMAX) {
                a->st = 2;
                g_quar[g_nquar++] = p;
                r = false;
                uint64_t x = uint64_t(p) >> 3, e = (uint64_t(p) + std::min<size_t>(std::max<size_t>(a->size, 1), 65536) + 7) >> 3;
                Thr* me = self;
                for (; x < e; ++x) {
                    Cell* ce = cell(x, true);
                    if (!ce) continue;
                    if (g_race && !bad)
                        for (int i = 0; i < ce->n; ++i) if (ce->a[i].tid != me->id && ce->a[i].clk > me->vc.c[ce->a[i].tid]) { bad = "data race: memory freed while another thread's access to it is not ordered before"; pc = ce->a[i].pc; }
                    ce->freed = 1; ce->n = 0; ce->freepc = pc;
                }
            } else { a->st = 3; }
        } else if (a && a->st == 2) bad = "double free";
    }
    if (bad) {
        char b[160];
        snprintf(b, sizeof b, "%s at pc:%p ; stack", bad, pc);
        failmsg(std::string(b) + stack_str());
    }
    --in_engine;
    return r;
}

// ------------------------------------------------------------------ real functions
#define REAL(ret, name, ...) using name##_fp = ret (*)(__VA_ARGS__); static name##_fp r_##name() { static name##_fp f = real<name##_fp>(#name); return f; }
REAL(int, pthread_mutex_lock, pthread_mutex_t*)
REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const timespec*)
REAL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const timespec*)
REAL(int, pthread_mutex_init, pthread_mutex_t*, const pthread_mutexattr_t*)
REAL(int, pthread_mutex_destroy, pthread_mutex_t*)
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const timespec*)
REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)
REAL(int, pthread_cond_signal, pthread_cond_t*)
REAL(int, pthread_cond_broadcast, pthread_cond_t*)
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
REAL(int, pthread_join, pthread_t, void**)
REAL(int, pthread_detach, pthread_t)
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*)
REAL(int, pthread_once, pthread_once_t*, void (*)())
REAL(int, nanosleep, const timespec*, timespec*)
REAL(int, clock_nanosleep, clockid_t, int, const timespec*, timespec*)
REAL(int, usleep, useconds_t)
REAL(unsigned, sleep, unsigned)
REAL(int, sched_yield, void)
REAL(int, clock_gettime, clockid_t, timespec*)
REAL(int, gettimeofday, timeval*, void*)
REAL(time_t, time, time_t*)
REAL(int, sem_wait, sem_t*)
REAL(int, sem_timedwait, sem_t*, const timespec*)
REAL(int, sem_trywait, sem_t*)
REAL(int, sem_post, sem_t*)
REAL(void*, mmap, void*, size_t, int, int, int, off_t)
REAL(int, munmap, void*, size_t)
REAL(int, __cxa_guard_acquire, abi::__guard*)
REAL(void, __cxa_guard_release, abi::__guard*)
REAL(void, __cxa_guard_abort, abi::__guard*)

static int64_t ts_ns(const timespec* t)
{
    __int128 v = __int128(t->tv_sec) * 1000000000 + t->tv_nsec;
    if (v > INT64_MAX / 2) v = INT64_MAX / 2;
    if (v < 0) v = 0;
    return int64_t(v);
}
static void sleep_ns(int64_t d)
{
    Guard g;
    if (d < 0) d = 0;
    int64_t dl = (d > INT64_MAX / 4) ? INT64_MAX / 2 : E.clock + d;
    block(BLK_SLEEP, nullptr, std::max(dl, E.clock + 1), "sleep");
}
static int64_t tick()
{
    Guard g;
    E.clock += g_tick;
    expire(E.clock);
    return E.clock;
}

}   // namespace eng

size_t live_bytes() { return g_livebytes; }
long live_allocs() { return g_liveallocs; }
Quiet::Quiet() { ++in_engine; }
Quiet::~Quiet() { --in_engine; }

}   // namespace mc

using namespace mc;
using namespace mc::eng;

extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!ctl()) return r_pthread_mutex_lock()(m);
    check_alive(m, "mutex lock");
    return m_lock(m, -1, true, "mutex lock");
}
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!ctl()) return r_pthread_mutex_trylock()(m); check_alive(m, "mutex trylock"); return m_trylock(m); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { if (!ctl()) return r_pthread_mutex_timedlock()(m, t); return m_lock(m, ts_ns(t), true, "timed lock"); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) { if (!ctl()) return r_pthread_mutex_clocklock()(m, c, t); return m_lock(m, ts_ns(t), true, "timed lock"); }
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!ctl()) return r_pthread_mutex_unlock()(m);
    check_alive(m, "mutex unlock");
    int r = m_unlock(m);
    return r;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    if (ctl()) { Guard g; E.mtx.erase(canon(m)); E.sync.erase(canon(m)); }
    return r_pthread_mutex_init()(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) { if (ctl()) { Guard g; E.mtx.erase(canon(m)); } return r_pthread_mutex_destroy()(m); }

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!ctl()) return r_pthread_cond_wait()(c, m); check_alive(c, "condition wait"); return c_wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (!ctl()) return r_pthread_cond_timedwait()(c, m, t); check_alive(c, "condition wait"); return c_wait(c, m, ts_ns(t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { if (!ctl()) return r_pthread_cond_clockwait()(c, m, k, t); check_alive(c, "condition wait"); return c_wait(c, m, ts_ns(t)); }
int pthread_cond_signal(pthread_cond_t* c) { if (!ctl()) return r_pthread_cond_signal()(c); check_alive(c, "condition notify"); return c_signal(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!ctl()) return r_pthread_cond_broadcast()(c); check_alive(c, "condition notify"); return c_signal(c, true); }
int pthread_cond_destroy(pthread_cond_t* c)
{
    static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_destroy");
    if (!ctl()) return f(c);
    return 0;
}

int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    if (!ctl()) return r_pthread_create()(th, at, fn, arg);
    Thr* t;
    {
        Guard g;
        t = new_thr(fn, arg);
        vc_join(t->vc, self->vc);
        self->vc.c[self->id]++;
        int r = r_pthread_create()(&t->real, nullptr, trampoline, t);
        if (r) failmsg("pthread_create failed for real");
        *th = t->real;
        if (at) { int ds = 0; pthread_attr_getdetachstate(at, &ds); if (ds == PTHREAD_CREATE_DETACHED) t->detached = true; }
    }
    point("thread created");
    return 0;
}
int pthread_join(pthread_t th, void** ret)
{
    if (!ctl()) return r_pthread_join()(th, ret);
    Guard g;
    Thr* t = nullptr;
    for (auto* x : E.thr) if (x->real == th && !x->joined && x->id != 0) t = x;
    if (!t) return ESRCH;
    if (t == self) return EDEADLK;
    --in_engine; point("join"); ++in_engine;
    if (t->st != FINISHED) { self->jointarget = t; block(BLK_JOIN, t, -1, "thread join"); }
    vc_join(self->vc, t->vc);
    r_pthread_join()(th, nullptr);
    t->joined = true;
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t th)
{
    if (!ctl()) return r_pthread_detach()(th);
    Guard g;
    for (auto* x : E.thr) if (x->real == th && !x->joined) x->detached = true;   // still joined for real at the end of the execution
    return 0;
}

// ---- rwlocks
static int rw_lock(pthread_rwlock_t* l, bool wr, bool tr)
{
    point("rwlock");
    Guard g;
    void* k = canon(l);
    auto can = [k, wr]() { auto& x = E.rw[k]; return wr ? (x.writer < 0 && x.readers.empty()) : x.writer < 0; };
    if (!can()) {
        if (tr) return EBUSY;
        if (E.rw[k].writer == self->id) return EDEADLK;
        self->pred = can;
        while (!can()) block(BLK_PRED, l, -1, wr ? "write lock" : "read lock");
    }
    if (wr) E.rw[k].writer = self->id; else E.rw[k].readers.insert(self->id);
    hb_acquire(k);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!ctl()) return r_pthread_rwlock_rdlock()(l); return rw_lock(l, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!ctl()) return r_pthread_rwlock_wrlock()(l); return rw_lock(l, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!ctl()) return r_pthread_rwlock_tryrdlock()(l); return rw_lock(l, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!ctl()) return r_pthread_rwlock_trywrlock()(l); return rw_lock(l, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!ctl()) return r_pthread_rwlock_unlock()(l);
    Guard g;
    void* k = canon(l);
    auto& x = E.rw[k];
    hb_release(k);
    if (x.writer == self->id) x.writer = -1;
    else { auto it = x.readers.find(self->id); if (it == x.readers.end()) failmsg("rwlock unlocked by a thread that does not hold it"); x.readers.erase(it); }
    return 0;
}

// ---- once, static initialisation
int pthread_once(pthread_once_t* o, void (*fn)())
{
    if (!ctl()) return r_pthread_once()(o, fn);
    if ((*o & 3) == 2) { Guard g; hb_acquire(o); return 0; }
    point("once");
    {
        Guard g;
        if (E.guards[o]) {
            self->pred = [o]() { return E.guards[o] == 0; };
            while (E.guards[o]) block(BLK_PRED, o, -1, "once");
        }
        if ((*o & 3) == 2) { hb_acquire(o); return 0; }
        E.guards[o] = 1;
    }
    try { fn(); } catch (...) { Guard g; E.guards[o] = 0; throw; }
    Guard g;
    *o = 2;
    E.guards[o] = 0;
    hb_release(o);
    return 0;
}
int __cxa_guard_acquire(abi::__guard* gd)
{
    if (!ctl()) return r___cxa_guard_acquire()(gd);
    Guard g;
    auto* b = reinterpret_cast<char*>(gd);
    if (*b) { hb_acquire(gd); return 0; }
    if (E.guards[gd]) {
        self->pred = [gd]() { return E.guards[gd] == 0; };
        while (E.guards[gd]) block(BLK_PRED, gd, -1, "static initialisation");
    }
    if (*b) { hb_acquire(gd); return 0; }
    E.guards[gd] = 1;
    return 1;
}
void __cxa_guard_release(abi::__guard* gd)
{
    if (!ctl()) return r___cxa_guard_release()(gd);
    Guard g;
    *reinterpret_cast<char*>(gd) = 1;
    E.guards[gd] = 0;
    hb_release(gd);
}
void __cxa_guard_abort(abi::__guard* gd)
{
    if (!ctl()) return r___cxa_guard_abort()(gd);
    Guard g;
    E.guards[gd] = 0;
}

// ---- time
int nanosleep(const timespec* t, timespec* rem) { if (!ctl()) return r_nanosleep()(t, rem); sleep_ns(ts_ns(t)); return 0; }
int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec* rem)
{
    if (!ctl()) return r_clock_nanosleep()(c, flags, t, rem);
    sleep_ns((flags & TIMER_ABSTIME) ? ts_ns(t) - E.clock : ts_ns(t));
    return 0;
}
int usleep(useconds_t u) { if (!ctl()) return r_usleep()(u); sleep_ns(int64_t(u) * 1000); return 0; }
unsigned sleep(unsigned s) { if (!ctl()) return r_sleep()(s); sleep_ns(int64_t(s) * 1000000000); return 0; }
int sched_yield()
{
    if (!ctl()) return r_sched_yield()();
    self->yielding = true;
    point("yield");
    return 0;
}
int clock_gettime(clockid_t c, timespec* t)
{
    if (!ctl() || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return r_clock_gettime()(c, t);
    int64_t n = tick();
    t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000;
    return 0;
}
int gettimeofday(timeval* t, void* z)
{
    if (!ctl()) return r_gettimeofday()(t, z);
    int64_t n = tick();
    t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000;
    return 0;
}
time_t time(time_t* t)
{
    if (!ctl()) return r_time()(t);
    time_t r = tick() / 1000000000;
    if (t) *t = r;
    return r;
}

// ---- POSIX semaphores (boost named mutexes): the real semaphore holds the state
static int s_wait(sem_t* s, int64_t dl)
{
    point("sem wait");
    Guard g;
    if (r_sem_trywait()(s) == 0) { hb_acquire(canon(s)); return 0; }
    while (true) {
        self->pred = [s]() { int v = 0; sem_getvalue(s, &v); return v > 0; };
        block(BLK_PRED, s, dl, "semaphore");
        if (r_sem_trywait()(s) == 0) { hb_acquire(canon(s)); return 0; }
        if (dl >= 0 && E.clock >= dl) { errno = ETIMEDOUT; return -1; }
    }
}
int sem_wait(sem_t* s) { if (!ctl()) return r_sem_wait()(s); return s_wait(s, -1); }
int sem_timedwait(sem_t* s, const timespec* t) { if (!ctl()) return r_sem_timedwait()(s, t); return s_wait(s, ts_ns(t)); }
int sem_trywait(sem_t* s) { if (!ctl()) return r_sem_trywait()(s); point("sem trywait"); Guard g; int r = r_sem_trywait()(s); if (r == 0) hb_acquire(canon(s)); return r; }
int sem_post(sem_t* s) { if (!ctl()) return r_sem_post()(s); point("sem post"); Guard g; hb_release(canon(s)); return r_sem_post()(s); }

// ---- shared mappings
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off)
{
    void* p = reinterpret_cast<void*>(syscall(SYS_mmap, a, n, prot, flags, fd, off));
    if (p != MAP_FAILED && fd >= 0 && (flags & MAP_SHARED)) {
        struct stat st;
        if (syscall(SYS_fstat, fd, &st) == 0 && S_ISREG(st.st_mode)) {
            ALock l;
            if (g_nmaps < 64) g_maps[g_nmaps++] = Map{static_cast<char*>(p), static_cast<char*>(p) + n, (uint64_t(1) << 49) + ((uint64_t(st.st_ino) & 0x1fff) << 36) + uint64_t(off)};
        }
    }
    return p;
}
void* mmap64(void* a, size_t n, int prot, int flags, int fd, off_t off) { return mmap(a, n, prot, flags, fd, off); }
int munmap(void* a, size_t n)
{
    {
        ALock l;
        for (int i = 0; i < g_nmaps; ++i) if (g_maps[i].b == a) { g_maps[i] = g_maps[--g_nmaps]; break; }
    }
    return int(syscall(SYS_munmap, a, n));
}

// ---- allocation
void* malloc(size_t n)
{
    void* p = __libc_malloc(n ? n : 1);
    track_alloc(p, n);
    return p;
}
void* calloc(size_t a, size_t b)
{
    void* p = __libc_calloc(a, b);
    track_alloc(p, a * b);
    return p;
}
void* memalign(size_t al, size_t n) { void* p = __libc_memalign(al, n); track_alloc(p, n); return p; }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** o, size_t al, size_t n)
{
    if (al < sizeof(void*) || (al & (al - 1))) return EINVAL;
    void* p = __libc_memalign(al, n);
    if (!p) return ENOMEM;
    track_alloc(p, n);
    *o = p;
    return 0;
}
void free(void* p)
{
    if (!p) return;
    if (track_free(p, __builtin_return_address(0))) __libc_free(p);
}
void* realloc(void* p, size_t n)
{
    if (!p) return malloc(n);
    size_t old = 0;
    bool tracked = false;
    if (g_al && E.active) { ++in_engine; { ALock l; Al* a = al_find(p, false); if (a && a->st == 1) { tracked = true; old = a->size; } } --in_engine; }
    if (!tracked) { void* q = __libc_realloc(p, n); return q; }
    if (n == 0) { free(p); return nullptr; }
    void* q = malloc(n);
    if (!q) return nullptr;
    memcpy(q, p, std::min(old, n));
    free(p);
    return q;
}

// ------------------------------------------------------------------ __tsan ABI
#define RA __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (g_stk.n < STK) g_stk.pc[g_stk.n] = pc; g_stk.n++; }
void __tsan_func_exit() { if (g_stk.n > 0) g_stk.n--; }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false, RA); } \
    void __tsan_write##n(void* p) { access(p, n, true, RA); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, RA); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, RA); } \
    void __tsan_read_write##n(void* p) { access(p, n, true, RA); } \
    void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, RA); }
void __tsan_vptr_read(void** p) { access(p, 8, false, RA); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false, RA); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, RA); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false, RA); access(d, n, true, RA); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false, RA); access(d, n, true, RA); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true, RA); return memset(d, c, n); }

}   // extern "C"

namespace {
inline bool is_acq(int mo) { return mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline void at_point(const volatile void* a, bool rc)
{
    if (!ctl()) return;
    check_alive(const_cast<const void*>(a), "atomic access");
    if (g_schedat && (!rc || g_schedrc)) point("atomic");
}
inline void at_load(const volatile void* a, int mo)
{
    if (!g_race || !ctl()) return;
    Guard g;
    auto it = E.sync.find(canon(const_cast<const void*>(a)));
    if (it == E.sync.end()) return;
    if (is_acq(mo)) vc_join(self->vc, it->second);
    else vc_join(self->acqpend, it->second);
}
inline void at_store(const volatile void* a, int mo, bool rmw)
{
    if (!g_race || !ctl()) return;
    Guard g;
    void* k = canon(const_cast<const void*>(a));
    if (is_rel(mo)) {
        if (rmw) vc_join(E.sync[k], self->vc); else E.sync[k] = self->vc;
        self->vc.c[self->id]++;
    } else if (self->has_relf) {
        if (rmw) vc_join(E.sync[k], self->relf); else E.sync[k] = self->relf;
    } else if (!rmw) E.sync.erase(k);
}
}   // namespace

#define AT(bits, T) \
extern "C" { \
T __tsan_atomic##bits##_load(const volatile T* a, int mo) { at_point(a, false); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_load(a, mo); return v; } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { at_point(a, false); at_store(a, mo, false); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { at_point(a, false); at_load(a, mo); at_store(a, mo, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { at_point(a, bits == 32); at_load(a, mo); at_store(a, mo, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { at_point(a, bits == 32); at_load(a, mo); at_store(a, mo, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { at_point(a, false); at_load(a, mo); at_store(a, mo, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { at_point(a, false); at_load(a, mo); at_store(a, mo, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { at_point(a, false); at_load(a, mo); at_store(a, mo, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { at_point(a, false); at_load(a, mo); at_store(a, mo, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { at_point(a, false); T e = *c; bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (ok) { at_load(a, mo); at_store(a, mo, true); } else { at_load(a, fmo); *c = e; } return ok; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; } \
}
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)

extern "C" {
void __tsan_atomic_thread_fence(int mo)
{
    if (!ctl()) { __sync_synchronize(); return; }
    if (g_schedat) point("fence");
    Guard g;
    if (is_acq(mo)) vc_join(self->vc, self->acqpend);
    if (is_rel(mo)) { self->relf = self->vc; self->has_relf = true; self->vc.c[self->id]++; }
}
void __tsan_atomic_signal_fence(int) {}
}
