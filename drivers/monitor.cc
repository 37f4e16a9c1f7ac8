// C33: the monitor of a session under the virtual clock: the real Monitor::Run with its threads next to real
// devices (transport factories with their heartbeat threads) that start, stop, die and are cleaned up by hand.
#include "transport.h"
#include <csignal>
#include <fairmq/shmem/Monitor.h>
using namespace tr;
using fair::mq::shmem::Monitor;
using fair::mq::shmem::SessionId;

namespace {
constexpr int64_t kT = 1000;                // timeout, ms
constexpr int64_t kPoll = 200, kWatch = 100;
const std::string kSession = "watched";
std::string mng() { mc::Quiet q; return "fmq_" + shmid(kSession) + "_mng"; }
int64_t now() { return mc::now_ns() / 1000000; }

struct World
{
    struct Dev { Fac f; int from = 0, to = 0; int64_t start = 0; bool alive = false; bool region = false; UnmanagedRegionPtr r; };
    Dev d[2];
    std::vector<std::shared_ptr<Monitor>> mons;
    std::set<int> monids;
    std::vector<int> dead;                  // threads of the dead
    int64_t lastbeat = -1;                  // of a device that no longer runs
    int64_t seen_since = -1;                // the session exists since
    bool running = false, destructive = true, clean_exit = false, ending = false, self = false;
    int64_t gone_at = -1, began = 0;
    bool ever_seen = false;
    std::thread* t = nullptr;
    std::string ops;
    int unlinks = 0;
};
World* w;

int64_t last()                              // the last heartbeat of the session so far
{
    int64_t l = w->lastbeat;
    for (auto& d : w->d) if (d.alive) l = std::max(l, d.start + (now() - d.start) / 100 * 100);
    return l;
}
void unlinking(const char* what, const char* name)
{
    if (strcmp(what, "shm_unlink") != 0 || !w || !w->monids.count(mc::self_id())) return;
    mc::Quiet q;
    std::string n = name[0] == '/' ? name + 1 : name;
    if (!fakeshm::exists(n)) return;
    ++w->unlinks;
    if (w->ending && w->clean_exit) return;
    MC_CHECK(w->destructive, "%s: a monitor that only looks removed %s", w->ops.c_str(), n.c_str());
    for (auto& d : w->d) MC_CHECK(!d.alive, "%s: the monitor removed %s of a running device at %ld ms (its last heartbeat was at %ld ms, timeout %ld ms)", w->ops.c_str(), n.c_str(), long(now()), long(last()), long(kT));
    MC_CHECK(now() - last() >= kT, "%s: the monitor removed %s only %ld ms after the last heartbeat, timeout %ld ms", w->ops.c_str(), n.c_str(), long(now() - last()), long(kT));
}
void watch(bool self, bool view, bool clean_exit)
{
    w->destructive = !view;
    w->clean_exit = clean_exit;
    w->self = self;
    auto m = std::make_shared<Monitor>(shmid(kSession), self, false, view, kT, 100, true, clean_exit);
    w->mons.push_back(m);
    int a = mc::threads();
    m->CatchSignals();
    w->running = true;
    w->began = now();
    w->t = new std::thread([m] { w->monids.insert(mc::self_id()); m->Run(); w->running = false; });
    ms(1);
    for (int i = a; i < mc::threads(); ++i) w->monids.insert(i);
}
void gone_note()
{
    if (fakeshm::exists(mng())) { if (w->seen_since < 0) w->seen_since = now(); w->gone_at = -1; }
    else { if (w->gone_at < 0) w->gone_at = now(); w->seen_since = -1; }
    if (w->seen_since >= 0 && now() - w->seen_since > kWatch) w->ever_seen = true;
}
void judge()
{
    mc::Quiet q;
    gone_note();
    bool any = false;
    for (auto& d : w->d) any |= d.alive;
    if (any) {
        MC_CHECK(fakeshm::exists(mng()) && fakeshm::exists("fmq_" + shmid(kSession) + "_m_0"), "%s: memory of a running device is gone at %ld ms", w->ops.c_str(), long(now()));
        if (w->self && !w->ending) MC_CHECK(w->running || !w->ever_seen || w->gone_at >= 0 || w->unlinks, "%s: the monitor ended although the session is in use", w->ops.c_str());
    } else if (fakeshm::exists(mng()) && w->running && w->destructive) {
        MC_CHECK(now() - std::max(last(), w->began) <= kT + kPoll + 2 * kWatch, "%s: the session is still there at %ld ms, its last heartbeat was at %ld ms, timeout %ld ms", w->ops.c_str(), long(now()), long(last()), long(kT));
    }
}
void pause_for(int64_t n)
{
    w->ops += " " + std::to_string(n) + "ms";
    int64_t end = now() + n;
    while (now() < end) { ms(int(std::min<int64_t>(50, end - now()))); judge(); }
}
void start(int i)
{
    w->ops += " start" + std::to_string(i);
    auto& d = w->d[i];
    d.from = mc::threads();
    d.f = tr::dev("d" + std::to_string(i), kSession);
    d.start = now();
    d.alive = true;
    ms(1);                                  // the first heartbeat
    if (i == 1) {
        RegionConfig c;
        c.rcSegmentSize = 0;
        c.linger = 10;
        d.r = d.f->CreateUnmanagedRegion(4096, RegionCallback(nullptr), c);
    }
    d.to = mc::threads();
}
void ended(int i)
{
    auto& d = w->d[i];
    w->lastbeat = last();
    d.alive = false;
}
void stop(int i)
{
    w->ops += " stop" + std::to_string(i);
    ended(i);
    w->d[i].r.reset();
    w->d[i].f.reset();
}
void die(int i)
{
    w->ops += " die" + std::to_string(i);
    ended(i);
    auto& d = w->d[i];
    std::vector<int> keep;
    {
        mc::Quiet q;
        for (int k = d.from; k < d.to; ++k) w->dead.push_back(k);
        for (int k = 0; k < mc::threads(); ++k) if (std::find(w->dead.begin(), w->dead.end(), k) == w->dead.end()) keep.push_back(k);
        new Fac(std::move(d.f));
        new UnmanagedRegionPtr(std::move(d.r));
        d.f = nullptr;
        d.r = nullptr;
    }
    mc::freeze_others(keep);
}
void cleanup()
{
    w->ops += " cleanup";
    Monitor::Cleanup(SessionId{kSession});
}
void terminate()
{
    w->ops += " SIGTERM";
    w->ending = true;
    bool was = w->running;
    int64_t t0 = now();
    raise(SIGTERM);
    w->t->join();
    MC_CHECK(!was || now() - t0 <= 100 + kPoll + kWatch, "%s: the monitor ended %ld ms after the signal", w->ops.c_str(), long(now() - t0));
    std::set<std::string> before = fakeshm::objects();
    {
        mc::Quiet q;
        w->monids.insert(mc::self_id());
    }
    w->mons.clear();
    mc::Quiet q;
    w->monids.erase(mc::self_id());
    MC_CHECK(!fakeshm::exists("sem.fmq_" + shmid(kSession) + "_ms"), "%s: the monitor left its lock behind", w->ops.c_str());
    if (w->clean_exit) for (auto& o : fakeshm::objects()) MC_CHECK(false, "%s: %s left by a monitor that cleans up on exit", w->ops.c_str(), o.c_str());
}
void finish()           // whatever is left is removed by the monitor
{
    w->ops += " end";
    for (int i = 0; i < 2; ++i) if (w->d[i].alive) die(i);
    if (w->running && w->destructive) {
        pause_for(kT + kPoll + 2 * kWatch + 60);
        mc::Quiet q;
        for (auto& o : fakeshm::objects()) MC_CHECK(o.find("_ms") != std::string::npos, "%s: object %s was left behind", w->ops.c_str(), o.c_str());
    }
    terminate();
    mc::outcome(w->ops + (w->unlinks ? "*" : ""));
    mc::trace_validated();
}
struct Setup
{
    World world;
    Setup() { clean(); mc::set_tick(0); w = &world; fakeshm::hook = unlinking; }
    ~Setup() { w = nullptr; }
};

// one device, started again and again
void histories(int depth, bool self)
{
    auto* s = new Setup;
    (void)s;
    bool before = mc::flag("device before the monitor");
    if (before) { start(0); ms(30); }
    watch(self, false, false);
    static const int gaps[] = {13, 117, 283, 913, 983, 1057};
    if (self && !before && mc::flag("nobody")) depth = 0;
    for (int k = 0; k < depth; ++k) {
        pause_for(gaps[mc::choose(6, "gap")]);
        if (!w->running) break;
        mc::transition();
        auto& d = w->d[0];
        if (d.alive) { if (mc::flag("die")) die(0); else stop(0); }
        else if (fakeshm::exists(mng()) ? mc::flag("cleanup") : false) { cleanup(); start(0); }
        else start(0);
    }
    if (self) {
        // it ends once the session is gone, if it has seen any; else after twice the timeout
        for (int i = 0; i < 2; ++i) if (w->d[i].alive) die(i);
        w->ops += " wait";
        int64_t limit = std::max(last() + kT, w->began + 2 * kT) + kPoll + 3 * kWatch;
        bool none = last() < 0;
        while (w->running && now() <= limit) { ms(50); judge(); }
        MC_CHECK(!w->running, "%s: the monitor did not end by itself", w->ops.c_str());
        if (none) MC_CHECK(now() - w->began >= 2 * kT, "%s: the monitor ended %ld ms after its start without having seen a session", w->ops.c_str(), long(now() - w->began));
    }
    finish();
}
// two devices of the session
void two(int depth)
{
    new Setup;
    watch(false, false, false);
    static const int gaps[] = {57, 283, 917, 1057};
    for (int k = 0; k < depth; ++k) {
        mc::transition();
        int i = k == 0 ? 0 : mc::choose(2, "device");
        if (!w->d[i].alive) start(i);
        else if (mc::flag("die")) die(i);
        else stop(i);
        pause_for(gaps[mc::choose(4, "gap")]);
    }
    finish();
}
// modes: only looking, cleaning up on exit, a second monitor; ended at any time
void modes()
{
    new Setup;
    int mode = mc::choose(4, "mode");           // 0 plain, 1 view only, 2 clean on exit, 3 second monitor
    int life = mc::choose(4, "device");         // 0 none, 1 running, 2 dead, 3 dead before the monitor
    if (life == 3) { start(1); ms(30); die(1); ms(20); }
    if (life == 1 || life == 2) start(1);
    if (life == 2) ms(10);
    watch(false, mode == 1, mode == 2);
    if (life == 2) { pause_for(213); die(1); }
    if (mode == 3) {
        bool thrown = false;
        auto before = fakeshm::objects();
        try { Monitor m(shmid(kSession), false, false, false, kT, 100, true, true); } catch (Monitor::DaemonPresent&) { thrown = true; }
        MC_CHECK(thrown, "a second monitor of the session could be started");
        MC_CHECK(fakeshm::objects() == before, "the second monitor changed shared memory");
        { Monitor v(shmid(kSession), false, false, true, kT, 100, false, false); }  // looking is allowed
        MC_CHECK(fakeshm::objects() == before, "a monitor that only looks changed shared memory");
        Monitor o(shmid("another"), false, false, false, kT, 100, true, false);     // and other sessions
    }
    pause_for(17 + 100 * mc::choose(14, "time of the signal"));
    if (mode == 2) for (int i = 0; i < 2; ++i) if (w->d[i].alive) ended(i);         // documented: whatever is there is removed
    auto before = fakeshm::objects();
    terminate();
    if (mode != 2) {
        before.erase("sem.fmq_" + shmid(kSession) + "_ms");
        if (life == 1 || mode == 1) MC_CHECK(fakeshm::objects() == before, "%s: the end of the monitor changed shared memory", w->ops.c_str());
    }
    for (auto& d : w->d) if (d.alive) { stop(1); MC_CHECK(fakeshm::objects().empty(), "%s: objects are left", w->ops.c_str()); }
    if (w->d[1].f) { w->d[1].r.reset(); w->d[1].f.reset(); }
    // and it can be started again
    Monitor again(shmid(kSession), false, false, false, kT, 100, true, false);
    mc::outcome(std::to_string(mode) + std::to_string(life) + (w->unlinks ? "*" : ""));
    mc::trace_validated();
}
}   // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Scenario> v;
    mc::Opts o;
    o.preemptions = 0;
    o.preemptions_thorough = 0;
    o.early_timeouts = false;
    o.delays = true;
    o.sched_atomics = false;
    o.max_steps = 400000;
    o.max_time_jumps = 10000;
    o.fork_each = true;
    o.leak_threads_ok = true;
    mc::Opts h = o;
    h.weight = 4;
    v.push_back({"histories", "one device that is started, stopped, dies and is started again on top of its remains or after a cleanup, at times around the polling intervals and the timeout", [] { histories(mc::thorough() ? 5 : 4, false); }, h});
    v.push_back({"two_devices", "two devices, one with a region, that come and go or die", [] { two(mc::thorough() ? 5 : 4); }, o});
    v.push_back({"self_destruct", "same as histories with a monitor that ends with the session", [] { histories(mc::thorough() ? 3 : 2, true); }, o});
    v.push_back({"modes", "monitors that only look, clean up on exit, or are the second one, ended by a signal at any time", modes, o});
    return mc::run(argc, argv, v);
}
