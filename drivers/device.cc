// C09: hooks of fair::mq::Device
#define DEVICE_MAIN
#include "device.h"
#include <fairmq/tools/Network.h>
#include <algorithm>
#include <atomic>
#include <stdexcept>
using namespace dv;

namespace {
struct NotStd { int i; };
const std::vector<Hook>& hooksOf(S s)
{
    static const std::map<S, std::vector<Hook>> m{
        {S::InitializingDevice, {INIT}}, {S::Binding, {BIND}}, {S::Connecting, {CONNECT}}, {S::InitializingTask, {INITTASK}},
        {S::Running, {PRERUN, COND, RUN, POSTRUN}}, {S::ResettingTask, {RESETTASK}}, {S::ResettingDevice, {RESET}}};
    static const std::vector<Hook> none;
    auto i = m.find(s);
    return i == m.end() ? none : i->second;
}
struct Arrow { S from; T t; S to; };
const Arrow DIAGRAM[] = {
    {S::Idle, T::InitDevice, S::InitializingDevice}, {S::Idle, T::End, S::Exiting}, {S::InitializingDevice, T::CompleteInit, S::Initialized},
    {S::Initialized, T::Bind, S::Binding}, {S::Initialized, T::ResetDevice, S::ResettingDevice}, {S::Binding, T::Auto, S::Bound},
    {S::Bound, T::Connect, S::Connecting}, {S::Bound, T::ResetDevice, S::ResettingDevice}, {S::Connecting, T::Auto, S::DeviceReady},
    {S::DeviceReady, T::InitTask, S::InitializingTask}, {S::DeviceReady, T::ResetDevice, S::ResettingDevice}, {S::InitializingTask, T::Auto, S::Ready},
    {S::Ready, T::Run, S::Running}, {S::Ready, T::ResetTask, S::ResettingTask}, {S::Running, T::Stop, S::Ready},
    {S::ResettingTask, T::Auto, S::DeviceReady}, {S::ResettingDevice, T::Auto, S::Idle},
};
bool arrow(S a, S b) { if (b == S::Error) return true; for (auto& x : DIAGRAM) if (x.from == a && x.to == b) return true; return false; }

// The order of hooks and states, checked as they happen.
struct Order
{
    S cur = S::Undefined;
    size_t pos = 0;               // hooks of cur called so far (ConditionalRun counts once)
    bool threw = false, ended = false;
    int conds = 0;
    std::string log;
    void state(S s)
    {
        mc::Quiet q;
        log += " [" + name(s) + "]";
        mc::transition();
        MC_CHECK(!ended, "state %s entered after the end:%s", name(s).c_str(), log.c_str());
        if (threw) MC_CHECK(s == S::Error, "a hook threw, but state %s was entered:%s", name(s).c_str(), log.c_str());
        else if (cur != S::Undefined) {
            MC_CHECK(arrow(cur, s), "%s entered from %s:%s", name(s).c_str(), name(cur).c_str(), log.c_str());
            auto& h = hooksOf(cur);
            size_t p = pos;
            MC_CHECK(p == h.size(), "%s was left before its hook %s was called:%s", name(cur).c_str(), kHook[h[p]], log.c_str());
        } else MC_CHECK(s == S::Idle, "first state is %s", name(s).c_str());
        cur = s; pos = 0; conds = 0;
        if (s == S::Error || s == S::Exiting) ended = true;
    }
    void hook(Hook h)
    {
        mc::Quiet q;
        log += std::string(" ") + kHook[h];
        MC_CHECK(!threw, "hook %s called after a hook threw:%s", kHook[h], log.c_str());
        auto& v = hooksOf(cur);
        size_t p = pos;
        if (h == COND) {
            MC_CHECK(p < v.size() && v[p] == COND, "hook %s called in %s out of order:%s", kHook[h], name(cur).c_str(), log.c_str());
            ++conds;
            return;
        }
        if (p < v.size() && v[p] == COND) ++p;
        MC_CHECK(p < v.size() && v[p] == h, "hook %s called in %s out of order or twice:%s", kHook[h], name(cur).c_str(), log.c_str());
        pos = p + 1;
    }
};

#ifdef SEQ
// ---- one thread: every walk through the states, hooks that fail or make requests ----------------------
enum Act { FINE, THROW, THROW_OTHER, ERROR_REQ, ERROR_THROW, STOP_REQ, NACTS };
void walk(int depth, int specials, bool channels)
{
    clean();
    auto o = options();
    if (channels) {
        add(*o, {"in", "pull", "bind", "tcp://127.0.0.1:5000", ""});
        add(*o, {"out", "push", "connect", "tcp://127.0.0.1:5001", ""});
    }
    {
        Order ord;
        Dev d(*o);
        int left = depth, sp = specials;
        bool failed = false, errorRequested = false, requested = false;     // in this state
        bool condOver = false;
        auto request = [&](T t) { bool ok = d.ChangeState(t); if (ok) { requested = true; if (t == T::ErrorFound) errorRequested = true; } return ok; };
        d.SubscribeToStateChange("driver", [&](S s) {
            ord.state(s);
            MC_CHECK(!errorRequested || s == S::Error, "an error was requested, but %s was entered:%s", name(s).c_str(), ord.log.c_str());
            requested = condOver = false;
            std::vector<T> c;
            for (auto& a : DIAGRAM) if (a.from == s && a.t != T::Auto) c.push_back(a.t);
            if (s == S::Running || c.empty()) return;
            T t;
            if (left > 0) { --left; t = c[mc::choose(int(c.size()), "transition")]; }
            else t = s == S::InitializingDevice ? T::CompleteInit : s == S::Idle ? T::End : s == S::Ready ? T::ResetTask : T::ResetDevice;   // go home
            MC_CHECK(request(t), "%s refused in %s:%s", name(t).c_str(), name(s).c_str(), ord.log.c_str());
        });
        auto act = [&](Hook h) {
            int n = sp > 0 ? (h == PRERUN || h == COND || h == RUN || h == POSTRUN ? NACTS : STOP_REQ) : 1;
            int a = mc::choose(n, kHook[h]);
            if (a != FINE) --sp;
            switch (a) {
                case THROW: failed = true; ord.threw = true; throw std::runtime_error("hook failed");
                case THROW_OTHER: failed = true; ord.threw = true; throw NotStd{1};
                case ERROR_REQ: MC_CHECK(request(T::ErrorFound) || errorRequested, "error request refused:%s", ord.log.c_str()); break;
                case ERROR_THROW: (void)request(T::ErrorFound); failed = true; ord.threw = true; throw std::runtime_error("hook failed");
                case STOP_REQ: (void)request(T::Stop); break;
                default: break;
            }
        };
        d.on = [&](Hook h) {
            if (h == COND) {
                MC_CHECK(!requested, "ConditionalRun called although a transition is requested:%s", ord.log.c_str());
                MC_CHECK(!condOver, "ConditionalRun called after it returned false:%s", ord.log.c_str());
            }
            if (h == RUN) MC_CHECK(requested || condOver, "ConditionalRun returned true, but is not called again:%s", ord.log.c_str());
            ord.hook(h);
            act(h);
        };
        d.cond = [&] { bool more = ord.conds < 3 && mc::flag("ConditionalRun again"); condOver = !more; return more; };
        bool threw = false;
        try { d.RunStateMachine(); } catch (NotStd&) { threw = true; } catch (std::exception&) { threw = true; }
        MC_CHECK(ord.ended, "the state machine ended in %s:%s", name(ord.cur).c_str(), ord.log.c_str());
        MC_CHECK(threw == (failed || errorRequested), "run of the state machine %s, but %s:%s", threw ? "ended with an exception" : "ended without exception", failed ? "a hook threw" : errorRequested ? "an error was requested" : "nothing failed", ord.log.c_str());
        S want = failed || errorRequested ? S::Error : S::Exiting;
        MC_CHECK(ord.cur == want && d.GetCurrentState() == want, "device ended in %s, expected %s:%s", name(d.GetCurrentState()).c_str(), name(want).c_str(), ord.log.c_str());
        mc::outcome(ord.log);
    }
}
#else
// ---- requests from other threads at any moment --------------------------------------------------------
// The machine's own thread asks for the next state wherever the driver does not want to (manual), so that
// the threads of a scenario are concurrent only where it matters.
struct Machine
{
    std::unique_ptr<ProgOptions> o;
    Order ord;
    Track track;
    std::unique_ptr<Dev> d;
    std::thread t;
    bool threw = false, homewards = false, norun = false, errors = false;
    std::function<bool(S)> manual;
    explicit Machine(std::unique_ptr<ProgOptions> opts) : o(std::move(opts))
    {
        d = std::make_unique<Dev>(*o);
        d->SubscribeToStateChange("driver", [this](S s) {
            ord.state(s);
            if (!manual || !manual(s)) drive(s);
            track.push(s);
        });
        d->on = [this](Hook h) { ord.hook(h); };
    }
    void start() { t = std::thread([this] { try { d->RunStateMachine(); } catch (std::exception&) { threw = true; } }); }
    bool request(T t) { return d->ChangeState(t); }
    T next(S s)
    {
        if (s == S::Running) homewards = true;
        switch (s) {
            case S::Idle: return homewards ? T::End : T::InitDevice;
            case S::InitializingDevice: return T::CompleteInit;
            case S::Initialized: return T::Bind;
            case S::Bound: return T::Connect;
            case S::DeviceReady: return homewards ? T::ResetDevice : T::InitTask;
            case S::Ready: if (norun) homewards = true; return homewards ? T::ResetTask : T::Run;
            default: return T::Auto;
        }
    }
    void drive(S s)
    {
        T t = next(s);
        if (t != T::Auto) MC_CHECK(request(t) || errors, "%s refused:%s", name(t).c_str(), ord.log.c_str());
    }
    void fine()
    {
        t.join();
        MC_CHECK(!threw && d->GetCurrentState() == S::Exiting, "device ended in %s%s:%s", name(d->GetCurrentState()).c_str(), threw ? " with an error" : "", ord.log.c_str());
    }
    void error()
    {
        MC_CHECK(threw, "an error was requested, but the run of the state machine ended without one:%s", ord.log.c_str());
        MC_CHECK(d->GetCurrentState() == S::Error, "device is in %s:%s", name(d->GetCurrentState()).c_str(), ord.log.c_str());
    }
};
// somebody asks for Stop while the run may be ending by itself
void stop_race(bool endless)
{
    clean();
    Machine m(options());
    int begun = 0;
    bool asked = false;
    m.d->on = [&](Hook h) {
        m.ord.hook(h);
        mc::Quiet q;
        if (h == COND && asked) MC_CHECK(++begun <= 1, "ConditionalRun goes on after a transition was requested:%s", m.ord.log.c_str());
    };
    m.d->cond = [&] { return endless; };
    m.start();
    m.track.until(S::Running);
    bool ok = m.request(T::Stop);
    { mc::Quiet q; asked = ok; }
    MC_CHECK(ok || !endless, "Stop refused although the device runs:%s", m.ord.log.c_str());
    m.fine();
    mc::outcome(ok ? "stopped" : "ended");
}
// two parties ask for Stop
void two_stops()
{
    clean();
    Machine m(options());
    m.d->cond = [&] { return true; };
    m.start();
    m.track.until(S::Running);
    bool a = false, b = false;
    std::thread x([&] { a = m.request(T::Stop); });
    b = m.request(T::Stop);
    x.join();
    MC_CHECK(a != b, "Stop accepted %d times:%s", a + b, m.ord.log.c_str());
    m.fine();
}
// Auto is a transition anybody may ask for
void auto_race(S at)
{
    clean();
    Machine m(options());
    m.norun = true;
    m.start();
    m.track.until(at);
    bool got = m.request(T::Auto);
    m.fine();
    mc::outcome(std::to_string(got));
}
// an error is reported by somebody else while the device is in state `at`
void error_race(S at, Hook failing)
{
    clean();
    Machine m(options());
    bool failed = false;
    m.errors = true;
    m.d->on = [&](Hook h) {
        m.ord.hook(h);
        if (h == failing) { failed = m.ord.threw = true; throw std::runtime_error("hook failed"); }
    };
    m.start();
    m.track.until(at);
    bool e = m.request(T::ErrorFound);
    m.t.join();
    if (m.ord.cur == S::Exiting && !failed && !m.threw) { mc::outcome("too late"); return; }     // the machine may have come to its end before
    MC_CHECK(e || failed, "error request refused:%s", m.ord.log.c_str());
    m.error();
    mc::outcome(m.ord.log);
}
// a run that waits in a transfer; asked to stop at any moment
void blocked(int how, const std::string& transport)
{
    clean();
    auto o = options();
    add(*o, {"in", how == 2 ? "push" : "pull", "bind", "tcp://127.0.0.1:5000", transport});
    Machine m(std::move(o));
    m.d->on = [&](Hook h) {
        m.ord.hook(h);
        if (h == RUN || (h == COND && how == 1)) {
            auto msg = m.d->NewMessageFor("in", 0);
            int64_t r = how == 2 ? m.d->Send(msg, "in") : m.d->Receive(msg, "in");
            MC_CHECK(r < 0, "a transfer without peer returned %ld", long(r));
        }
    };
    m.d->cond = [&] { return how == 1; };
    m.start();
    m.track.until(S::Ready);
    bool ok = m.request(T::Stop);           // while the device is about to run
    if (!ok) {
        MC_CHECK(m.track.until(S::Running), "device failed:%s", m.ord.log.c_str());
        MC_CHECK(m.request(T::Stop), "Stop refused although the device runs:%s", m.ord.log.c_str());
    }
    m.fine();
    mc::outcome(ok ? "early" : "late");
}
// a hook that waits in a transfer; an error is reported by somebody else at any moment
void blocked_error(S at, Hook h, const std::string& transport)
{
    clean();
    auto o = options();
    add(*o, {"in", "pull", "bind", "tcp://127.0.0.1:5000", transport});
    Machine m(std::move(o));
    m.errors = true;
    m.d->on = [&](Hook x) {
        m.ord.hook(x);
        if (x != h) return;
        auto msg = m.d->NewMessageFor("in", 0);
        int64_t r = m.d->Receive(msg, "in");
        MC_CHECK(r < 0, "a transfer without peer returned %ld", long(r));
    };
    m.start();
    m.track.until(at);
    MC_CHECK(m.request(T::ErrorFound), "error request refused:%s", m.ord.log.c_str());
    m.t.join();
    m.error();
    mc::outcome(m.ord.log);
}
#endif
}   // namespace

int main(int argc, char** argv)
{
    using mc::Opts;
    using mc::Scenario;
    std::vector<Scenario> v;
#ifdef SEQ
    auto seq = [&](std::string n, std::string w, std::function<void()> b, double weight, Opts o = {}) { o.preemptions = o.preemptions_thorough = 0; o.in_main = true; o.weight = weight; v.push_back({n, w, b, o}); };
    seq("walks", "every walk of up to 12 chosen transitions through the states, no hook fails, with channels", [] { walk(mc::thorough() ? 14 : 12, 0, true); }, 1);
    seq("failing", "one hook of the walk fails, requests an error or the end of the run; every walk of up to 10 chosen transitions", [] { walk(mc::thorough() ? 12 : 10, 1, false); }, 3);
    seq("failing_twice", "two hooks of the walk do so", [] { walk(mc::thorough() ? 10 : 8, 2, false); }, 2);
#else
    auto sch = [&](std::string n, std::string w, std::function<void()> b, double weight, Opts o = {}) { o.preemptions = 2; o.preemptions_thorough = 3; o.weight = weight; o.races = o.freecheck = true; v.push_back({n, w, b, o}); };
    sch("blocked_receive", "Run waits for a message forever; Stop at any moment", [] { blocked(0, "zeromq"); }, 3);
    sch("blocked_send", "Run waits for a peer forever; Stop at any moment", [] { blocked(2, "zeromq"); }, 2);
    sch("blocked_cond", "ConditionalRun waits for a message, Stop at any moment", [] { blocked(1, "zeromq"); }, 2);
    sch("blocked_shmem", "the same with shared memory", [] { blocked(0, "shmem"); }, 2);
    static const std::vector<std::pair<S, Hook>> hooks{{S::Connecting, CONNECT}, {S::InitializingTask, INITTASK}, {S::ResettingTask, RESETTASK}};
    for (auto& h : hooks) {
        std::string n = name(h.first);
        std::replace(n.begin(), n.end(), ' ', '_');
        sch("blocked_" + n, "a hook waits for a message forever; an error is reported at any moment", [h] { blocked_error(h.first, h.second, "zeromq"); }, 0.5);
        sch("blocked_" + n + "_shmem", "the same with shared memory, which is not the device's own transport", [h] { blocked_error(h.first, h.second, "shmem"); }, 0.3);
    }
    sch("stop_race", "Stop is requested while the run may end by itself", [] { stop_race(false); }, 3);
    sch("stop_endless", "Stop is requested while the conditional run goes on", [] { stop_race(true); }, 2);
    sch("two_stops", "two parties request Stop", [] { two_stops(); }, 2);
    auto nm = [](S s) { auto n = name(s); std::replace(n.begin(), n.end(), ' ', '_'); return n; };
    for (S s : {S::Binding, S::Connecting, S::InitializingTask, S::ResettingTask, S::ResettingDevice}) sch("auto_" + nm(s), "somebody else asks for the next state while the device is busy", [s] { auto_race(s); }, 0.5);
    static const std::vector<std::pair<S, Hook>> st{{S::Idle, INIT}, {S::InitializingDevice, INIT}, {S::Initialized, BIND}, {S::Binding, BIND}, {S::Connecting, CONNECT}, {S::InitializingTask, INITTASK}, {S::Running, PRERUN}, {S::Running, RUN}, {S::Running, POSTRUN}, {S::ResettingTask, RESETTASK}, {S::ResettingDevice, RESET}};
    for (auto& s : st) {
        if (s.second != RUN && s.second != POSTRUN) sch("error_" + nm(s.first), "another thread reports an error while the device passes through a state", [s] { error_race(s.first, NHOOKS); }, 0.5);
        sch("error_" + nm(s.first) + "_" + kHook[s.second] + "_fails", "the same while a hook fails", [s] { error_race(s.first, s.second); }, 0.5);
    }
#endif
    return mc::run(argc, argv, v);
}
