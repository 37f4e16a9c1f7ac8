// C08: the built-in controller brings the device to its end
#define DEVICE_MAIN
#include "device.h"
#include <boost/regex.hpp>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fairmq/Plugin.h>
#include <fairmq/PluginServices.h>
#include <fairmq/StateQueue.h>
#include <fairmq/Version.h>
#include <fairmq/tools/IO.h>
#include <iostream>
#include <poll.h>
// the plugin keeps the number of signals received in variables of its own: give them back their
// initial values before each execution
#pragma clang section bss = "plugin_bss" data = "plugin_data"
namespace { __attribute__((used)) char plugin_bss_there = 0; __attribute__((used)) char plugin_data_there = 1; }
#include <fairmq/plugins/control/Control.cxx>
#pragma clang section bss = "" data = ""
extern "C" char __start_plugin_bss, __stop_plugin_bss, __start_plugin_data, __stop_plugin_data;
using namespace dv;

// the terminal: the keys typed so far that nobody has read
namespace keys {
std::string typed;
bool closed = false;
bool watched = false;      // the terminal belongs to the scenario
bool interrupted = false;  // a signal handler has run in the thread that polls
void interrupt() { mc::Quiet q; interrupted = true; }
void type(const std::string& s) { mc::Quiet q; typed += s; }
bool ready() { return closed || !typed.empty(); }
// std::cin reads whatever there is at once, as the C library does
struct Buf : std::streambuf
{
    char b[256];
    int_type underflow() override
    {
        mc::block_until([] { return ready(); }, -1, "reading stdin");
        mc::Quiet q;
        if (typed.empty()) return traits_type::eof();
        size_t n = std::min(typed.size(), sizeof b);
        memcpy(b, typed.data(), n);
        typed.erase(0, n);
        setg(b, b, b + n);
        return traits_type::to_int_type(b[0]);
    }
    void clear() { setg(b, b, b); }
} buf;
void reset(bool w)
{
    mc::Quiet q;
    static std::streambuf* silent = [] { static struct : std::streambuf { int_type overflow(int_type c) override { return traits_type::not_eof(c); } } n; std::cout.rdbuf(&n); return &n; }();
    (void)silent;
    typed.clear();
    closed = interrupted = false;
    watched = w;
    buf.clear();
    std::cin.rdbuf(&buf);
    std::cin.clear();
}
}   // namespace keys
extern "C" int poll(struct pollfd* f, nfds_t n, int timeout)
{
    static auto* real = reinterpret_cast<int (*)(struct pollfd*, nfds_t, int)>(dlsym(RTLD_NEXT, "poll"));
    if (!keys::watched || n != 1 || f->fd > 0) return real(f, n, timeout);
    bool on = f->fd == 0 && (f->events & POLLIN);
    f->revents = 0;
    { mc::Quiet q; keys::interrupted = false; }
    if (!(on && keys::ready()) && timeout) mc::block_until([&] { return (on && keys::ready()) || keys::interrupted; }, timeout < 0 ? -1 : mc::now_ns() + int64_t(timeout) * 1000000, "polling stdin");
    mc::Quiet q;
    if (!(on && keys::ready()) && keys::interrupted) { errno = EINTR; return -1; }
    if (!on || !keys::ready()) return 0;
    f->revents = (keys::typed.empty() ? 0 : POLLIN) | (keys::closed ? POLLHUP : 0);
    return 1;
}
extern "C" ssize_t read(int fd, void* b, size_t n)
{
    static auto* real = reinterpret_cast<ssize_t (*)(int, void*, size_t)>(dlsym(RTLD_NEXT, "read"));
    if (!keys::watched || fd != 0) return real(fd, b, n);
    mc::block_until([] { return keys::ready(); }, -1, "reading stdin");
    mc::Quiet q;
    n = std::min(n, keys::typed.size());
    memcpy(b, keys::typed.data(), n);
    keys::typed.erase(0, n);
    return n;
}

namespace {
void forget()
{
    mc::Quiet q;
    static const std::string data(&__start_plugin_data, &__stop_plugin_data);
    memcpy(&__start_plugin_data, data.data(), data.size());
    memset(&__start_plugin_bss, 0, &__stop_plugin_bss - &__start_plugin_bss);
    signal(SIGTERM, SIG_DFL);
    signal(SIGINT, SIG_DFL);
}
constexpr int kMs = 1000000;
// what may follow what
bool follows(S a, S b)
{
    if (b == S::Error) return a != S::Error;
    switch (a) {
        case S::Idle: return b == S::InitializingDevice || b == S::Exiting;
        case S::InitializingDevice: return b == S::Initialized;
        case S::Initialized: return b == S::Binding || b == S::ResettingDevice;
        case S::Binding: return b == S::Bound;
        case S::Bound: return b == S::Connecting || b == S::ResettingDevice;
        case S::Connecting: return b == S::DeviceReady;
        case S::DeviceReady: return b == S::InitializingTask || b == S::ResettingDevice;
        case S::InitializingTask: return b == S::Ready;
        case S::Ready: return b == S::Running || b == S::ResettingTask;
        case S::Running: return b == S::Ready;
        case S::ResettingTask: return b == S::DeviceReady;
        case S::ResettingDevice: return b == S::Idle;
        default: return false;
    }
}
const std::vector<S> kWhole{S::Idle, S::InitializingDevice, S::Initialized, S::Binding, S::Bound, S::Connecting, S::DeviceReady, S::InitializingTask, S::Ready, S::Running, S::Ready, S::ResettingTask, S::DeviceReady, S::ResettingDevice, S::Idle, S::Exiting};

struct Plan
{
    const char* mode = "static";
    bool catching = true;
    int hookms = 0;              // how long each hook takes
    bool endless = false;        // Run goes on until it is asked to stop
    Hook fails = NHOOKS;         // this hook throws
    int signals = 0;             // SIGTERMs sent
    int signo = SIGTERM;
    int offset = -1;             // virtual time (ms) of the first signal, -1: as scheduled
    bool error = false;          // another thread reports an error
    int erroroffset = -1;
    bool other = false;          // another party holds control from the start and drives the device
};
std::string text(const std::vector<S>& v) { std::string s; for (S x : v) s += " " + name(x); return s; }

void life(Plan p)
{
    clean();
    forget();
    auto o = options();
    o->SetProperty<std::string>("control", p.mode);
    o->SetProperty<int>("catch-signals", p.catching ? 1 : 0);
    Track track;
    bool threw = false;
    std::string who;
    // a process has one device; its signal handlers stay
    {
        auto d = std::make_unique<Dev>(*o);
        PluginServices ps(*o, *d);
        d->on = [&](Hook h) {
            if (p.hookms) std::this_thread::sleep_for(std::chrono::milliseconds(p.hookms));
            if (h == RUN && p.endless) while (!d->NewStatePending()) d->WaitFor(std::chrono::milliseconds(1000));
            if (h == p.fails) throw std::runtime_error("hook failed");
        };
        d->SubscribeToStateChange("driver", [&](S s) { track.push(s); });
        std::thread killer, reporter, driver;
        std::unique_ptr<fair::mq::plugins::Control> c;
        if (p.other) {
            ps.TakeDeviceControl("other");
            d->SubscribeToStateChange("other", [&](S s) {
                static const std::map<S, T> go{{S::Idle, T::InitDevice}, {S::InitializingDevice, T::CompleteInit}, {S::Initialized, T::Bind}, {S::Bound, T::Connect}, {S::DeviceReady, T::InitTask}};
                auto i = go.find(s);
                T t = i != go.end() ? i->second : T::Auto;
                if (s == S::Ready) t = T::Run;
                if (t != T::Auto) try { ps.ChangeDeviceState("other", t); } catch (PluginServices::DeviceControlError&) { mc::Quiet q; who = "stolen"; }
                if (s == S::Exiting || s == S::Error) ps.ReleaseDeviceControl("other");
            });
        }
        c = std::make_unique<fair::mq::plugins::Control>("control", Plugin::Version{1, 0, 0}, "m", "h", &ps);
        bool sent = false;
        if (p.signals) killer = std::thread([&] {
            if (p.offset >= 0) std::this_thread::sleep_for(std::chrono::milliseconds(p.offset));
            for (int i = 0; i < p.signals; ++i) { std::raise(p.signo); sent = true; }
        });
        if (p.error) reporter = std::thread([&] {
            if (p.erroroffset >= 0) std::this_thread::sleep_for(std::chrono::milliseconds(p.erroroffset));
            d->ChangeState(T::ErrorFound);
        });
        // what DeviceRunner does
        try {
            d->RunStateMachine();
        } catch (std::exception&) {
            threw = true;
        }
        if (!threw) ps.WaitForReleaseDeviceControl();
        c.reset();
        if (killer.joinable()) killer.join();
        if (reporter.joinable()) reporter.join();
        mc::Quiet q;
        std::string log = text(track.seen);
        MC_CHECK(!track.seen.empty() && track.seen[0] == S::Idle, "visited:%s", log.c_str());
        for (size_t i = 1; i < track.seen.size(); ++i) MC_CHECK(follows(track.seen[i - 1], track.seen[i]), "visited:%s", log.c_str());
        S last = track.seen.back();
        bool mayFail = p.fails != NHOOKS || p.error;
        MC_CHECK(threw == (last == S::Error), "%s:%s", threw ? "an exception ended the run" : "no exception", log.c_str());
        MC_CHECK(last == S::Exiting || (mayFail && last == S::Error), "visited:%s", log.c_str());
        if (!mayFail && !p.signals) MC_CHECK(track.seen == kWhole, "the controller did not take the device through its life:%s", log.c_str());
        if (p.fails != NHOOKS && !p.signals && !p.error) MC_CHECK(last == S::Error, "a failed hook led to:%s", log.c_str());
        auto holder = ps.GetDeviceController();
        MC_CHECK(!holder, "%s is still in control:%s", holder->c_str(), log.c_str());
        mc::outcome(log);
        mc::state(mc::hash_bytes(log.data(), log.size()));
        (void)sent;
    }
}
// ------------------------------------------------------------------ the interactive controller
// where a key takes the device (which is settled in a): all states entered
std::vector<S> led(S a, char key)
{
    static const std::map<char, std::vector<S>> go{
        {'i', {S::Idle, S::InitializingDevice, S::Initialized}}, {'b', {S::Initialized, S::Binding, S::Bound}}, {'x', {S::Bound, S::Connecting, S::DeviceReady}},
        {'j', {S::DeviceReady, S::InitializingTask, S::Ready}}, {'r', {S::Ready, S::Running}}, {'s', {S::Running, S::Ready}}, {'t', {S::Ready, S::ResettingTask, S::DeviceReady}}};
    if (key == 'd' && (a == S::Initialized || a == S::Bound || a == S::DeviceReady)) return {S::ResettingDevice, S::Idle};
    auto i = go.find(key);
    if (i == go.end() || i->second[0] != a) return {};
    return {i->second.begin() + 1, i->second.end()};
}
std::vector<S> home(S a)     // the way to the end
{
    std::vector<S> r;
    if (a == S::Running) { r.push_back(S::Ready); a = S::Ready; }
    if (a == S::Ready) { r.push_back(S::ResettingTask); r.push_back(S::DeviceReady); a = S::DeviceReady; }
    if (a == S::InitializingDevice) { r.push_back(S::Initialized); a = S::Initialized; }
    if (a == S::Initialized || a == S::Bound || a == S::DeviceReady) { r.push_back(S::ResettingDevice); r.push_back(S::Idle); }
    r.push_back(S::Exiting);
    return r;
}
enum class End { key, signal, closed, enter, other };
struct Typing
{
    const char* mode = "dynamic";
    std::vector<std::string> bursts;      // typed 250 ms apart
    End end = End::key;
    bool color = false;
    bool exact = true;                    // the device is settled whenever a key is read
    int hookms = 0;
    Hook fails = NHOOKS;                  // this hook throws once keys are typed
};
void typing(Typing p)
{
    clean();
    forget();
    keys::reset(true);
    auto o = options();
    o->SetProperty<std::string>("control", p.mode);
    o->SetProperty<int>("catch-signals", 1);
    o->SetProperty<bool>("color", p.color);
    Track track;
    bool threw = false;
    int64_t told = -1, ended = -1, asked = -1, failed = -1, left = -1;
    std::atomic<bool> typing{false};
    {
        auto d = std::make_unique<Dev>(*o);
        PluginServices ps(*o, *d);
        d->on = [&](Hook h) {
            if (p.hookms) std::this_thread::sleep_for(std::chrono::milliseconds(p.hookms));
            auto fail = [&] { if (h == p.fails && typing) { { mc::Quiet q; failed = mc::now_ns(); } throw std::runtime_error("hook failed"); } };
            if (h == RUN) while (!d->NewStatePending()) { d->WaitFor(std::chrono::milliseconds(p.fails == NHOOKS ? 1000 : 50)); fail(); }
            fail();
        };
        d->SubscribeToStateChange("driver", [&](S s) { track.push(s); });
        auto c = std::make_unique<fair::mq::plugins::Control>("control", Plugin::Version{1, 0, 0}, "m", "h", &ps);
        std::thread typist([&] {
            auto pause = [](int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); };
            track.until(S::Running);
            if (p.exact) pause(50);
            typing = true;
            for (auto& b : p.bursts) { keys::type(b); if (p.exact) pause(250); }
            auto ask = [&] { mc::Quiet q; asked = mc::now_ns(); };
            switch (p.end) {
                case End::key: if (p.exact && mc::flag("stopped and continued")) { keys::interrupt(); pause(250); } ask(); keys::type("q"); break;
                case End::signal: ask(); std::raise(SIGTERM); if (mc::flag("in the polling thread")) keys::interrupt(); break;
                case End::closed: { { mc::Quiet q; keys::closed = true; } pause(250); ask(); std::raise(SIGTERM); break; }
                case End::enter: keys::type("\n"); if (p.exact) pause(250); ask(); std::raise(SIGTERM); break;
                case End::other: { mc::block_until([&] { return track.seen.back() == S::Idle; }, -1, "idle"); if (p.exact) pause(250); ask(); d->ChangeState(T::End); break; }
            }
            mc::Quiet q;
            told = mc::now_ns();
        });
        try { d->RunStateMachine(); } catch (std::exception&) { threw = true; }
        ended = mc::now_ns();
        if (!threw) ps.WaitForReleaseDeviceControl();
        c.reset();
        left = mc::now_ns();
        typist.join();
        mc::Quiet q;
        keys::watched = false;
        auto holder = ps.GetDeviceController();
        std::string log = text(track.seen), w;
        MC_CHECK(!holder, "%s is still in control:%s", holder->c_str(), log.c_str());
    }
    mc::Quiet q;
    std::string log = text(track.seen), what;
    for (auto& b : p.bursts) what += " \"" + b + "\"";
    mc::transition();
    if (p.fails != NHOOKS) {
        MC_CHECK(threw && track.seen.back() == S::Error, "keys%s, %s fails: the device went%s", what.c_str(), kHook[p.fails], log.c_str());
        MC_CHECK(left - failed <= 300 * int64_t(kMs), "keys%s, %s fails: the controller went on for %ld ms", what.c_str(), kHook[p.fails], long((left - failed) / kMs));
    } else MC_CHECK(!threw && track.seen.back() == S::Exiting, "keys%s: the device went%s", what.c_str(), log.c_str());
    for (size_t i = 1; i < track.seen.size(); ++i) MC_CHECK(follows(track.seen[i - 1], track.seen[i]), "visited:%s", log.c_str());
    if (p.exact && p.fails == NHOOKS) {
        std::vector<S> want(kWhole.begin(), kWhole.begin() + 10);
        for (auto& b : p.bursts) for (char k : b) for (S s : led(want.back(), k)) want.push_back(s);
        for (S s : home(want.back())) want.push_back(s);
        MC_CHECK(track.seen == want, "keys%s: the device went%s, not%s", what.c_str(), log.c_str(), text(want).c_str());
        MC_CHECK(ended >= asked, "keys%s: the device ended %ld ms before it was told to", what.c_str(), long((asked - ended) / kMs));
        MC_CHECK(ended - told <= 300 * int64_t(kMs) + 10 * int64_t(p.hookms) * kMs, "keys%s: the device ended %ld ms after it was told to", what.c_str(), long((ended - told) / kMs));
    }
    mc::outcome(log);
    mc::state(mc::hash_str(log));
}
void ended(const char* mode, bool steal, bool catching)
{
    clean();
    forget();
    keys::reset(true);
    auto o = options();
    o->SetProperty<std::string>("control", mode);
    o->SetProperty<int>("catch-signals", catching);
    o->SetProperty<bool>("color", false);
    Track track;
    bool threw = false;
    auto d = std::make_unique<Dev>(*o);
    PluginServices ps(*o, *d);
    d->on = [&](Hook h) { if (h == RUN) while (!d->NewStatePending()) d->WaitFor(std::chrono::milliseconds(1000)); };
    d->SubscribeToStateChange("driver", [&](S s) { track.push(s); });
    auto c = std::make_unique<fair::mq::plugins::Control>("control", Plugin::Version{1, 0, 0}, "m", "h", &ps);
    bool on = false;
    auto go = [&](S s) {
        static const std::map<S, T> way{{S::Running, T::Stop}, {S::Ready, T::ResetTask}, {S::DeviceReady, T::ResetDevice}, {S::Idle, T::End}};
        auto i = way.find(s);
        if (steal && s == S::Exiting) ps.ReleaseDeviceControl("thief");
        if (!on || i == way.end()) return;
        if (!steal) d->ChangeState(i->second);
        else try { ps.ChangeDeviceState("thief", i->second); } catch (PluginServices::DeviceControlError&) {}
    };
    d->SubscribeToStateChange("thief", go);
    std::thread other([&] {
        track.until(S::Running);
        if (steal) ps.StealDeviceControl("thief");
        { mc::Quiet q; on = true; }
        go(S::Running);
    });
    try { d->RunStateMachine(); } catch (std::exception&) { threw = true; }
    if (!threw) ps.WaitForReleaseDeviceControl();
    c.reset();
    other.join();
    mc::Quiet q;
    keys::watched = false;
    auto holder = ps.GetDeviceController();
    std::string log = text(track.seen);
    MC_CHECK(!holder, "%s is still in control:%s", holder->c_str(), log.c_str());
    MC_CHECK(!threw && track.seen == kWhole, "%s, ended by another party: the device went%s", mode, log.c_str());
    mc::transition();
    mc::outcome(mode);
}
}   // namespace

int main(int argc, char** argv)
{
    { boost::regex warm("x"); }   // fills a cache behind a lock, once per process
    using mc::Opts;
    using mc::Scenario;
    std::vector<Scenario> v;
    auto sch = [&](std::string n, std::string w, std::function<void()> b, double weight = 1, int pre = 2) {
        Opts o;
        o.preemptions = pre;
        o.preemptions_thorough = 3;
        o.early_timeouts = false;
        o.races = o.freecheck = true;
        o.sched_atomics = false;
        o.delays = true;
        o.max_steps = 60000;
        o.weight = weight;
        v.push_back({n, w, b, o});
    };
    auto seq = [&](std::string n, std::string w, std::function<void()> b, double weight = 1) {
        sch(n, w, b, weight, 0);
        v.back().opts.preemptions_thorough = 0;
    };
    // keys that lead somewhere, with at most one that does not
    auto walk = [](int n) {
        Typing p;
        S at = S::Running;
        bool wrong = false;
        while (n--) {
            std::string good, bad;
            for (char k : std::string("ibxjrstd")) (led(at, k).empty() ? bad : good) += k;
            int k = mc::choose(good.size() + 1 + (wrong ? 0 : bad.size()), "key");
            if (k == 0) break;
            bool w = k > int(good.size());
            wrong |= w;
            char key = w ? bad[k - 1 - good.size()] : good[k - 1];
            p.bursts.push_back(std::string(1, key));
            for (S s : led(at, key)) at = s;
        }
        return p;
    };
    seq("keys", "every sequence of keys, each typed when the device has settled", [walk] {
        Typing p = walk(mc::thorough() ? 13 : 9);
        p.end = End(mc::choose(2, "end"));
        typing(p);
    }, 4);
    seq("key_bursts", "several keys at once", [walk] {
        Typing p = walk(mc::thorough() ? 5 : 3);
        for (auto& b : p.bursts) switch (mc::choose(5, "with")) {
            case 1: b = "c" + b; break;
            case 2: b = "\n" + b; break;
            case 3: b = b + " \n"; break;
            case 4: b = "h?klnmp" + b; break;
        }
        p.end = End(mc::choose(4, "end"));
        p.color = p.end == End::closed;
        typing(p);
    }, 5);
    sch("key_any", "keys typed at any moment", [] {
        Typing p;
        static const char* kBursts[] = {"s", "st", "std", "stdi", "sq", "r", "srsr", "\n"};
        p.bursts.push_back(kBursts[mc::choose(8, "keys")]);
        p.exact = false;
        p.end = End(mc::choose(4, "end"));
        typing(p);
    }, 5, 1);
    seq("key_fails", "every hook fails while the device is led by keys", [] {
        Typing p;
        p.fails = Hook(mc::choose(NHOOKS, "failing hook"));
        if (p.fails == COND) return;
        p.mode = mc::flag("interactive") ? "interactive" : "dynamic";
        p.bursts = {"s", "t", "d", "i", "b", "x", "j", "r"};
        p.end = mc::flag("signal") ? End::signal : End::key;
        typing(p);
    }, 1);
    seq("key_other", "another party ends the device after some keys", [] {
        Typing p;
        p.mode = mc::flag("mode") ? "dynamic" : "interactive";
        p.bursts = {"s", "t", "d"};
        p.end = End::other;
        typing(p);
    });
    sch("ended", "another party ends the device, having taken control or not", [] {
        static const char* kModes[] = {"static", "dynamic", "gui", "external"};
        ended(kModes[mc::choose(4, "mode")], mc::flag("control is stolen"), mc::flag("signals are watched for"));
    }, 3, 1);
    sch("run_ends", "the run ends by itself", [] { Plan p; p.catching = false; life(p); });
    sch("run_ends_catching", "the run ends by itself, signals are watched for", [] { Plan p; life(p); });
    // a signal while a hook runs or just when it ends: hooks take 100 ms, the controller looks for signals every 100 ms
    sch("signal_any", "a signal at any moment", [] { Plan p; p.signals = 1; p.endless = true; life(p); }, 3);
    sch("signal_early", "a signal at any moment, the run ends by itself", [] { Plan p; p.signals = 1; life(p); }, 2);
    sch("signal_steps", "a signal during or after any hook", [] { Plan p; p.hookms = 100; p.signals = 1; p.endless = true; p.offset = 50 + 100 * mc::choose(9, "time of the signal"); life(p); }, 3, 1);
    sch("signal_steps_end", "a signal during or after any hook, the run ends by itself", [] { Plan p; p.hookms = 100; p.signals = 1; p.offset = 50 + 100 * mc::choose(12, "time of the signal"); life(p); }, 3, 1);
    sch("signal_int", "SIGINT during or after any hook", [] { Plan p; p.hookms = 100; p.signals = 1; p.signo = SIGINT; p.endless = true; p.offset = 50 + 100 * mc::choose(9, "time of the signal"); life(p); }, 1, 1);
    sch("signals", "two signals at any moment", [] { Plan p; p.signals = 2; p.endless = true; life(p); }, 1, 1);
    auto fails = [] { return Hook(mc::choose(NHOOKS, "failing hook")); };
    sch("fails", "any hook fails", [fails] { Plan p; p.catching = mc::flag("signals are watched for"); p.fails = fails(); life(p); }, 2, 1);
    sch("fails_slow", "any hook fails after a while", [fails] { Plan p; p.hookms = 100; p.fails = fails(); life(p); }, 1, 1);
    sch("fails_signal", "any hook fails, a signal at any moment", [fails] { Plan p; p.signals = 1; p.fails = fails(); life(p); }, 2, 1);
    sch("fails_signal_steps", "any hook fails, a signal in the same step", [fails] { Plan p; p.hookms = 100; p.signals = 1; p.fails = fails(); p.offset = 50 + 100 * mc::choose(9, "time of the signal"); life(p); }, 2, 1);
    sch("error_any", "an error is reported at any moment", [] { Plan p; p.error = true; life(p); }, 2);
    sch("error_steps", "an error is reported during any hook", [] { Plan p; p.hookms = 100; p.error = true; p.endless = true; p.erroroffset = 50 + 100 * mc::choose(6, "time of the error"); life(p); }, 2, 1);
    sch("error_signal", "an error and a signal", [] { Plan p; p.hookms = 100; p.error = true; p.endless = true; p.signals = 1; int t = mc::choose(6, "time"); p.erroroffset = 50 + 100 * t; p.offset = 150 + 100 * (t + mc::choose(3, "delay of the signal") - 1); life(p); }, 2, 1);
    sch("none", "another party controls the device until a signal arrives", [] { Plan p; p.mode = "none"; p.other = true; p.hookms = 100; p.signals = 1; p.endless = true; p.offset = 50 + 100 * mc::choose(9, "time of the signal"); life(p); }, 2, 1);
    sch("refused", "another party is in control already", [] { Plan p; p.other = true; p.hookms = 100; p.signals = 1; p.endless = true; p.offset = 50 + 100 * mc::choose(9, "time of the signal"); life(p); }, 2, 1);
    sch("none_any", "the same, a signal at any moment", [] { Plan p; p.mode = "none"; p.other = true; p.signals = 1; p.endless = true; life(p); }, 2, 1);
    sch("gui", "the controller of the GUI mode, ended by a signal", [] { Plan p; p.mode = "gui"; p.hookms = 100; p.signals = 1; p.offset = 50 + 100 * mc::choose(9, "time of the signal"); life(p); }, 1, 1);
    sch("unknown", "an unknown mode means static", [] { Plan p; p.mode = "whatever"; life(p); }, 1, 1);
    return mc::run(argc, argv, v);
}
