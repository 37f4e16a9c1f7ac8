// C10: data callbacks of fair::mq::Device
#define DEVICE_MAIN
#include "device.h"
#include <fairmq/TransportFactory.h>
#include <fairmq/tools/Network.h>
#include <cstring>
#include <stdexcept>
using namespace dv;

namespace {
struct Sub { std::string chan; int index; bool multi; std::string transport; };
using Config = std::vector<Sub>;
const Config kConfigs[] = {
    {{"a", 0, false, "zeromq"}},
    {{"a", 0, true, "zeromq"}},
    {{"a", 0, false, "shmem"}},
    {{"a", 0, true, "shmem"}},
    {{"a", 0, false, "zeromq"}, {"a", 1, false, "zeromq"}},
    {{"a", 0, false, "zeromq"}, {"b", 0, true, "zeromq"}},
    {{"a", 0, true, "shmem"}, {"a", 1, true, "shmem"}, {"b", 0, false, "shmem"}},
    {{"a", 0, false, "zeromq"}, {"b", 0, true, "shmem"}},
    {{"a", 0, true, "zeromq"}, {"a", 1, true, "zeromq"}, {"b", 0, false, "shmem"}},
    {{"a", 0, false, "zeromq"}, {"b", 0, false, "shmem"}, {"c", 0, true, "zeromq"}},
};
constexpr int kN = sizeof kConfigs / sizeof *kConfigs;
enum Stop { NONE, FALSE, REQUEST, THROW, REQUEST_FALSE, NSTOPS };

struct World
{
    Config cfg;
    std::unique_ptr<ProgOptions> o;
    std::unique_ptr<Dev> d;
    std::map<std::string, std::shared_ptr<TransportFactory>> f;
    std::vector<std::unique_ptr<Channel>> peers;
    std::vector<std::vector<int>> sent, got;     // per sub-channel: numbers of the messages
    int number = 0, done = 0, calls = 0, late = 0, over = 0, inside = 0;
    bool threw = false, stopped = false, falsed = false, failed = false;
    int stop = NONE, stopat = -1;
    Track track;
    std::mutex gate;                             // hands the peers over to the main thread
    std::thread t;
    std::string log;

    static int sizeOf(int n, int part) { return (n * 5 + part * 3) % 17; }
    static int partsOf(int n) { return 1 + n % 3; }
    explicit World(const Config& c) : cfg(c), o(options()), sent(c.size()), got(c.size())
    {
        for (size_t i = 0; i < c.size(); ++i) add(*o, {c[i].chan, "pull", "bind", "tcp://127.0.0.1:" + std::to_string(5000 + i), c[i].transport, c[i].index, {{"rateLogging", 0}}, false});
        d = std::make_unique<Dev>(*o);
        std::map<std::string, bool> chans;
        for (auto& s : c) chans[s.chan] = s.multi;
        for (auto& s : chans) {
            std::string name = s.first;
            if (s.second) d->OnData(name, [this, name](Parts& p, int i) { return onParts(name, p, i); });
            else d->OnData(name, [this, name](MessagePtr& m, int i) { return onMsg(name, m, i); });
        }
    }
    size_t find(const std::string& chan, int index)
    {
        for (size_t i = 0; i < cfg.size(); ++i) if (cfg[i].chan == chan && cfg[i].index == index) return i;
        mc::fail("callback for %s with index %d, which does not exist", chan.c_str(), index);
    }
    void connect()
    {
        for (size_t i = 0; i < cfg.size(); ++i) {
            auto& fac = f[cfg[i].transport];
            if (!fac) fac = TransportFactory::CreateTransportFactory(cfg[i].transport, "peer", o.get());
            peers.push_back(std::make_unique<Channel>("peer" + std::to_string(i), "push", fac));
            MC_CHECK(peers.back()->Connect("tcp://127.0.0.1:" + std::to_string(5000 + i)), "connect");
        }
    }
    void send(size_t sub)
    {
        int n;
        { mc::Quiet q; n = number++; sent[sub].push_back(n); log += " send#" + std::to_string(n) + ">" + cfg[sub].chan + std::to_string(cfg[sub].index); }
        auto msg = [&](int part) {
            auto m = peers[sub]->NewMessage(sizeOf(n, part) + 1);
            memset(m->GetData(), n * 8 + part, m->GetSize());
            return m;
        };
        if (cfg[sub].multi) {
            Parts p;
            for (int k = 0; k < partsOf(n); ++k) p.AddPart(msg(k));
            MC_CHECK(peers[sub]->Send(p) > 0, "send");
        } else {
            auto m = msg(0);
            MC_CHECK(peers[sub]->Send(m) > 0, "send");
        }
        mc::Quiet q;
        ++done;
    }
    // the n-th message of the sub-channel?
    int identify(Message& m, int part)
    {
        MC_CHECK(m.GetSize() > 0, "empty message%s", log.c_str());
        auto* c = static_cast<unsigned char*>(m.GetData());
        int n = c[0] / 8, k = c[0] % 8;
        MC_CHECK(k == part && int(m.GetSize()) == sizeOf(n, part) + 1, "part %d of message #%d arrived as part %d, %zu bytes%s", k, n, part, m.GetSize(), log.c_str());
        for (size_t i = 0; i < m.GetSize(); ++i) MC_CHECK(c[i] == c[0], "content of message #%d changed%s", n, log.c_str());
        return n;
    }
    bool arrived(size_t sub, int n)
    {
        int call;
        {
            mc::Quiet q;
            mc::transition();
            log += " #" + std::to_string(n) + "@" + cfg[sub].chan + std::to_string(cfg[sub].index);
            MC_CHECK(++inside == 1, "two callbacks at the same time:%s", log.c_str());
            auto& g = got[sub];
            auto& s = sent[sub];
            MC_CHECK(g.size() < s.size() && s[g.size()] == n, "message #%d passed to %s[%d], expected %s:%s", n, cfg[sub].chan.c_str(), cfg[sub].index, g.size() < s.size() ? ("#" + std::to_string(s[g.size()])).c_str() : "none", log.c_str());
            MC_CHECK(!falsed && !failed, "callback after a callback ended the run:%s", log.c_str());
            if (stopped) MC_CHECK(++late <= int(cfg.size()), "callbacks go on after a state change was requested:%s", log.c_str());
            g.push_back(n);
            call = calls++;
        }
        if (call == stopat) {
            switch (stop) {
                case FALSE: { mc::Quiet q; falsed = true; log += " false"; --inside; return false; }
                case REQUEST_FALSE:
                case REQUEST: {
                    bool ok = d->ChangeState(T::Stop);
                    mc::Quiet q;
                    MC_CHECK(ok || over, "Stop refused in a callback:%s", log.c_str());
                    stopped = true;
                    log += " Stop";
                    --inside;
                    if (stop == REQUEST_FALSE) falsed = true;
                    return stop == REQUEST;
                }
                case THROW: { mc::Quiet q; failed = true; log += " throw"; --inside; throw std::runtime_error("callback failed"); }
                default: break;
            }
        }
        mc::Quiet q;
        --inside;
        return true;
    }
    bool onMsg(const std::string& chan, MessagePtr& m, int index)
    {
        size_t s = find(chan, index);
        int n;
        { mc::Quiet q; MC_CHECK(!cfg[s].multi, "message callback of a multi-part channel"); }
        n = identify(*m, 0);
        return arrived(s, n);
    }
    bool onParts(const std::string& chan, Parts& p, int index)
    {
        size_t s = find(chan, index);
        MC_CHECK(p.Size() > 0, "callback without parts:%s", log.c_str());
        int n = -1;
        for (size_t k = 0; k < p.Size(); ++k) n = identify(p.AtRef(int(k)), int(k));
        MC_CHECK(int(p.Size()) == partsOf(n), "%zu parts of message #%d:%s", p.Size(), n, log.c_str());
        return arrived(s, n);
    }
    size_t total(const std::vector<std::vector<int>>& v) { size_t n = 0; for (auto& x : v) n += x.size(); return n; }
    // what was not taken is still there
    void rest()
    {
        mc::Quiet q;
        for (size_t i = 0; i < cfg.size(); ++i) {
            void* s = fakezmq::find("dev." + cfg[i].chan + "[" + std::to_string(cfg[i].index) + "].pull");
            MC_CHECK(s, "no socket of %s[%d]", cfg[i].chan.c_str(), cfg[i].index);
            MC_CHECK(got[i].size() + fakezmq::queued(s) == sent[i].size(), "%zu messages sent to %s[%d], %zu passed to the callback, %zu left in the transport:%s", sent[i].size(), cfg[i].chan.c_str(), cfg[i].index, got[i].size(), fakezmq::queued(s), log.c_str());
        }
    }
};
// the device thread asks for its states itself; onReady is called whenever READY is entered
void start(World& w, const std::function<T(int)>& onReady)
{
    w.d->SubscribeToStateChange("driver", [&w, onReady, visits = 0](S s) mutable {
        T t = T::Auto;
        static const std::map<S, T> go{{S::InitializingDevice, T::CompleteInit}, {S::Initialized, T::Bind}, {S::Bound, T::Connect}};
        auto i = go.find(s);
        if (i != go.end()) t = i->second;
        if (s == S::Idle) t = w.over ? T::End : T::InitDevice;
        if (s == S::DeviceReady) t = w.over ? T::ResetDevice : T::InitTask;
        if (s == S::Ready) { { mc::Quiet q; w.log += " [READY]"; } t = onReady(visits++); if (t == T::ResetTask) w.over = 1; }
        if (s == S::Ready) std::lock_guard<std::mutex> g(w.gate);
        if (t != T::Auto) MC_CHECK(w.d->ChangeState(t), "%s refused in %s", name(t).c_str(), name(s).c_str());
        w.track.push(s);
    });
    w.t = std::thread([&w] { try { w.d->RunStateMachine(); } catch (std::exception&) { w.threw = true; } });
}
void finish(World& w)
{
    w.t.join();
    if (w.failed) {
        MC_CHECK(w.threw && w.d->GetCurrentState() == S::Error, "a callback threw, but the device ended in %s%s:%s", name(w.d->GetCurrentState()).c_str(), w.threw ? " with an error" : "", w.log.c_str());
        w.rest();
    } else MC_CHECK(!w.threw && w.d->GetCurrentState() == S::Exiting, "device ended in %s:%s", name(w.d->GetCurrentState()).c_str(), w.log.c_str());
    mc::outcome(w.log);
}
// messages are there before the run starts; a callback ends the run; a second run takes the rest
void preloaded(int nmsg, int lo, int hi)
{
    clean();
    const Config& c = kConfigs[lo + mc::choose(hi - lo, "channels")];
    {
        World w(c);
        w.stop = mc::choose(NSTOPS, "how a callback ends the run");
        if (w.stop != NONE) w.stopat = mc::choose(nmsg, "which callback");
        int n = 0;
        start(w, [&](int visit) {
            if (visit == 0) {
                w.connect();
                n = mc::choose(nmsg + 1, "messages");
                for (int i = 0; i < n; ++i) w.send(mc::choose(int(c.size()), "sub-channel"));
                return T::Run;
            }
            w.rest();
            mc::Quiet q;
            if (visit == 1 && (w.falsed || w.stopped)) { w.falsed = w.stopped = false; w.stopat = -1; return T::Run; }
            return T::ResetTask;
        });
        // the runs that no callback ends
        auto done = [&] { return (w.total(w.got) == size_t(n) && !w.inside) || w.failed || w.over; };
        auto runs = [&] { int k = 0; for (S s : w.track.seen) if (s == S::Running) ++k; return k; };
        for (int r = 1; r <= 2; ++r) {
            mc::block_until([&] { return w.over || w.failed || (runs() >= r && done() && !w.falsed && !w.stopped); }, -1, "all messages passed");
            if (w.over || w.failed) break;
            bool ok = w.d->ChangeState(T::Stop);
            (void)ok;
            mc::block_until([&] { return w.over || w.failed || runs() > r; }, -1, "next run");
        }
        finish(w);
        if (!w.failed) MC_CHECK(w.total(w.got) == size_t(n), "%zu of %d messages passed to the callbacks:%s", w.total(w.got), n, w.log.c_str());
    }
}
// messages arrive while the device runs; somebody else asks it to stop
void concurrent(const Config& c, int nmsg, int stop, int stopat, bool early)
{
    clean();
    {
        World w(c);
        w.stop = stop;
        w.stopat = stopat;
        start(w, [&](int visit) { if (visit == 0) w.connect(); else { mc::block_until([&] { return w.done == nmsg; }, -1, "sent"); w.rest(); } return visit == 0 ? T::Run : T::ResetTask; });
        if (!w.track.until(S::Running)) mc::fail("no run");
        { std::lock_guard<std::mutex> g(w.gate); }
        for (int i = 0; i < nmsg; ++i) w.send(i % c.size());
        if (!early) mc::block_until([&] { return w.over || w.failed || w.falsed || w.stopped || w.total(w.got) == size_t(nmsg); }, -1, "all messages passed");
        (void)w.d->ChangeState(T::Stop);
        finish(w);
        if (!early && stop == NONE) MC_CHECK(w.total(w.got) == size_t(nmsg), "%zu of %d messages passed to the callbacks:%s", w.total(w.got), nmsg, w.log.c_str());
    }
}
}   // namespace

int main(int argc, char** argv)
{
    using mc::Opts;
    using mc::Scenario;
    std::vector<Scenario> v;
#ifdef SEQ
    auto seq = [&](std::string n, std::string w, std::function<void()> b, double weight, int pre = 0) { Opts o; o.preemptions = pre; o.preemptions_thorough = pre + 1; o.delays = true; o.max_steps = 60000; o.early_timeouts = false; o.weight = weight; v.push_back({n, w, b, o}); };
    seq("preloaded", "every distribution of up to 4 messages over the sub-channels, every way to end the run at every callback, then a second run", [] { preloaded(mc::thorough() ? 6 : 5, 0, 7); }, 2);
    seq("preloaded_transports", "the same for channels of different transports, every order of the two polling threads", [] { preloaded(mc::thorough() ? 4 : 2, 7, kN); }, 3, 1);
#else
    auto sch = [&](std::string n, std::string w, std::function<void()> b, double weight) { Opts o; o.preemptions = 2; o.preemptions_thorough = 3; o.early_timeouts = false; o.max_steps = 60000; o.weight = weight; o.races = o.freecheck = true; if (n.find("transports") == 0) { o.delays = true; o.sched_atomics = false; } v.push_back({n, w, b, o}); };
    static const char* names[] = {"single", "single_parts", "single_shmem", "single_shmem_parts", "subchannels", "channels", "shmem_channels", "transports", "transports_sub", "transports_three"};
    static const char* stops[] = {"stopped", "false", "request", "throw", "request_false"};
    for (int k : {0, 3, 4, 5, 7, 8, 9}) {
        sch(std::string(names[k]) + "_early", "messages arrive while the device runs, it is stopped at any moment", [k] { concurrent(kConfigs[k], 2, NONE, -1, true); }, 1);
        sch(std::string(names[k]) + "_all", "messages arrive while the device runs, it is stopped when all are passed", [k] { concurrent(kConfigs[k], 3, NONE, -1, false); }, 1);
        if (k >= 4) for (int s : {FALSE, REQUEST, THROW}) sch(std::string(names[k]) + "_" + stops[s], "a callback ends the run while messages arrive", [k, s] { concurrent(kConfigs[k], 3, s, 1, false); }, 1);
    }
#endif
    return mc::run(argc, argv, v);
}
