// C35: rate logging of fair::mq::Device, under virtual time
#define DEVICE_MAIN
#include "device.h"
#include <fairlogger/Logger.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/tools/Network.h>
#include <cmath>
#include <cstring>
#include <stdexcept>
using namespace dv;

namespace {
constexpr int64_t kMs = 1000000;
struct Kind { const char* what; int messages; int parts; size_t size; bool in; };
const Kind kKinds[] = {{"nothing", 0, 0, 0, false}, {"3 out", 3, 1, 700, false}, {"2 in", 2, 1, 900, true}, {"parts out", 1, 3, 400, false}, {"parts in", 1, 2, 5000, true}, {"1 out", 1, 1, 100000, false}};
enum End { RETURN, STOP, THROW };
struct Chn { std::string name; int index; bool in; int interval; };
struct Count { double messages = 0, bytes = 0; };
struct Report { int64_t at; std::string chan; double v[4]; };

struct World
{
    std::vector<Chn> chans;
    std::string transport;
    std::unique_ptr<ProgOptions> o;
    std::unique_ptr<Dev> d;
    std::shared_ptr<TransportFactory> f;
    std::vector<std::unique_ptr<Channel>> peers;
    Track track;
    bool threw = false;
    // what has been transferred, per channel and time
    struct Done { int64_t at; size_t chan; Count n; };
    std::vector<Done> done;
    std::vector<Report> reports;
    int64_t begin = -1, end = -1, left = -1;      // of the run: hooks called, told to end, PostRun
    std::string log;

    World(const std::vector<Chn>& c, const std::string& tr, float rate = 0) : chans(c), transport(tr), o(options())
    {
        if (rate != 0) { mc::Quiet q; o->SetProperty<float>("rate", rate); }
        for (size_t i = 0; i < c.size(); ++i) add(*o, {c[i].name, c[i].in ? "pull" : "push", "bind", "tcp://127.0.0.1:" + std::to_string(5000 + i), tr, c[i].index, {{"rateLogging", c[i].interval}}, false});
        d = std::make_unique<Dev>(*o);
        fair::stublog::tell = [this](const std::string& s) {
            mc::Quiet q;
            Report r{mc::now_ns(), "", {}};
            char name[100] = "";
            if (sscanf(s.c_str(), "info %99[^:]: in: %lf (%lf MB) out: %lf (%lf MB)", name, r.v, r.v + 1, r.v + 2, r.v + 3) == 5 || sscanf(s.c_str(), "info  %99[^:]: in: %lf (%lf MB) out: %lf (%lf MB)", name, r.v, r.v + 1, r.v + 2, r.v + 3) == 5) {
                r.chan = name;
                while (!r.chan.empty() && r.chan[0] == ' ') r.chan.erase(0, 1);
                reports.push_back(r);
            }
        };
    }
    ~World() { fair::stublog::tell = nullptr; }
    void connect()
    {
        f = TransportFactory::CreateTransportFactory(transport, "peer", o.get());
        for (size_t i = 0; i < chans.size(); ++i) {
            peers.push_back(std::make_unique<Channel>("peer" + std::to_string(i), chans[i].in ? "push" : "pull", f));
            MC_CHECK(peers.back()->Connect("tcp://127.0.0.1:" + std::to_string(5000 + i)), "connect");
        }
    }
    static void send(Channel& c, const Kind& k, int n)
    {
        while (n--) {
            if (k.parts > 1) {
                Parts p;
                for (int i = 0; i < k.parts; ++i) p.AddPart(c.NewMessage(k.size));
                MC_CHECK(c.Send(p) > 0, "send");
            } else { auto m = c.NewMessage(k.size); MC_CHECK(c.Send(m) > 0, "send"); }
        }
    }
    static void receive(Channel& c, const Kind& k, int n)
    {
        while (n--) {
            if (k.parts > 1) { Parts p; MC_CHECK(c.Receive(p) > 0, "receive"); }
            else { auto m = c.NewMessage(); MC_CHECK(c.Receive(m) > 0, "receive"); }
        }
    }
    void preload(size_t chan, const Kind& k) { if (k.in) send(*peers[chan], k, k.messages); }
    void transfer(size_t chan, const Kind& k)
    {
        Channel& c = d->GetChannel(chans[chan].name, chans[chan].index);
        if (k.in) receive(c, k, k.messages);
        else send(c, k, k.messages);
        mc::Quiet q;
        done.push_back({mc::now_ns(), chan, {double(k.messages), double(k.messages * k.parts * k.size)}});
        log += " " + std::to_string((mc::now_ns() - begin) / kMs) + "ms:" + chans[chan].name + std::to_string(chans[chan].index) + " " + k.what;
    }
    void start(const std::function<T(int)>& onReady)
    {
        d->SubscribeToStateChange("driver", [this, onReady, visits = 0, over = false](S s) mutable {
            T t = T::Auto;
            static const std::map<S, T> go{{S::InitializingDevice, T::CompleteInit}, {S::Initialized, T::Bind}, {S::Bound, T::Connect}};
            auto i = go.find(s);
            if (i != go.end()) t = i->second;
            if (s == S::Idle) t = over ? T::End : T::InitDevice;
            if (s == S::DeviceReady) t = over ? T::ResetDevice : T::InitTask;
            if (s == S::Ready) { t = onReady(visits++); if (t == T::ResetTask) over = true; }
            if (t != T::Auto) MC_CHECK(d->ChangeState(t), "%s refused in %s", name(t).c_str(), name(s).c_str());
            track.push(s);
        });
        try { d->RunStateMachine(); } catch (std::exception&) { threw = true; }
    }
    // what was reported in the run
    void check()
    {
        mc::Quiet q;
        for (size_t c = 0; c < chans.size(); ++c) {
            std::string nm = chans[c].name + "[" + std::to_string(chans[c].index) + "]";
            int64_t last = begin;
            int n = 0;
            for (auto& r : reports) if (r.chan == nm && r.at >= begin && (left < 0 || r.at <= left)) {
                MC_CHECK(chans[c].interval > 0, "%s is reported although its rateLogging is 0:%s", nm.c_str(), log.c_str());
                Count k;
                for (auto& x : done) if (x.chan == c && x.at > last && x.at <= r.at) { k.messages += x.n.messages; k.bytes += x.n.bytes; }
                double s = double(r.at - last) / 1e9, w[4] = {0, 0, 0, 0};
                MC_CHECK(s > 0, "%s reported twice at once:%s", nm.c_str(), log.c_str());
                w[chans[c].in ? 0 : 2] = k.messages / s;
                w[chans[c].in ? 1 : 3] = k.bytes / 1e6 / s;
                for (int i = 0; i < 4; ++i) MC_CHECK(std::fabs(r.v[i] - w[i]) <= 0.002 * w[i] + 1e-9, "%s %.3f s after the start: %s %g reported, it was %g since the last report %.3f s ago:%s", nm.c_str(), double(r.at - begin) / 1e9, (const char*[]){"in, messages/s", "in, MB/s", "out, messages/s", "out, MB/s"}[i], r.v[i], w[i], s, log.c_str());
                // in time, only the end of the run may bring one forward
                double due = double(chans[c].interval) * ++n;
                double t = double(r.at - begin) / 1e9;
                MC_CHECK(std::fabs(t - due) <= 0.05 || (end >= 0 && t < due && r.at >= end && r.at - end <= 50 * kMs), "%s: report %d came %.3f s after the start, not %.3f:%s", nm.c_str(), n, t, due, log.c_str());
                last = r.at;
                mc::transition();
            }
            if (chans[c].interval > 0 && end >= 0) {
                int want = int(double(end - begin - 60 * kMs) / 1e9 / chans[c].interval);
                MC_CHECK(n >= want, "%s: %d reports in %.3f s, its rateLogging is %d:%s", nm.c_str(), n, double(end - begin) / 1e9, chans[c].interval, log.c_str());
            }
        }
        for (auto& r : reports) MC_CHECK(r.at >= begin && (left < 0 || r.at <= left), "%s is reported %.3f s after the start, outside of the run of %.3f s:%s", r.chan.c_str(), double(r.at - begin) / 1e9, double(left - begin) / 1e9, log.c_str());
        reports.clear();
        done.clear();
    }
};

// one run after the other, transfers in the second quarter of every second
void rates(int seconds, int runs, std::vector<Chn> chans, int kinds)
{
    clean();
    mc::set_tick(0);
    std::string tr = mc::flag("transport") ? "shmem" : "zeromq";
    for (auto& c : chans) c.interval = mc::choose(c.interval + 1, "rateLogging");
    {
        World w(chans, tr);
        struct Step { size_t chan; const Kind* kind; };
        std::vector<Step> plan;
        End how = RETURN;
        int64_t ends = 0;
        std::thread other;
        w.d->on = [&](Hook h) {
            if (h == PRERUN) { mc::Quiet q; w.begin = mc::now_ns(); w.end = w.left = -1; w.log += " run:"; }
            if (h == RUN) {
                auto until = [&](int64_t t) { while (mc::now_ns() < w.begin + t && w.d->WaitFor(std::chrono::milliseconds((w.begin + t - mc::now_ns()) / kMs))) {} };
                for (size_t i = 0; i < plan.size(); ++i) {
                    until(int64_t(i) * 1000 * kMs + 250 * kMs);
                    if (plan[i].kind->messages) w.transfer(plan[i].chan, *plan[i].kind);
                }
                until(ends);
                if (how != STOP) { mc::Quiet q; w.end = mc::now_ns(); }
                if (how == THROW) throw std::runtime_error("run failed");
            }
            if (h == POSTRUN) { mc::Quiet q; w.left = mc::now_ns(); }
        };
        w.start([&](int visit) {
            if (visit == 0) w.connect();
            if (visit > 0) {
                if (other.joinable()) other.join();
                MC_CHECK(w.left - w.end <= 100 * kMs, "the run ended %.3f s after it had to:%s", double(w.left - w.end) / 1e9, w.log.c_str());
                w.check();
            }
            if (visit == runs) return T::ResetTask;
            // the next run
            plan.clear();
            for (int i = 0; i < seconds; ++i) {
                Step s{0, &kKinds[mc::choose(kinds, "transfer")]};
                for (size_t c = 0; c < w.chans.size(); ++c) if (w.chans[c].in == s.kind->in) s.chan = c;     // the last one of the direction
                plan.push_back(s);
                if (s.kind->messages) w.preload(s.chan, *s.kind);
            }
            how = visit ? RETURN : End(mc::choose(3, "end of the run"));
            static const int kEnds[] = {500, 900};
            ends = int64_t((seconds - 1) * 1000 + kEnds[mc::choose(2, "time of the end")]) * kMs;
            if (how == STOP) {
                int64_t t = ends;
                ends += 60000 * kMs;
                other = std::thread([&, t, before = w.begin] {
                    mc::block_until([&] { return w.begin > before; }, -1, "run");
                    mc::block_until([&] { return false; }, w.begin + t, "time of the end");
                    { mc::Quiet q; w.end = mc::now_ns(); }
                    (void)w.d->ChangeState(T::Stop);
                });
            }
            return T::Run;
        });
        if (other.joinable()) other.join();
        if (how == THROW) {
            w.left = mc::now_ns();
            MC_CHECK(w.threw && w.d->GetCurrentState() == S::Error, "the run failed, but the device ended in %s:%s", name(w.d->GetCurrentState()).c_str(), w.log.c_str());
            MC_CHECK(w.left - w.end <= 100 * kMs, "the run ended %.3f s after it failed:%s", double(w.left - w.end) / 1e9, w.log.c_str());
            w.check();
        } else MC_CHECK(!w.threw && w.d->GetCurrentState() == S::Exiting, "device ended in %s:%s", name(w.d->GetCurrentState()).c_str(), w.log.c_str());
        mc::outcome(std::to_string(how));
        mc::state(mc::hash_str(w.log));
    }
}
// ConditionalRun with --rate
void conditional()
{
    clean();
    mc::set_tick(0);
    static const float kRates[] = {0, 0.5, 2, 50, 180};
    static const double kWork[] = {0, 0.5, 0.9, 1.5, 6};
    float rate = kRates[mc::choose(5, "rate")];
    double period = rate > 0 ? 1e9 / rate : 0, work = kWork[mc::choose(5, "work per period")] * (rate > 0 ? period : 1e6);
    bool ask = mc::flag("another thread asks for the stop");
    long settle = mc::thorough() ? 400 : 120, n = settle / 2;
    {
        World w({{"out", 0, false, 0}}, "zeromq", rate);
        std::vector<int64_t> at;
        std::thread other;
        bool over = false;
        int64_t asked = -1, left = -1;
        bool ran = false, given = false;
        w.d->on = [&](Hook h) {
            mc::Quiet q;
            if (h == COND) { MC_CHECK(!over, "ConditionalRun is called again after it returned false"); at.push_back(mc::now_ns()); mc::advance_ns(int64_t(work)); }
            if (h == RUN) { ran = true; left = mc::now_ns(); }
        };
        w.d->cond = [&] {
            if (long(at.size()) < settle + n) return true;
            if (!ask) { mc::Quiet q; over = true; return false; }
            if (asked < 0) {
                { mc::Quiet q; asked = mc::now_ns(); }
                mc::block_until([&] { return given; }, -1, "request");      // a loop that never sleeps lets nobody else run
            }
            MC_CHECK(at.size() < size_t(settle + n + 3000), "the device goes on although it was asked to stop");
            return true;
        };
        if (ask) other = std::thread([&] { mc::block_until([&] { return asked >= 0; }, -1, "time of the stop"); (void)w.d->ChangeState(T::Stop); given = true; });
        w.start([&](int visit) { return visit ? T::ResetTask : T::Run; });
        if (other.joinable()) other.join();
        MC_CHECK(!w.threw && ran, "device ended in %s", name(w.d->GetCurrentState()).c_str());
        double avg = double(at[settle + n - 1] - at[settle - 1]) / double(n), want = std::max(period, work);
        MC_CHECK(avg >= 0.97 * want && avg <= 1.03 * want + 20, "rate %g Hz, %.0f ns of work: ConditionalRun is called every %.0f ns on average, not %.0f", double(rate), work, avg, want);
        if (ask) MC_CHECK(double(left - asked) <= 2.1 * want + 2e6 && at.size() <= size_t(settle + n + 2 + (rate > 0 ? 0 : 1000)), "rate %g Hz: the device went on for %.0f ns and %zu calls after it was asked to stop", double(rate), double(left - asked), at.size() - size_t(settle + n));
        mc::transition();
        mc::outcome(std::to_string(avg));
    }
}
}   // namespace

int main(int argc, char** argv)
{
    using mc::Opts;
    using mc::Scenario;
    std::vector<Scenario> v;
    auto sch = [&](std::string n, std::string w, std::function<void()> b, double weight, int pre) {
        Opts o;
        o.preemptions = pre;
        o.preemptions_thorough = pre ? pre + 1 : 0;
        o.early_timeouts = false;
        o.delays = true;
        o.races = o.freecheck = true;
        o.sched_atomics = false;
        o.max_steps = 60000;
        o.weight = weight;
        v.push_back({n, w, b, o});
    };
#ifdef C28
    sch("conditional", "a device whose ConditionalRun is called at a given rate", [] { conditional(); }, 1, 0);
    v.back().opts.max_steps = 400000;
    v.back().opts.max_time_jumps = 400000;
#else
    sch("channels", "an output and an input, every interval up to 3 s, every sequence of transfers, every end of the run", [] { rates(mc::thorough() ? 5 : 3, 1, {{"out", 0, false, 3}, {"in", 0, true, 2}}, 3); }, 3, 0);
    sch("transfers", "every kind of transfers", [] { rates(mc::thorough() ? 4 : 2, 1, {{"out", 0, false, 1}, {"in", 0, true, 1}}, 6); }, 2, 0);
    sch("intervals", "sub-channels of different intervals", [] { rates(mc::thorough() ? 7 : 5, 1, {{"a", 0, false, 2}, {"a", 1, false, 4}, {"longname", 0, true, 1}}, 2); }, 2, 0);
    sch("runs", "two runs", [] { rates(mc::thorough() ? 3 : 2, 2, {{"out", 0, false, 2}, {"in", 0, true, 1}}, 3); }, 2, 0);
    sch("schedules", "the same with every schedule", [] { rates(2, 1, {{"out", 0, false, 1}, {"in", 0, true, 1}}, 2); }, 1, 1);
#endif
    return mc::run(argc, argv, v);
}
