// C25: the devices FairMQ ships
#define DEVICE_MAIN
#include "device.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fairmq/TransportFactory.h>
#include <fairmq/devices/BenchmarkSampler.h>
#include <fairmq/devices/Merger.h>
#include <fairmq/devices/Multiplier.h>
#include <fairmq/devices/Proxy.h>
#include <fairmq/devices/Sink.h>
#include <fairmq/devices/Splitter.h>
#include <fairmq/tools/Network.h>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace dv;

namespace {
using Content = std::vector<std::string>;          // parts of a message
enum Kind { MERGER, SPLITTER, MULTIPLIER, PROXY, SINK, NKINDS };
const char* kKind[] = {"merger", "splitter", "multiplier", "proxy", "sink"};
struct Config
{
    Kind kind;
    int ins;
    std::vector<int> outs;          // sub-channels of each output channel
    bool multi;
    std::string deflt, in, out;     // transports
};
std::string show(const Content& c) { std::string s = "("; for (auto& p : c) s += (p.empty() ? "-" : std::string(1, p[0]) + std::to_string(p.size())) + " "; return s + ")"; }
std::string show(const std::vector<Content>& v) { std::string s; for (auto& c : v) s += show(c); return s; }

struct World
{
    Config c;
    std::unique_ptr<ProgOptions> o = options();
    std::unique_ptr<Device> d;
    std::map<std::string, std::shared_ptr<TransportFactory>> f;
    std::vector<std::unique_ptr<Channel>> src;
    std::vector<std::vector<std::unique_ptr<Channel>>> dst;
    std::vector<std::vector<Content>> sent;                       // per input, this run
    std::vector<Content> order;                                   // in the order sent
    std::vector<std::vector<std::vector<Content>>> got;           // per output channel and sub-channel
    int number = 0;
    std::string file, log;
    Track track;
    std::thread t;
    bool threw = false;

    explicit World(const Config& cfg) : c(cfg), sent(cfg.ins), got(cfg.outs.size())
    {
        switch (c.kind) {
            case MERGER: d = std::make_unique<Merger>(); break;
            case SPLITTER: d = std::make_unique<Splitter>(); break;
            case MULTIPLIER: d = std::make_unique<Multiplier>(); break;
            case PROXY: d = std::make_unique<Proxy>(); break;
            default: d = std::make_unique<Sink>(); break;
        }
        mc::Quiet q;
        for (int i = 0; i < c.ins; ++i) add(*o, {"in", "pull", "bind", "tcp://127.0.0.1:" + std::to_string(5000 + i), c.in, i, {{"rateLogging", 0}}, false});
        for (size_t k = 0; k < c.outs.size(); ++k) for (int j = 0; j < c.outs[k]; ++j) add(*o, {"out" + std::to_string(k), "push", "bind", out(k, j), c.out, j, {{"rateLogging", 0}}, false});
        Properties p;
        p["transport"] = std::string(c.deflt);
        p["multipart"] = bool(c.multi);
        p["in-channel"] = std::string("in");
        if (c.kind == MULTIPLIER) { std::vector<std::string> n; for (size_t k = 0; k < c.outs.size(); ++k) n.push_back("out" + std::to_string(k)); p["out-channel"] = n; }
        else p["out-channel"] = std::string("out0");
        p["max-iterations"] = uint64_t(0);
        p["max-file-size"] = uint64_t(0);
        if (c.kind == SINK) {
            const char* s = getenv("MC_SCRATCH");
            file = std::string(s ? s : "/tmp") + "/sink." + std::to_string(getpid());
        }
        p["out-filename"] = file;
        o->SetProperties(p);
        d->SetConfig(*o);
        for (size_t k = 0; k < got.size(); ++k) got[k].resize(c.outs[k]);
    }
    ~World() { if (!file.empty()) unlink(file.c_str()); }
    static std::string out(int k, int j) { return "tcp://127.0.0.1:" + std::to_string(5100 + 10 * k + j); }
    TransportFactory& factory(const std::string& tr)
    {
        auto& fac = f[tr];
        if (!fac) fac = TransportFactory::CreateTransportFactory(tr, "peer", o.get());
        return *fac;
    }
    void connect()
    {
        factory(c.in);
        factory(c.out);
        for (int i = 0; i < c.ins; ++i) {
            src.push_back(std::make_unique<Channel>("src" + std::to_string(i), "push", f[c.in]));
            MC_CHECK(src.back()->Connect("tcp://127.0.0.1:" + std::to_string(5000 + i)), "connect");
        }
        dst.resize(c.outs.size());
        for (size_t k = 0; k < c.outs.size(); ++k) for (int j = 0; j < c.outs[k]; ++j) {
            dst[k].push_back(std::make_unique<Channel>("dst" + std::to_string(k) + "x" + std::to_string(j), "pull", f[c.out]));
            MC_CHECK(dst[k].back()->Connect(out(k, j)), "connect");
        }
    }
    // three shapes
    Content make(int shape)
    {
        char x = char('A' + number++ % 26);
        auto part = [&](int n) { return std::string(n, x); };
        if (!c.multi) return {part(shape == 0 ? 5 : shape == 1 ? 0 : 300)};
        if (shape == 0) return {part(5)};
        if (shape == 1) return {part(0)};
        return {part(3), part(0), part(70)};
    }
    void send(int in, int shape)
    {
        Content m;
        { mc::Quiet q; m = make(shape); sent[in].push_back(m); order.push_back(m); log += " " + std::to_string(in) + show(m); }
        auto msg = [&](const std::string& s) { auto p = src[in]->NewMessage(s.size()); if (!s.empty()) memcpy(p->GetData(), s.data(), s.size()); return p; };
        if (c.multi) {
            Parts p;
            for (auto& s : m) p.AddPart(msg(s));
            MC_CHECK(src[in]->Send(p) >= 0, "send");
        } else {
            auto p = msg(m[0]);
            MC_CHECK(src[in]->Send(p) >= 0, "send");
        }
    }
    void* sock(int k, int j) { return fakezmq::find("peer.dst" + std::to_string(k) + "x" + std::to_string(j) + ".pull"); }
    size_t arrived()
    {
        size_t n = 0;
        for (size_t k = 0; k < c.outs.size(); ++k) for (int j = 0; j < c.outs[k]; ++j) n += fakezmq::queued(sock(k, j));
        return n;
    }
    size_t inputs() { size_t n = 0; for (int i = 0; i < c.ins; ++i) n += fakezmq::queued(fakezmq::find("dev.in[" + std::to_string(i) + "].pull")); return n; }
    size_t expected()
    {
        size_t n = order.size(), outs = 0;
        for (int j : c.outs) outs += j;
        return c.kind == MULTIPLIER ? n * outs : c.kind == SINK ? 0 : n;
    }
    // takes what arrived at the outputs
    void collect()
    {
        for (size_t k = 0; k < c.outs.size(); ++k) for (int j = 0; j < c.outs[k]; ++j) {
            auto text = [](Message& m) { return std::string(static_cast<char*>(m.GetData()), m.GetSize()); };
            for (;;) {
                { mc::Quiet q; if (!fakezmq::queued(sock(k, j))) break; }
                Content m;
                if (c.multi) {
                    Parts p;
                    MC_CHECK(dst[k][j]->Receive(p, 0) >= 0, "receive");
                    for (size_t x = 0; x < p.Size(); ++x) { mc::Quiet q; m.push_back(text(p.AtRef(x))); }
                } else {
                    auto p = dst[k][j]->NewMessage();
                    MC_CHECK(dst[k][j]->Receive(p, 0) >= 0, "receive");
                    m.push_back(text(*p));
                }
                mc::Quiet q;
                got[k][j].push_back(m);
            }
        }
    }
    // could the sequence be made of the inputs' messages, each input's in order, dropping at most the last few of each input?
    bool interleaves(const std::vector<Content>& seq, size_t n, std::vector<size_t>& at)
    {
        if (n == seq.size()) return true;
        for (int i = 0; i < c.ins; ++i) {
            if (at[i] >= sent[i].size() || sent[i][at[i]] != seq[n]) continue;
            ++at[i];
            if (interleaves(seq, n + 1, at)) return true;
            --at[i];
        }
        return false;
    }
    // whole: everything must have been forwarded
    void check(bool whole, int first)
    {
        mc::Quiet q;
        std::string what = std::string(kKind[c.kind]) + log + " ->";
        for (auto& k : got) for (auto& j : k) what += " [" + show(j) + "]";
        auto verify = [&](const std::vector<Content>& seq, const char* name) {
            std::vector<size_t> at(c.ins, 0);
            MC_CHECK(interleaves(seq, 0, at), "%s is not an interleaving of the inputs: %s", name, what.c_str());
            if (whole) for (int i = 0; i < c.ins; ++i) MC_CHECK(at[i] == sent[i].size(), "messages missing at %s: %s", name, what.c_str());
        };
        switch (c.kind) {
            case MERGER:
            case PROXY: verify(got[0][0], "the output"); break;
            case SPLITTER: {
                int n = c.outs[0];
                std::vector<Content> seq;
                size_t total = 0;
                for (auto& j : got[0]) total += j.size();
                std::vector<size_t> at(n, 0);
                for (size_t m = 0; m < total; ++m) {
                    int j = int((first + m) % n);
                    MC_CHECK(at[j] < got[0][j].size(), "outputs do not rotate: %s", what.c_str());
                    seq.push_back(got[0][j][at[j]++]);
                }
                verify(seq, "the outputs in rotation");
                break;
            }
            case MULTIPLIER: {
                size_t lo = SIZE_MAX, hi = 0;
                const std::vector<Content>* longest = nullptr;
                for (auto& k : got) for (auto& j : k) { lo = std::min(lo, j.size()); if (j.size() >= hi) { hi = j.size(); longest = &j; } }
                MC_CHECK(whole ? lo == hi : hi - lo <= 1, "outputs differ: %s", what.c_str());
                for (auto& k : got) for (auto& j : k) MC_CHECK(std::equal(j.begin(), j.end(), longest->begin()), "outputs differ: %s", what.c_str());
                verify(*longest, "the outputs");
                break;
            }
            default: {
                std::ifstream in(file, std::ios::binary);
                std::stringstream s;
                s << in.rdbuf();
                std::string have = s.str(), want;
                for (auto& m : order) for (auto& p : m) want += p;
                if (whole) MC_CHECK(have == want, "%zu bytes in the file, expected %zu%s: %s", have.size(), want.size(), have.size() == want.size() ? " others" : "", what.c_str());
                else MC_CHECK(want.compare(0, have.size(), have) == 0, "wrong bytes in the file: %s", what.c_str());
                break;
            }
        }
        mc::outcome(what);
        mc::transition();
    }
    void next()
    {
        mc::Quiet q;
        for (auto& s : sent) s.clear();
        order.clear();
        for (auto& k : got) for (auto& j : k) j.clear();
        log += " |";
    }
    // onReady: called when READY is reached, gives the transition
    void start(const std::function<T(int)>& onReady)
    {
        d->SubscribeToStateChange("driver", [this, onReady, visits = 0, over = false](S s) mutable {
            static const std::map<S, T> go{{S::InitializingDevice, T::CompleteInit}, {S::Initialized, T::Bind}, {S::Bound, T::Connect}};
            T t = T::Auto;
            auto i = go.find(s);
            if (i != go.end()) t = i->second;
            if (s == S::Idle) t = over ? T::End : T::InitDevice;
            if (s == S::DeviceReady) t = over ? T::ResetDevice : T::InitTask;
            if (s == S::Ready) { t = onReady(visits++); if (t == T::End) { over = true; t = T::ResetTask; } }
            if (t != T::Auto) MC_CHECK(d->ChangeState(t), "%s refused in %s", name(t).c_str(), name(s).c_str());
            track.push(s);
        });
        t = std::thread([this] { try { d->RunStateMachine(); } catch (std::exception&) { threw = true; } });
    }
    int runs() { int n = 0; for (S s : track.seen) n += s == S::Running; return n; }
    bool over() { return !track.seen.empty() && (track.seen.back() == S::Exiting || track.seen.back() == S::Error); }
};
const std::string Z = "zeromq", M = "shmem";
std::vector<Config> configs(Kind k)
{
    std::vector<Config> v;
    for (bool multi : {false, true}) for (auto& d : {Z, M}) for (auto& i : {Z, M}) for (auto& o : {Z, M}) switch (k) {
        case MERGER: for (int n : {1, 2, 3}) v.push_back({k, n, {1}, multi, d, i, o}); break;
        case SPLITTER: for (int n : {1, 2}) for (int m : {1, 2, 3}) v.push_back({k, n, {m}, multi, d, i, o}); break;
        case MULTIPLIER: for (int n : {1, 2}) for (auto& m : std::vector<std::vector<int>>{{1}, {3}, {1, 1}, {2, 2}, {1, 2, 1}}) v.push_back({k, n, m, multi, d, i, o}); break;
        case PROXY: v.push_back({k, 1, {1}, multi, d, i, o}); break;
        default: if (o == Z) v.push_back({k, 1, {}, multi, d, i, o}); break;
    }
    return v;
}
// all distributions of up to n messages over the inputs, every shape, in one or two runs or after a new task initialization
void forward(Kind kind, int n)
{
    clean();
    auto cs = configs(kind);
    auto c = cs[mc::choose(int(cs.size()), "configuration")];
    int again = mc::choose(3, "then");       // nothing, another run, another task
    {
        World w(c);
        int carried = 0;
        int runs = 0, reset = 0;
        w.start([&](int visit) {
            if (visit == 0) w.connect();
            else if (!reset) {
                w.collect();
                w.check(true, carried);
                if (runs == 2 || !again) return T::End;
                carried += int(w.order.size());
                w.next();
                if (again == 2) { reset = 1; carried = 0; return T::ResetTask; }
            }
            reset = 0;
            ++runs;
            int m = mc::choose((runs == 1 ? n : mc::thorough() ? 2 : 1) + 1, "messages");
            for (int i = 0; i < m; ++i) { int k = w.c.ins > 1 ? mc::choose(w.c.ins, "input") : 0; w.send(k, mc::choose(3, "shape")); }
            return T::Run;
        });
        for (int r = 1; r <= 1 + (again > 0); ++r) {
            mc::block_until([&] { return w.over() || (w.runs() >= r && w.arrived() == w.expected() && !w.inputs()); }, -1, "all forwarded");
            if (w.over()) break;
            (void)w.d->ChangeState(T::Stop);
            mc::block_until([&] { return w.over() || w.runs() > r; }, -1, "next run");
        }
        w.t.join();
        MC_CHECK(!w.threw && w.d->GetCurrentState() == S::Exiting, "device ended in %s:%s", name(w.d->GetCurrentState()).c_str(), w.log.c_str());
    }
}
// messages arrive while the device runs, it is asked to stop at any moment: what was taken is at the outputs, the rest is still there
void stop(Config c, int n, bool late)
{
    clean();
    {
        World w(c);
        std::mutex gate;
        bool all = false;
        w.start([&](int visit) {
            std::lock_guard<std::mutex> g(gate);
            if (visit == 0) { w.connect(); return T::Run; }
            mc::block_until([&] { return all; }, -1, "sent");
            size_t left = w.inputs();
            w.collect();
            w.check(false, 0);
            mc::Quiet q;
            size_t outs = 0, at = 0;
            for (auto& k : w.got) for (auto& j : k) { ++outs; at += j.size(); }
            if (c.kind == SINK) {
                std::ifstream in(w.file, std::ios::binary);
                std::stringstream s;
                s << in.rdbuf();
                size_t bytes = 0, m = 0;
                for (; m < w.order.size() - left; ++m) for (auto& x : w.order[m]) bytes += x.size();
                MC_CHECK(s.str().size() == bytes, "sink took %zu messages (%zu bytes) and wrote %zu bytes", m, bytes, s.str().size());
            } else MC_CHECK(at == (w.order.size() - left) * (c.kind == MULTIPLIER ? outs : 1), "%s: %zu messages sent, %zu still there, %zu at the outputs:%s", kKind[c.kind], w.order.size(), left, at, w.log.c_str());
            return T::End;
        });
        MC_CHECK(w.track.until(S::Running), "no run");
        { std::lock_guard<std::mutex> g(gate); }
        for (int i = 0; i < n; ++i) w.send(i % c.ins, (i * 2) % 3);
        { mc::Quiet q; all = true; }
        if (late) mc::block_until([&] { return w.over() || (w.arrived() == w.expected() && !w.inputs()); }, -1, "all forwarded");
        (void)w.d->ChangeState(T::Stop);
        w.t.join();
        MC_CHECK(!w.threw && w.d->GetCurrentState() == S::Exiting, "device ended in %s:%s", name(w.d->GetCurrentState()).c_str(), w.log.c_str());
    }
}
// a sink or a sampler with a maximum number of messages handles exactly that many in each run
void limited(bool sampler, int max)
{
    clean();
    bool multi = mc::flag("multi-part");
    auto tr = mc::flag("shmem") ? M : Z;
    auto o = options();
    std::unique_ptr<Device> d;
    if (sampler) d = std::make_unique<BenchmarkSampler>();
    else d = std::make_unique<Sink>();
    int n = mc::choose(max, "maximum") + 1, runs = mc::choose(3, "runs") + 1, size = mc::choose(3, "size") * 50, parts = mc::choose(3, "parts") + 1;
    bool again = mc::flag("task initialized again");
    std::string file;
    {
        mc::Quiet q;
        add(*o, {"ch", sampler ? "push" : "pull", "bind", "tcp://127.0.0.1:5000", tr, 0, {{"rateLogging", 0}}, false});
        const char* s = getenv("MC_SCRATCH");
        if (!sampler) file = std::string(s ? s : "/tmp") + "/sink." + std::to_string(getpid());
        Properties p;
        p["transport"] = std::string(Z);
        p["multipart"] = bool(multi);
        p["in-channel"] = std::string("ch");
        p["out-channel"] = std::string("ch");
        p["max-iterations"] = uint64_t(n);
        p["max-file-size"] = uint64_t(0);
        p["out-filename"] = file;
        p["memset"] = true;
        p["num-parts"] = size_t(parts);
        p["msg-size"] = size_t(size);
        p["msg-alignment"] = size_t(0);
        p["msg-rate"] = float(0);
        o->SetProperties(p);
    }
    d->SetConfig(*o);
    std::unique_ptr<Channel> peer;
    std::shared_ptr<TransportFactory> f;
    int round = 0;
    bool over = false, fresh = true;
    auto queued = [&] { return sampler ? fakezmq::queued(fakezmq::find("peer.peer.pull")) : fakezmq::queued(fakezmq::find("dev.ch[0].pull")); };
    auto fill = [&] {
        for (int i = 0; i < n + 2; ++i) {
            auto msg = [&] { auto m = peer->NewMessage(size); if (size) memset(m->GetData(), 'a' + i, size); return m; };
            if (multi) { Parts p; for (int k = 0; k < parts; ++k) p.AddPart(msg()); MC_CHECK(peer->Send(p) >= 0, "send"); }
            else { auto m = msg(); MC_CHECK(peer->Send(m) >= 0, "send"); }
        }
    };
    auto drain = [&] {
        int k = 0;
        while (queued()) {
            if (multi) {
                Parts p;
                MC_CHECK(peer->Receive(p, 0) >= 0, "receive");
                MC_CHECK(int(p.Size()) == parts, "sampler sent %zu parts, %d configured", p.Size(), parts);
                for (auto& m : p) MC_CHECK(int(m->GetSize()) == size, "sampler sent %zu bytes, %d configured", m->GetSize(), size);
            } else {
                auto m = peer->NewMessage();
                MC_CHECK(peer->Receive(m, 0) >= 0, "receive");
                MC_CHECK(int(m->GetSize()) == size, "sampler sent %zu bytes, %d configured", m->GetSize(), size);
            }
            ++k;
        }
        return k;
    };
    d->SubscribeToStateChange("driver", [&](S s) {
        static const std::map<S, T> go{{S::InitializingDevice, T::CompleteInit}, {S::Initialized, T::Bind}, {S::Bound, T::Connect}};
        T t = T::Auto;
        auto i = go.find(s);
        if (i != go.end()) t = i->second;
        if (s == S::Idle) t = over ? T::End : T::InitDevice;
        if (s == S::DeviceReady) t = over ? T::ResetDevice : T::InitTask;
        if (s == S::Ready) {
            t = T::Run;
            if (!peer) {
                f = TransportFactory::CreateTransportFactory(tr, "peer", o.get());
                peer = std::make_unique<Channel>("peer", sampler ? "pull" : "push", f);
                MC_CHECK(peer->Connect("tcp://127.0.0.1:5000"), "connect");
                if (!sampler) fill();
                fresh = false;
            } else if (!fresh) {
                ++round;
                mc::transition();
                if (sampler) {
                    int k = drain();
                    MC_CHECK(k == n, "sampler sent %d messages in run %d, the maximum is %d", k, round, n);
                } else {
                    int k = n + 2 - int(queued());
                    MC_CHECK(k == n, "sink took %d messages in run %d, the maximum is %d", k, round, n);
                    std::ifstream in(file, std::ios::binary);
                    std::stringstream ss;
                    ss << in.rdbuf();
                    std::string want;
                    static int from;
                    if (round == 1) from = 0;
                    for (int m = 0; m < n; ++m) want += std::string(size * (multi ? parts : 1), char('a' + (from + m) % (n + 2)));
                    from = (from + n) % (n + 2);
                    MC_CHECK(ss.str() == want, "run %d of the sink wrote %zu bytes, expected %zu", round, ss.str().size(), want.size());
                    // top up
                    for (int m = 0; m < n; ++m) {
                        char c = char('a' + (from + 2 + m) % (n + 2));
                        auto msg = [&] { auto x = peer->NewMessage(size); if (size) memset(x->GetData(), c, size); return x; };
                        if (multi) { Parts p; for (int q = 0; q < parts; ++q) p.AddPart(msg()); MC_CHECK(peer->Send(p) >= 0, "send"); }
                        else { auto x = msg(); MC_CHECK(peer->Send(x) >= 0, "send"); }
                    }
                }
                if (round == runs) { over = true; t = T::ResetTask; }
                else if (again) { fresh = true; t = T::ResetTask; }
            } else fresh = false;
        }
        if (t != T::Auto) MC_CHECK(d->ChangeState(t), "%s refused in %s", name(t).c_str(), name(s).c_str());
    });
    d->RunStateMachine();
    mc::outcome(std::to_string(n) + " " + std::to_string(runs));
    if (!file.empty()) unlink(file.c_str());
}
// bytes that cannot be written are reported
void full()
{
    clean();
    auto o = options();
    Sink d;
    int n = mc::choose(3, "messages") + 1, size = 1 << (mc::choose(4, "size") * 5);
    {
        mc::Quiet q;
        add(*o, {"ch", "pull", "bind", "tcp://127.0.0.1:5000", Z, 0, {{"rateLogging", 0}}, false});
        Properties p;
        p["transport"] = std::string(Z);
        p["multipart"] = false;
        p["in-channel"] = std::string("ch");
        p["max-iterations"] = uint64_t(0);
        p["max-file-size"] = uint64_t(n * size);
        p["out-filename"] = std::string("/dev/full");
        o->SetProperties(p);
    }
    d.SetConfig(*o);
    std::unique_ptr<Channel> peer;
    std::shared_ptr<TransportFactory> f;
    bool ran = false, threw = false;
    d.SubscribeToStateChange("driver", [&](S s) {
        static const std::map<S, T> go{{S::Idle, T::InitDevice}, {S::InitializingDevice, T::CompleteInit}, {S::Initialized, T::Bind}, {S::Bound, T::Connect}, {S::DeviceReady, T::InitTask}, {S::Ready, T::Run}};
        if (s == S::Ready) {
            MC_CHECK(!ran, "%d bytes that could not be written were not reported", n * size);
            ran = true;
            f = TransportFactory::CreateTransportFactory(Z, "peer", o.get());
            peer = std::make_unique<Channel>("peer", "push", f);
            MC_CHECK(peer->Connect("tcp://127.0.0.1:5000"), "connect");
            for (int i = 0; i < n; ++i) { auto m = peer->NewMessage(size); memset(m->GetData(), 1, size); MC_CHECK(peer->Send(m) >= 0, "send"); }
        }
        auto i = go.find(s);
        if (i != go.end()) MC_CHECK(d.ChangeState(i->second), "%s refused", name(i->second).c_str());
    });
    try { d.RunStateMachine(); } catch (std::exception&) { threw = true; }
    MC_CHECK(threw && d.GetCurrentState() == S::Error, "device ended in %s", name(d.GetCurrentState()).c_str());
    mc::transition();
}
}   // namespace

int main(int argc, char** argv)
{
    using mc::Opts;
    using mc::Scenario;
    std::vector<Scenario> v;
    auto seq = [&](std::string n, std::string w, std::function<void()> b, double weight) { Opts o; o.preemptions = 0; o.preemptions_thorough = 1; o.delays = true; o.early_timeouts = false; o.max_steps = 60000; o.weight = weight; v.push_back({n, w, b, o}); };
    for (int k = 0; k < NKINDS; ++k) seq(kKind[k], "every arrival order, shape of message, number of inputs and outputs, transports", [k] { forward(Kind(k), mc::thorough() ? 4 : (k == PROXY || k == SINK ? 3 : 2)); }, 2);
    auto one = [&](std::string n, std::string w, std::function<void()> b, double weight) { Opts o; o.preemptions = o.preemptions_thorough = 0; o.in_main = true; o.max_steps = 60000; o.weight = weight; v.push_back({n, w, b, o}); };
    one("sink_limit", "every maximum, number of runs, message size and number of parts", [] { limited(false, 3); }, 1);
    one("sampler_limit", "the same for the sampler", [] { limited(true, 3); }, 1);
    one("sink_full", "the file system is full", full, 0.5);
    auto sch = [&](std::string n, std::string w, std::function<void()> b, double weight) { Opts o; o.preemptions = n.find("_parts") != std::string::npos ? 3 : 1; o.preemptions_thorough = o.preemptions + 1; o.early_timeouts = false; o.max_steps = 60000; o.weight = weight; v.push_back({n, w, b, o}); };
    for (bool late : {false, true}) for (auto& c : std::vector<Config>{{MERGER, 2, {1}, true, Z, Z, Z}, {MERGER, 2, {1}, false, Z, M, Z}, {SPLITTER, 1, {2}, true, Z, Z, Z}, {SPLITTER, 2, {2}, false, M, M, M}, {MULTIPLIER, 1, {1, 2}, true, Z, Z, Z}, {MULTIPLIER, 1, {2}, false, M, M, Z}, {PROXY, 1, {1}, true, Z, Z, Z}, {PROXY, 1, {1}, false, Z, Z, M}, {SINK, 1, {}, true, Z, Z, Z}, {SINK, 1, {}, false, M, M, Z}})
        sch(std::string(kKind[c.kind]) + (c.multi ? "_parts" : "_msg") + (late ? "_all" : "_early"), "messages arrive while the device runs; it is stopped " + std::string(late ? "when all are forwarded" : "at any moment"), [c, late] { stop(c, 3, late); }, 0.4);
    return mc::run(argc, argv, v);
}
