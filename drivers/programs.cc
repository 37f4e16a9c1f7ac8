// C39: the programs of the stock devices (their real main functions and options), from the command line to
// what arrives at their peers
#define DEVICE_MAIN
#include "device.h"
#include <algorithm>
#include <boost/program_options.hpp>
#include <csignal>
#include <cstring>
#include <fairmq/DeviceRunner.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/devices/BenchmarkSampler.h>
#include <fairmq/devices/Merger.h>
#include <fairmq/devices/Multiplier.h>
#include <fairmq/devices/Proxy.h>
#include <fairmq/devices/Sink.h>
#include <fairmq/devices/Splitter.h>
#include <fstream>
#include <sstream>
#include <unistd.h>

#define PROGRAM(p) main_##p
#define main main_sampler
#define getDevice device_sampler
#define addCustomOptions options_sampler
#include <fairmq/devices/runBenchmarkSampler.cxx>
#undef main
#undef getDevice
#undef addCustomOptions
#undef FAIR_MQ_RUNDEVICE_H
#define main main_merger
#define getDevice device_merger
#define addCustomOptions options_merger
#include <fairmq/devices/runMerger.cxx>
#undef main
#undef getDevice
#undef addCustomOptions
#undef FAIR_MQ_RUNDEVICE_H
#define main main_multiplier
#define getDevice device_multiplier
#define addCustomOptions options_multiplier
#include <fairmq/devices/runMultiplier.cxx>
#undef main
#undef getDevice
#undef addCustomOptions
#undef FAIR_MQ_RUNDEVICE_H
#define main main_proxy
#define getDevice device_proxy
#define addCustomOptions options_proxy
#include <fairmq/devices/runProxy.cxx>
#undef main
#undef getDevice
#undef addCustomOptions
#undef FAIR_MQ_RUNDEVICE_H
#define main main_sink
#define getDevice device_sink
#define addCustomOptions options_sink
#include <fairmq/devices/runSink.cxx>
#undef main
#undef getDevice
#undef addCustomOptions
#undef FAIR_MQ_RUNDEVICE_H
#define main main_splitter
#define getDevice device_splitter
#define addCustomOptions options_splitter
#include <fairmq/devices/runSplitter.cxx>
#undef main
#undef getDevice
#undef addCustomOptions

using namespace dv;
using Args = std::vector<std::string>;
namespace fair::mq::tools {      // stand-in, there is nothing random
std::string Uuid() { return "0000-0000"; }
std::size_t UuidHash() { return 1; }
}

namespace {
using Content = std::vector<std::string>;          // parts of a message
void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
std::string text(const Args& a) { std::string r; for (auto& s : a) r += " " + s; return r; }
std::string show(const Content& c) { std::string s = "("; for (auto& p : c) s += (p.empty() ? "-" : std::string(1, p[0]) + std::to_string(p.size())) + " "; return s + ")"; }
std::string show(const std::vector<Content>& v) { std::string s; for (auto& c : v) s += show(c); return s; }

struct Program
{
    int (*main)(int, char**);
    std::vector<std::string> args{"program", "--control", "static", "--id", "d", "--session", "programs", "--shm-segment-size", "8000000", "--shm-monitor", "false"};
    std::string transport = "zeromq";
    std::unique_ptr<ProgOptions> o;
    std::shared_ptr<TransportFactory> f;
    std::vector<std::unique_ptr<Channel>> peers;
    std::vector<std::string> names;
    std::thread t;
    int code = -1;
    bool ended = false, form = false, defaults = false;
    std::string what;

    explicit Program(int (*m)(int, char**)) : main(m)
    {
        clean();
        if (mc::flag("transport")) transport = "shmem";
        form = mc::flag("form");
        defaults = mc::flag("defaults are given");
        if (mc::flag("as default")) { args.push_back("--transport"); args.push_back(transport); where = ""; } else where = ",transport=" + transport;
    }
    std::string where;
    void opt(const std::string& n, const std::string& v)
    {
        mc::Quiet q;
        if (form) args.push_back("--" + n + "=" + v);
        else { args.push_back("--" + n); args.push_back(v); }
    }
    // a channel of the program with n sockets, and a peer for each; returns the first peer
    int channel(const std::string& n, const std::string& type, int sockets = 1)
    {
        if (!o) {
            o = options("peer", "programs");
            { mc::Quiet q; Properties p; p["shm-segment-size"] = size_t(8000000); p["transport"] = transport; o->SetProperties(p); }
            f = TransportFactory::CreateTransportFactory(transport, "peer", o.get());
        }
        int first = int(peers.size());
        std::string v = "name=" + n + ",type=" + type + ",method=connect" + where + ",rateLogging=0";
        for (int i = 0; i < sockets; ++i) {
            std::string a = "tcp://127.0.0.1:" + std::to_string(6000 + peers.size());
            v += ",address=" + a;
            std::string pt = type == "push" ? "pull" : "push", name = "p" + std::to_string(peers.size());
            auto c = std::make_unique<Channel>(name, pt, f);
            MC_CHECK(c->Bind(a), "bind");
            peers.push_back(std::move(c));
            names.push_back("peer." + name + "." + pt);
        }
        mc::Quiet q;
        args.push_back("--channel-config");
        args.push_back(v);
        return first;
    }
    void start()
    {
        { mc::Quiet q; what = text(args); }
        t = std::thread([this] {
            std::vector<char*> v;
            { mc::Quiet q; for (auto& s : args) v.push_back(s.data()); v.push_back(nullptr); }
            int r = main(int(args.size()), v.data());
            mc::Quiet q;
            code = r;
            ended = true;
        });
    }
    bool must_ = true;                        // the program takes what is sent
    void must(bool ok) { MC_CHECK(ok || !must_, "send"); }
    void send(int p, const Content& m, bool multi)
    {
        Channel& c = *peers[size_t(p)];
        auto msg = [&](const std::string& s) { auto x = c.NewMessage(s.size()); if (!s.empty()) memcpy(x->GetData(), s.data(), s.size()); return x; };
        if (multi) {
            Parts x;
            for (auto& s : m) x.AddPart(msg(s));
            must(c.Send(x, must_ ? -1 : 500) >= 0);
        } else {
            auto x = msg(m[0]);
            must(c.Send(x, must_ ? -1 : 500) >= 0);
        }
    }
    size_t queued(int p) { mc::Quiet q; return fakezmq::queued(fakezmq::find(names[size_t(p)])); }
    // takes the messages that have arrived
    std::vector<Content> take(int p, bool multi, const std::function<void(Message&)>& look = {})
    {
        std::vector<Content> r;
        while (queued(p)) {
            Content c;
            auto part = [&](Message& m) { if (look) look(m); mc::Quiet q; c.emplace_back(static_cast<char*>(m.GetData()), m.GetSize()); };
            if (multi) {
                Parts x;
                MC_CHECK(peers[size_t(p)]->Receive(x, 0) >= 0, "receive");
                for (size_t i = 0; i < x.Size(); ++i) part(x.AtRef(i));
            } else {
                auto m = peers[size_t(p)]->NewMessage();
                MC_CHECK(peers[size_t(p)]->Receive(m, 0) >= 0, "receive");
                part(*m);
            }
            r.push_back(c);
        }
        return r;
    }
    void stop()
    {
        MC_CHECK(!ended, "%s: the program ended by itself, exit code %d", what.c_str(), code);
        std::raise(mc::flag("SIGINT") ? SIGINT : SIGTERM);
    }
    void finish()
    {
        t.join();
        MC_CHECK(code == 0, "%s: exit code %d", what.c_str(), code);
        peers.clear();
        f.reset();
        o.reset();
        mc::transition();
        mc::state(mc::hash_str(what));
        mc::outcome(what);
        mc::trace_validated();
    }
};
const Content kSingles[] = {{"a"}, {""}, {std::string(300, 'c')}};
const Content kMultis[] = {{"a"}, {"", "bb"}, {std::string(300, 'c'), "d", std::string(7, 'e')}};

// an option given, or left to its default
std::string given(Program& p, const std::string& n, const std::string& deflt, const std::string& other)
{
    bool o = mc::flag("not the default");
    if (o || p.defaults) p.opt(n, o ? other : deflt);
    return o ? other : deflt;
}
bool given(Program& p, const std::string& n, bool deflt) { return given(p, n, deflt ? "true" : "false", deflt ? "false" : "true") == "true"; }

enum Kind { MERGER, SPLITTER, PROXY, MULTIPLIER };
void forwarder(Kind k)
{
    Program p(k == MERGER ? main_merger : k == SPLITTER ? main_splitter : k == PROXY ? main_proxy : main_multiplier);
    {
        int before = mc::flag("options first");
        std::string in = "data-in", out = "data-out";
        bool multi = true;
        Args rest;
        auto opts = [&] {
            in = given(p, "in-channel", in, "name-of-the-input");
            if (k != MULTIPLIER) out = given(p, "out-channel", out, "name-of-the-output");
            multi = given(p, "multipart", multi);
        };
        if (before) opts();
        size_t split = p.args.size();
        int ins = 1, outs = 1;
        if (!before) { opts(); rest.assign(p.args.begin() + long(split), p.args.end()); p.args.resize(split); }
        if (k == MERGER) ins = 2;
        if (k == SPLITTER || k == MULTIPLIER) outs = 2;
        int i0 = p.channel(in, "pull", ins), o0;
        if (k == MULTIPLIER) {
            o0 = p.channel("m1", "push", 1);
            p.channel("m2", "push", 2);
            outs = 3;
            for (auto s : {"--out-channel", "m1", "m2"}) rest.push_back(s);
        } else o0 = p.channel(out, "push", outs);
        p.args.insert(p.args.end(), rest.begin(), rest.end());
        p.start();
        std::vector<std::vector<Content>> want(static_cast<size_t>(outs));
        std::vector<Content> all;
        int n = 0;
        for (int r = 0; r < 3; ++r) {
            const Content& m = (multi ? kMultis : kSingles)[r];
            p.send(i0 + r % ins, m, multi);
            ms(300);
            mc::Quiet q;
            if (k == MULTIPLIER) for (auto& w : want) w.push_back(m);
            else want[size_t(n++ % outs)].push_back(m);
        }
        ms(300);
        for (int j = 0; j < outs; ++j) {
            auto got = p.take(o0 + j, multi);
            MC_CHECK(got == want[size_t(j)], "%s: output %d got %s, expected %s", p.what.c_str(), j, show(got).c_str(), show(want[size_t(j)]).c_str());
        }
        p.stop();
    }
    p.finish();
}
void sampler()
{
    Program p(main_sampler);
    std::string out = given(p, "out-channel", "data", "samples");
    bool multi = given(p, "multipart", false);
    size_t parts = size_t(std::stoul(given(p, "num-parts", "1", "3")));
    size_t size = size_t(std::stoul(given(p, "msg-size", "1000000", "700")));
    bool zero = given(p, "memset", false);
    size_t align = size_t(std::stoul(given(p, "msg-alignment", "0", "128")));
    int n = 1 + mc::choose(2, "max-iterations");
    p.opt("max-iterations", std::to_string(n));
    int i = p.channel(out, "push");
    { auto dirty = p.f->CreateMessage(4000000); memset(dirty->GetData(), 'x', 4000000); }
    p.start();
    std::vector<Content> got;
    for (int r = 0; r < 12 && int(got.size()) < n; ++r) {
        ms(200);
        for (auto& m : p.take(i, multi, [&](Message& x) {
            auto* d = static_cast<char*>(x.GetData());
            if (p.transport == "shmem" && align) MC_CHECK(reinterpret_cast<uintptr_t>(d) % align == 0, "%s: not aligned", p.what.c_str());
            if (zero) MC_CHECK(std::all_of(d, d + x.GetSize(), [](char b) { return b == 0; }), "%s: not zero", p.what.c_str());
            if (x.GetSize()) memset(d, '0', x.GetSize());
        })) got.push_back(m);
    }
    std::vector<Content> want(size_t(n), Content(multi ? parts : 1, std::string(size, '0')));
    MC_CHECK(got == want, "%s: got %s, expected %s", p.what.c_str(), show(got).c_str(), show(want).c_str());
    p.finish();
    mc::Quiet q;
}
// without a limit, with and without a rate
void samplerEndless()
{
    Program p(main_sampler);
    p.opt("msg-size", "100");
    bool rate = mc::flag("rate");
    if (rate) p.opt("msg-rate", "10");
    if (mc::flag("limit")) p.opt("max-iterations", "0");
    int i = p.channel("data", "push");
    if (!rate) { p.peers[0].reset(); p.names.clear(); }        // nobody takes anything: the program waits
    p.start();
    ms(3000);
    if (rate) {
        size_t n = p.take(i, false).size();
        MC_CHECK(n >= 15 && n <= 40, "%s: %zu messages in 3 s", p.what.c_str(), n);
    }
    p.stop();
    p.finish();
}
void sink()
{
    Program p(main_sink);
    std::string in = given(p, "in-channel", "data", "y");
    bool multi = given(p, "multipart", false);
    long iterations = std::stol(given(p, "max-iterations", "0", "2"));
    size_t limit = std::stoul(given(p, "max-file-size", "2000000000", "301"));
    std::string file;
    if (mc::flag("file")) {
        const char* s = getenv("MC_SCRATCH");
        mc::Quiet q;
        file = std::string(s ? s : "/tmp") + "/sink39." + std::to_string(getpid());
        ::unlink(file.c_str());
        p.opt("out-filename", file);
    }
    int i = p.channel(in, "pull");
    p.start();
    std::string want;
    bool over = false;
    long n = 0;
    for (int r = 0; r < 4; ++r) {
        if (over) break;
        const Content& m = (multi ? kMultis : kSingles)[r == 3 ? 0 : r];
        p.send(i, m, multi);
        mc::Quiet q;
        for (auto& s : m) want += s;
        over = (iterations && ++n == iterations) || (!file.empty() && limit && want.size() >= limit);
    }
    ms(2500);
    if (!over) p.stop();
    p.finish();
    mc::Quiet q;
    if (file.empty()) return;
    std::ifstream f(file, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    ::unlink(file.c_str());
    MC_CHECK(s.str() == want, "%s: %zu bytes in the file, expected %zu", p.what.c_str(), s.str().size(), want.size());
}
// what it is told cannot be done: it says so by its exit code and ends
void wrong()
{
    static const struct { const char* name; int (*main)(int, char**); const char* type; std::vector<const char*> numbers; } kPrograms[] = {
        {"sampler", main_sampler, "push", {"num-parts", "msg-size", "msg-alignment", "max-iterations", "msg-rate"}}, {"sink", main_sink, "pull", {"max-iterations", "max-file-size"}},
        {"merger", main_merger, "pull", {}}, {"splitter", main_splitter, "pull", {}}, {"proxy", main_proxy, "pull", {}}, {"multiplier", main_multiplier, "pull", {}}};
    auto& k = kPrograms[mc::choose(6, "program")];
    Program p(k.main);
    p.must_ = false;
    bool in = k.main != main_sampler, fwd = in && k.main != main_sink;
    std::string ci = fwd ? "data-in" : "data", co = "data-out";
    int how = mc::choose(5, "wrong");       // input's (only channel's) name, output's, a truth value, a number, an output file
    if (how == 0) ci += "x";
    if (how == 1) { if (!fwd) { mc::abandon(); return; } co += "x"; }
    if (how == 2) p.opt("multipart", "maybe");
    if (how == 3) { if (k.numbers.empty()) { mc::abandon(); return; } p.opt(k.numbers[size_t(mc::choose(int(k.numbers.size()), "option"))], mc::flag("empty") ? "many" : "1x"); }
    if (how == 4) { if (k.main != main_sink) { mc::abandon(); return; } p.opt("out-filename", "/nonexistent/directory/file"); }
    p.channel(ci, k.type);
    if (fwd) p.channel(co, "push");
    if (k.main == main_multiplier) { mc::Quiet q; for (auto a : {"--out-channel", "data-out"}) p.args.push_back(a); }
    p.start();
    if (!(how == 0 || how == 4)) ms(1500);
    else if (in) { ms(1000); p.send(0, {"a"}, fwd); ms(1000); } else ms(2000);
    MC_CHECK(p.ended || how == 1, "%s: the program goes on", p.what.c_str());
    if (!p.ended) { p.send(0, {"a"}, fwd); ms(1000); MC_CHECK(p.ended, "%s: the program goes on", p.what.c_str()); }
    p.t.join();
    MC_CHECK(p.code == 1, "%s: exit code %d", p.what.c_str(), p.code);
    mc::outcome(std::string(k.name) + std::to_string(how));
}
}   // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Scenario> v;
    mc::Opts o;
    o.preemptions = 0;
    o.preemptions_thorough = 1;
    o.delays = true;
    o.early_timeouts = false;
    o.sched_atomics = false;
    o.fork_each = true;                                   // the program's signal handling is global
    o.max_steps = 200000;
    o.max_time_jumps = 4000;
    v.push_back({"sampler", "the sampler: every combination of options", sampler, o});
    v.push_back({"sampler_endless", "the sampler without a limit", samplerEndless, o});
    v.push_back({"sink", "the sink: every combination of options", sink, o});
    v.push_back({"wrong", "options that cannot be obeyed", wrong, o});
    static const struct { const char* n; Kind k; } kinds[] = {{"merger", MERGER}, {"splitter", SPLITTER}, {"proxy", PROXY}, {"multiplier", MULTIPLIER}};
    for (auto& k : kinds) v.push_back({k.n, "every combination of options", [k] { forwarder(k.k); }, o});
    return mc::run(argc, argv, v);
}
