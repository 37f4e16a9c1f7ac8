// C11: what a device's channels are attached to
#define DEVICE_MAIN
#include "device.h"
#include <fairmq/tools/Network.h>
#include <cerrno>
#include <set>
using namespace dv;

namespace {
std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> v;
    size_t a = 0;
    for (size_t b; (b = s.find(',', a)) != std::string::npos; a = b + 1) v.push_back(s.substr(a, b - a));
    v.push_back(s.substr(a));
    return v;
}
// ---- reference: what a configuration asks for ---------------------------------------------------------
struct Want { bool bind; std::string address; bool attachable; };        // address as the transport gets it
struct Spec { bool valid = true, valid_later = true, determined = true; std::vector<Want> ends; };
const std::set<std::string> kTypes{"sub", "pub", "pull", "push", "req", "rep", "xsub", "xpub", "dealer", "router", "pair"};
Spec spec(const Chan& c)
{
    Spec s;
    bool okmethod = c.method == "bind" || c.method == "connect";
    if (!kTypes.count(c.type)) s.valid = s.valid_later = false;
    for (auto* k : {"sndBufSize", "rcvBufSize", "sndKernelSize", "rcvKernelSize", "rateLogging"}) { auto i = c.more.find(k); if (i != c.more.end() && i->second < 0) s.valid = s.valid_later = false; }
    if (c.name.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_[]#") != std::string::npos) s.valid = s.valid_later = false;
    if (c.address.empty() || c.address == "unspecified") { s.valid = false; return s; }
    for (auto& e : split(c.address)) {
        bool mod = !e.empty() && (e[0] == '@' || e[0] == '+' || e[0] == '>');
        if (!mod && !okmethod) s.valid = false;
        std::string a = mod ? e.substr(1) : e;
        bool bind = mod ? e[0] == '@' : c.method == "bind";
        bool at = true;
        if (a.rfind("tcp://", 0) == 0) {
            size_t p = a.find(':', 6);
            if (p == std::string::npos) s.valid = false;
            else {
                std::string host = a.substr(6, p - 6), port = a.substr(p + 1);
                if (port.empty() || port.find_first_not_of("0123456789") != std::string::npos || port.size() > 5) at = bind && c.autobind;
                if (!(bind && host == "*")) {
                    auto i = hosts.find(host);
                    if (i == hosts.end() || i->second.empty()) at = false;
                    else a = "tcp://" + i->second + ":" + port;
                }
            }
        } else if (a.rfind("ipc://", 0) == 0) { if (a.size() == 6) s.valid = false; }
        else if (a.rfind("inproc://", 0) == 0) { if (a.size() == 9) s.valid = false; }
        else if (a.rfind("verbs://", 0) == 0) { if (a.size() == 8) s.valid = false; at = false; }
        else s.valid = false;
        s.ends.push_back({bind, a, at});
    }
    return s;
}
bool attachable(const Spec& s) { if (!s.valid) return false; for (auto& e : s.ends) if (!e.attachable) return false; return true; }
std::string show(const Chan& c)
{
    std::string r = c.name + "[" + std::to_string(c.index) + "] type '" + c.type + "' method '" + c.method + "' address '" + c.address + "'" + (c.autobind ? " autobind" : "") + " " + c.transport;
    for (auto& m : c.more) r += " " + m.first + "=" + std::to_string(m.second);
    return r;
}
int port(const std::string& a) { return std::atoi(a.substr(a.rfind(':') + 1).c_str()); }

// ---- a device driven from its own state change callback ----------------------------------------------
struct Machine
{
    std::unique_ptr<ProgOptions> o;
    std::unique_ptr<Dev> d;
    std::set<S> seen;
    std::set<Hook> hooks;
    bool threw = false;
    std::function<T(S)> next;
    explicit Machine(std::unique_ptr<ProgOptions> opts) : o(std::move(opts))
    {
        d = std::make_unique<Dev>(*o);
        d->on = [this](Hook h) { mc::Quiet q; hooks.insert(h); };
        d->SubscribeToStateChange("driver", [this](S s) {
            { mc::Quiet q; seen.insert(s); }
            mc::transition();
            T t = next(s);
            if (t != T::Auto) MC_CHECK(d->ChangeState(t), "%s refused in %s", name(t).c_str(), name(s).c_str());
        });
    }
    void run() { try { d->RunStateMachine(); } catch (std::exception&) { threw = true; } }
};
T forward(S s)      // to DeviceReady and home
{
    switch (s) {
        case S::InitializingDevice: return T::CompleteInit;
        case S::Initialized: return T::Bind;
        case S::Bound: return T::Connect;
        case S::DeviceReady: return T::ResetDevice;
        default: return T::Auto;
    }
}
std::string endpoint(ProgOptions& o, const Chan& c) { mc::Quiet q; return o.GetProperty<std::string>("chans." + c.name + "." + std::to_string(c.index) + ".address", std::string()); }

// every endpoint of c is attached once, as configured, and the configuration store tells where
void attached(Machine& m, const Chan& c, const Spec& s, const std::string& ctx)
{
    mc::Quiet q;
    // sockets are identified by device id, channel name and index
    std::string tag = "." + c.name + "[" + std::to_string(c.index) + "].";
    long sock = 0;
    for (auto& a : fakezmq::attaches) if (a.identity.find(tag) != std::string::npos) sock = a.serial;
    MC_CHECK(sock, "%s: never attached (%s)", show(c).c_str(), ctx.c_str());
    std::vector<fakezmq::Attach> ok;
    for (auto& a : fakezmq::attaches) if (a.serial == sock && a.rc == 0) ok.push_back(a);
    MC_CHECK(ok.size() == s.ends.size(), "%s: %zu endpoints attached instead of %zu (%s)", show(c).c_str(), ok.size(), s.ends.size(), ctx.c_str());
    auto stored = split(endpoint(*m.o, c));
    MC_CHECK(stored.size() == ok.size(), "%s: configuration store reports '%s'", show(c).c_str(), endpoint(*m.o, c).c_str());
    for (size_t i = 0; i < ok.size(); ++i) {
        auto& w = s.ends[i];
        MC_CHECK(ok[i].bind == w.bind, "%s: endpoint %zu is attached with %s", show(c).c_str(), i, ok[i].bind ? "bind" : "connect");
        std::string st = stored[i];
        if (!st.empty() && (st[0] == '@' || st[0] == '+' || st[0] == '>')) {
            MC_CHECK((st[0] == '@') == w.bind, "%s: configuration store reports '%s' for %s", show(c).c_str(), st.c_str(), w.bind ? "bind" : "connect");
            st = st.substr(1);
        } else {
            MC_CHECK((c.method == "bind") == w.bind, "%s: configuration store reports '%s', which would %s, for %s", show(c).c_str(), st.c_str(), c.method.c_str(), w.bind ? "bind" : "connect");
        }
        MC_CHECK(st == ok[i].address, "%s: configuration store reports '%s', attached to '%s'", show(c).c_str(), st.c_str(), ok[i].address.c_str());
        if (ok[i].address == w.address) continue;
        bool failedfirst = false;
        for (auto& a : fakezmq::attaches) if (a.serial == sock && a.bind && a.rc && a.address == w.address) failedfirst = true;
        MC_CHECK(w.bind && w.address.rfind("tcp:", 0) == 0 && c.autobind && failedfirst, "%s: endpoint %zu is attached to '%s' instead of '%s'", show(c).c_str(), i, ok[i].address.c_str(), w.address.c_str());
        MC_CHECK(ok[i].address.substr(0, ok[i].address.rfind(':')) == w.address.substr(0, w.address.rfind(':')), "%s: endpoint %zu is bound to '%s' instead of '%s'", show(c).c_str(), i, ok[i].address.c_str(), w.address.c_str());
        auto lo = c.more.find("portRangeMin"), hi = c.more.find("portRangeMax");
        int l = lo == c.more.end() ? 22000 : lo->second, h = hi == c.more.end() ? 23000 : hi->second;
        MC_CHECK(port(ok[i].address) >= l && port(ok[i].address) <= h, "%s: bound to port %d outside of %d-%d", show(c).c_str(), port(ok[i].address), l, h);
    }
    auto& ch = m.d->GetChannels().at(c.name).at(c.index);
    void* raw = fakezmq::find(ch.GetSocket().GetId());
    MC_CHECK(ch.GetType() == c.type && raw && fakezmq::serial(raw) == sock, "%s: channel and socket differ", show(c).c_str());
    for (auto& x : c.more) {
        static const std::map<std::string, int> opt{{"sndBufSize", ZMQ_SNDHWM}, {"rcvBufSize", ZMQ_RCVHWM}, {"sndKernelSize", ZMQ_SNDBUF}, {"rcvKernelSize", ZMQ_RCVBUF}, {"linger", ZMQ_LINGER}};
        auto i = opt.find(x.first);
        if (i != opt.end() && x.second) MC_CHECK(fakezmq::option(raw, i->second) == x.second, "%s: %s of the socket is %d", show(c).c_str(), x.first.c_str(), fakezmq::option(raw, i->second));
    }
}
void outcome(Machine& m, const std::vector<Chan>& cs, bool good, const std::string& ctx)
{
    std::string all;
    for (auto& c : cs) all += show(c) + "; ";
    all += ctx;
    if (good) {
        MC_CHECK(!m.threw && m.seen.count(S::DeviceReady) && m.d->GetCurrentState() == S::Exiting, "a device with fine channels ended in %s: %s", name(m.d->GetCurrentState()).c_str(), all.c_str());
    } else {
        MC_CHECK(m.threw && m.d->GetCurrentState() == S::Error && !m.seen.count(S::DeviceReady), "a device with %s ended in %s: %s", "unusable channels", m.seen.count(S::DeviceReady) ? "DEVICE READY" : name(m.d->GetCurrentState()).c_str(), all.c_str());
        MC_CHECK(!m.hooks.count(CONNECT), "a device with unusable channels called Connect: %s", all.c_str());
    }
    mc::outcome(good ? "ready" : "error");
}
void run(std::vector<Chan> cs, const std::function<bool()>& good, const std::string& ctx)
{
    clean();
    auto o = options();
    { mc::Quiet q; o->SetProperty("init-timeout", 1); }
    for (auto& c : cs) add(*o, c);
    {
        Machine m(std::move(o));
        bool home = false, ok = good();
        m.next = [&](S s) {
            if (s == S::Idle) return home ? T::End : T::InitDevice;
            if (s == S::DeviceReady) {
                home = true;
                for (auto& c : cs) {
                    Chan e = c;
                    if (c.address.empty() || c.address == "unspecified") e.address = "tcp://127.0.0.1:1";
                    attached(m, c, spec(e), ctx);
                }
            }
            return forward(s);
        };
        m.run();
        outcome(m, cs, ok, ctx);
        if (m.threw) return;
        MC_CHECK(fakezmq::open_sockets() == 0, "sockets left after the reset");
    }
}
// would InitWrapper already refuse it, or fill in the address?
bool fine(const Chan& c)
{
    Chan e = c;
    bool open = c.address.empty() || c.address == "unspecified";
    if (c.method == "bind" && open) e.address = "tcp://127.0.0.1:1";
    return attachable(spec(e));
}
const char* kAddr[] = {"tcp://127.0.0.1:5000", "tcp://*:5002", "tcp://localhost:5003", "tcp://unknown:5004", "tcp://127.0.0.1", "tcp://127.0.0.1:x", "ipc://x", "ipc://", "inproc://y", "inproc://", "verbs://a", "verbs://",
                       "@tcp://127.0.0.1:5005", "+tcp://127.0.0.1:5006", ">ipc://z", "@", "", "unspecified", "nonsense"};
const char* kMore[] = {"", "tcp://127.0.0.1:5007", "@tcp://127.0.0.1:5008", ">tcp://localhost:5009", "ipc://", "nonsense", "tcp://unknown:1"};
Chan any(bool options)
{
    static const char* methods[] = {"bind", "connect", "", "attach"};
    static const char* opts[] = {"", "sndBufSize", "rcvBufSize", "sndKernelSize", "rcvKernelSize", "rateLogging"};
    Chan c;
    c.name = "data";
    c.method = methods[mc::choose(4, "method")];
    c.type = mc::flag("bad type") ? "pulp" : "pull";
    c.address = kAddr[mc::choose(sizeof kAddr / sizeof *kAddr, "address")];
    if (options) {
        std::string o = opts[mc::choose(6, "option")];
        if (!o.empty()) { static const int val[] = {-1, 0, 7}; c.more[o] = val[mc::choose(3, "value")]; }
    } else {
        std::string m = kMore[mc::choose(sizeof kMore / sizeof *kMore, "second endpoint")];
        if (!m.empty()) c.address += "," + m;
    }
    return c;
}
void one(bool shm)
{
    Chan c = any(mc::flag("options"));
    c.transport = shm ? "shmem" : "zeromq";
    c.more["linger"] = 3;
    no_route = false;
    run({c}, [&] { return fine(c); }, "");
}
void two()
{
    static const char* methods[] = {"bind", "connect", "", "attach"};
    std::vector<Chan> cs;
    for (int i = 0; i < 2; ++i) {
        Chan c{i ? "other" : "data", i ? "push" : "sub", methods[mc::choose(i ? 2 : 4, "method")], kAddr[mc::choose(sizeof kAddr / sizeof *kAddr, "address")], i ? "shmem" : "zeromq", 0, {}, true};
        size_t p;
        if (i && (p = c.address.find(":500")) != std::string::npos) c.address.replace(p, 4, ":510");
        if (i && (p = c.address.find("inproc://y")) != std::string::npos) c.address += "2";
        if (i && (p = c.address.find("ipc://x")) != std::string::npos) c.address += "2";
        cs.push_back(c);
    }
    run(cs, [&] { return fine(cs[0]) && fine(cs[1]); }, "");
}
// Channel::Validate on its own
void validate()
{
    Chan c = any(mc::flag("options"));
    static const char* names[] = {"data", "da ta", "d.t", "", "a-Z_09#", "data[1]", "d:x", "dätä"};
    c.name = names[mc::choose(8, "name")];
    Spec s = spec(c);
    Channel ch(c.name, c.type, c.method, c.address, nullptr);
    for (auto& o : c.more) {
        if (o.first == "sndBufSize") ch.UpdateSndBufSize(o.second);
        if (o.first == "rcvBufSize") ch.UpdateRcvBufSize(o.second);
        if (o.first == "sndKernelSize") ch.UpdateSndKernelSize(o.second);
        if (o.first == "rcvKernelSize") ch.UpdateRcvKernelSize(o.second);
        if (o.first == "rateLogging") ch.UpdateRateLogging(o.second);
    }
    for (int k = 0; k < 2; ++k) {
        bool ok = false;
        try { ok = ch.Validate(); } catch (Channel::ChannelConfigurationError&) { ok = false; }
        MC_CHECK(ok == s.valid, "Channel::Validate reports %s for %s", ok ? "valid" : "invalid", show(c).c_str());
        MC_CHECK(ch.IsValid() == ok, "Channel::IsValid differs for %s", show(c).c_str());
    }
    // changes ask for a new validation
    if (s.valid) {
        switch (mc::choose(6, "update")) {
            case 0: ch.UpdateAddress("nonsense"); break;
            case 1: ch.UpdateType("pulp"); break;
            case 2: ch.UpdateSndBufSize(-1); break;
            case 3: ch.UpdateRcvBufSize(-1); break;
            case 4: ch.UpdateName("a b"); break;
            case 5: ch.UpdateRateLogging(-1); break;
        }
        bool ok = false;
        try { ok = ch.Validate(); } catch (Channel::ChannelConfigurationError&) { ok = false; }
        MC_CHECK(!ok && !ch.IsValid(), "an update made the channel invalid, but Channel::Validate still reports valid: %s", show(c).c_str());
    }
    mc::outcome(s.valid ? "valid" : "invalid");
}
// which ports are taken by others
void ports()
{
    int n = 1 + mc::choose(2, "sub-channels");
    int range = mc::flag("wide range") ? 3 : 1;
    bool autobind = mc::flag("autobind");
    static const char* forms[] = {"tcp://127.0.0.1:5000", "tcp://*:5000", "@tcp://localhost:5000", "", "tcp://127.0.0.1:5000,tcp://127.0.0.1:5001"};
    std::string form = forms[mc::choose(5, "address")];
    std::set<int> busy;
    for (int p : {1, 5000, 7000, 7001, 7002}) if (p < 7000 + range && mc::flag("port in use")) busy.insert(p);
    bool twice = mc::flag("both on the same port");
    std::vector<Chan> cs;
    for (int i = 0; i < n; ++i) {
        Chan c{"data", "pull", form[0] == '@' ? "" : "bind", form, i ? "shmem" : "zeromq", i, {{"portRangeMin", 7000}, {"portRangeMax", 7000 + range - 1}}, autobind};
        if (i == 1 && !twice) for (size_t p; (p = c.address.find(":500")) != std::string::npos;) c.address.replace(p, 4, ":510");
        cs.push_back(c);
    }
    if (form[0] == '@') for (auto& c : cs) c.method = "connect";    // the modifier wins
    auto good = [&] {
        fakezmq::bindfault = [&](const std::string& a) { return a.rfind("tcp://", 0) == 0 && busy.count(port(a)) ? EADDRINUSE : 0; };
        // ports are handed out in any order: it works if there are enough of them
        std::set<int> taken = busy;
        int free = 0;
        for (int p = 7000; p < 7000 + range; ++p) if (!taken.count(p)) ++free;
        for (auto& c : cs) {
            Chan e = c;
            if (e.address.empty()) e.address = "tcp://127.0.0.1:1";
            for (auto& w : spec(e).ends) if (!taken.insert(port(w.address)).second) { if (!autobind || free-- <= 0) return false; }
        }
        return true;
    };
    std::string ctx = "ports in use:";
    for (int p : busy) ctx += " " + std::to_string(p);
    run(cs, good, ctx);
}
// several channels, some of them fine
void several()
{
    std::vector<Chan> cs;
    static const std::pair<const char*, const char*> forms[] = {{"bind", "tcp://127.0.0.1:5000"}, {"connect", "tcp://127.0.0.1:5000"}, {"connect", "tcp://unknown:1"}, {"bind", "tcp://127.0.0.1:6666"}, {"connect", "@ipc://one,ipc://two,+tcp://*:1"}, {"bind", ""}, {"connect", ""}};
    static const std::pair<const char*, int> where[] = {{"a", 0}, {"a", 1}, {"b", 0}};
    bool ok = true;
    bool autobind = mc::flag("autobind");
    for (int i = 0; i < 3; ++i) {
        int k = mc::choose(mc::thorough() ? 7 : 6, "channel");
        Chan c{where[i].first, i == 1 ? "sub" : "push", forms[k].first, forms[k].second, i == 2 ? "shmem" : "", where[i].second, {}, autobind};
        for (size_t p; i && (p = c.address.find("5000")) != std::string::npos;) c.address.replace(p, 4, "500" + std::to_string(i));
        for (size_t p; i && (p = c.address.find("ipc://o")) != std::string::npos;) c.address.replace(p, 7, "ipc://n" + std::to_string(i));
        if (!fine(c) || (k == 3 && !autobind) || (k == 5 && i && !autobind && [&] { for (auto& x : cs) if (x.address.empty()) return true; return false; }())) ok = false;
        if (k == 6) ok = false;
        cs.push_back(c);
    }
    run(cs, [&] { fakezmq::bindfault = [](const std::string& a) { return a == "tcp://127.0.0.1:6666" ? EADDRINUSE : 0; }; return ok; }, "");
}
// the address of a connecting channel becomes known later
void update()
{
    clean();
    auto o = options();
    { mc::Quiet q; o->SetProperty("init-timeout", 1); }
    static const char* first[] = {"unspecified", "", "tcp://unknown:1", "nonsense"};
    std::vector<Chan> cs;
    cs.push_back({"a", "pull", "connect", first[mc::choose(4, "address so far")], "", 0, {}, true});
    cs.push_back({"a", "pull", "connect", mc::flag("second unknown") ? "unspecified" : "tcp://127.0.0.1:5001", "", 1, {}, true});
    if (mc::flag("has binding channel")) cs.push_back({"b", "push", "bind", "tcp://127.0.0.1:5002", "", 0, {}, true});
    int when = mc::choose(5, "when");
    static const int at[] = {0, 49, 60, 700, 5000};
    bool partly = mc::flag("only one becomes known");
    for (auto& c : cs) add(*o, c);
    {
        Machine m(std::move(o));
        bool home = false;
        std::thread x;
        m.next = [&](S s) {
            if (s == S::Connecting) x = std::thread([&] {
                std::this_thread::sleep_for(std::chrono::milliseconds(at[when]));
                { mc::Quiet q; cs[0].address = "tcp://localhost:5000"; }
                m.o->SetProperty<std::string>("chans.a.0.address", "tcp://localhost:5000");
                if (cs[1].address == "unspecified" && !partly) {
                    { mc::Quiet q; cs[1].address = ">ipc://late"; }
                    m.o->SetProperty<std::string>("chans.a.1.address", ">ipc://late");
                }
            });
            if (s == S::Idle) return home ? T::End : T::InitDevice;
            if (s == S::DeviceReady) {
                home = true;
                for (auto& c : cs) attached(m, c, spec(c), "updated");
            }
            return forward(s);
        };
        bool good = when < 4 && !(partly && cs[1].address == "unspecified");
        m.run();
        x.join();
        outcome(m, cs, good, "updated after " + std::to_string(at[when]) + " ms");
    }
}
// again and again, with resets on the way
void again(int rounds)
{
    clean();
    auto o = options();
    { mc::Quiet q; o->SetProperty("init-timeout", 1); }
    std::vector<Chan> cs{{"a", "pull", "bind", "tcp://127.0.0.1:5000", "zeromq", 0, {{"portRangeMin", 7000}, {"portRangeMax", 7001}}, true}, {"a", "pull", "connect", "ipc://x,@tcp://127.0.0.1:5001", "zeromq", 1, {}, true}, {"b", "push", "connect", "tcp://127.0.0.1:5002", "shmem", 0, {}, true}};
    if (mc::flag("one channel")) cs.resize(1);
    if (mc::flag("port in use")) fakezmq::bindfault = [](const std::string& a) { return a == "tcp://127.0.0.1:5000" ? EADDRINUSE : 0; };
    for (auto& c : cs) add(*o, c);
    {
        Machine m(std::move(o));
        int round = 0;
        std::string log;
        m.next = [&](S s) {
            { mc::Quiet q; log += " [" + name(s) + "]"; }
            switch (s) {
                case S::Idle:
                    MC_CHECK(fakezmq::open_sockets() == 0, "sockets left after the reset:%s", log.c_str());
                    { mc::Quiet q; fakezmq::attaches.clear(); }
                    return round++ < rounds ? T::InitDevice : T::End;
                case S::Initialized: return mc::flag("reset") ? T::ResetDevice : T::Bind;
                case S::Bound: return mc::flag("reset") ? T::ResetDevice : T::Connect;
                case S::DeviceReady:
                    for (auto& c : cs) {
                        Chan e = c;
                        if (round > 1) e.address = endpoint(*m.o, c);        // where it has been bound before
                        attached(m, e, spec(e), log);
                    }
                    return T::ResetDevice;
                default: return forward(s);
            }
        };
        m.run();
        MC_CHECK(!m.threw && m.d->GetCurrentState() == S::Exiting, "the device ended in %s:%s", name(m.d->GetCurrentState()).c_str(), log.c_str());
        mc::outcome(log);
    }
}
}   // namespace

int main(int argc, char** argv)
{
    using mc::Opts;
    using mc::Scenario;
    std::vector<Scenario> v;
    auto seq = [&](std::string n, std::string w, std::function<void()> b, double weight, Opts o = {}) { o.preemptions = o.preemptions_thorough = 0; o.early_timeouts = false; o.max_steps = 400000; o.weight = weight; v.push_back({n, w, b, o}); };
#ifdef AGAIN
    auto mcs = [&](std::string n, std::string w, std::function<void()> b, double weight) { Opts o; o.preemptions = o.preemptions_thorough = 0; o.early_timeouts = false; o.freecheck = o.races = true; o.weight = weight; v.push_back({n, w, b, o}); };
    mcs("again", "five rounds of initialisation with resets at every possible place", [] { again(mc::thorough() ? 6 : 5); }, 1);
#else
    seq("validate", "Channel::Validate for every combination of name, type, method, endpoints and options", [] { validate(); }, 1);
    seq("one", "a device with one channel of every kind, zeromq", [] { one(false); }, 2);
    seq("one_shmem", "the same with shared memory", [] { one(true); }, 2);
    seq("two", "a device with two channels of every kind", [] { two(); }, 2);
    seq("ports", "binding channels while other processes use every subset of the ports", [] { ports(); }, 2);
    seq("several", "three sub-channels, fine and unusable ones", [] { several(); }, 2);
    seq("update", "addresses that become known only while the device connects", [] { update(); }, 1);
    v.back().opts.preemptions = 1; v.back().opts.preemptions_thorough = 2;
#endif
    return mc::run(argc, argv, v);
}
