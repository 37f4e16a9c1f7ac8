// C34: a device program does what its command line, its hooks and its plugins say
#define DEVICE_MAIN
#include "device.h"
#include <boost/program_options.hpp>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fairmq/DeviceRunner.h>
#include <fairmq/Plugin.h>
#include <fairmq/PluginManager.h>
#include <fairmq/PluginServices.h>
#include <fairmq/Version.h>
#include <fairmq/tools/Unique.h>
#include <fcntl.h>
#include <optional>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#define main program_main
#include <fairmq/runDevice.h>
#undef main
using namespace dv;
namespace po = boost::program_options;
using std::string;
using Args = std::vector<string>;

namespace fair::mq::tools {      // stand-in, there is nothing random
std::string Uuid() { return "0000-0000"; }
std::size_t UuidHash() { return 1; }
}
namespace {
string g_dir;      // scratch
// ------------------------------------------------------------------ what happens
std::vector<string> seen;    // in order
void saw(const string& s) { mc::Quiet q; seen.push_back(s); }
string all() { string r; for (auto& s : seen) r += " [" + s + "]"; return r; }
string text(const Args& a) { string r; for (auto& s : a) r += " " + s; return r; }
long at(const string& s) { for (size_t i = 0; i < seen.size(); ++i) if (seen[i] == s) return i; return -1; }
int times(const string& s) { return std::count(seen.begin(), seen.end(), s); }

// ------------------------------------------------------------------ plugins of the program
enum class Bad { no, ctor };
std::set<string> failing;    // plugins that cannot be instantiated
struct Probe : Plugin
{
    string me;
    Probe(const string& n, Version v, const string& m, const string& h, PluginServices* s) : Plugin(n, v, m, h, s), me(n)
    {
        saw("plugin " + me);
        if (failing.count(me)) throw std::runtime_error("no");
        if (me == "alpha") saw("alpha-opt " + (PropertyExists("alpha-opt") ? GetProperty<string>("alpha-opt") : string("none")));
        if (me == "beta") SetProperty<string>("from-beta", "yes");
        if (me == "drive") {
            TakeDeviceControl();
            SubscribeToDeviceStateChange([this](S s) {
                static const std::map<S, T> go{{S::Idle, T::InitDevice}, {S::InitializingDevice, T::CompleteInit}, {S::Initialized, T::Bind}, {S::Bound, T::Connect}, {S::DeviceReady, T::InitTask}, {S::Ready, T::Run}};
                auto i = go.find(s);
                bool back = went && (s == S::Ready || s == S::DeviceReady || s == S::Idle);
                if (s == S::Running) went = true;
                if (back) ChangeDeviceState(s == S::Ready ? T::ResetTask : s == S::DeviceReady ? T::ResetDevice : T::End);
                else if (i != go.end()) ChangeDeviceState(i->second);
                if (s == S::Exiting) late = std::thread([this] {
                    std::this_thread::sleep_for(std::chrono::milliseconds(50));
                    saw("released");
                    ReleaseDeviceControl();
                });
            });
        }
    }
    bool went = false;
    std::thread late;
    ~Probe() override
    {
        if (me == "drive") UnsubscribeFromDeviceStateChange();
        if (late.joinable()) late.join();
        saw("end of plugin " + me);
    }
};
Plugin::ProgOptions noOptions() { return boost::none; }
Plugin::ProgOptions alphaOptions()
{
    po::options_description d{"alpha"};
    d.add_options()("alpha-opt", po::value<string>()->default_value("a0"), "option of a plugin");
    return d;
}
}   // namespace
REGISTER_FAIRMQ_PLUGIN(Probe, alpha, (Plugin::Version{1, 2, 3}), "m", "h", alphaOptions)
REGISTER_FAIRMQ_PLUGIN(Probe, beta, (Plugin::Version{1, 2, 3}), "m", "h", noOptions)
REGISTER_FAIRMQ_PLUGIN(Probe, gamma, (Plugin::Version{1, 2, 3}), "m", "h", noOptions)
REGISTER_FAIRMQ_PLUGIN(Probe, drive, (Plugin::Version{1, 2, 3}), "m", "h", noOptions)

// ------------------------------------------------------------------ the dynamic linker: plugin files
namespace {
std::set<string> loadable;           // paths, or plain names in the system's directories
std::vector<string> loaded;
}
extern "C" void* dlopen(const char* f, int flags)
{
    static auto* real = reinterpret_cast<void* (*)(const char*, int)>(dlsym(RTLD_NEXT, "dlopen"));
    if (f && (strstr(f, "fairmq-plugin-") || strstr(f, "FairMQPlugin_"))) {
        mc::Quiet q;
        if (!loadable.count(f)) return real("/nonexistent/plugin.so", flags);
        loaded.push_back(f);
        return real(nullptr, flags);
    }
    return real(f, flags);
}

namespace {
// ------------------------------------------------------------------ the program
struct Conf
{
    std::function<void(DeviceRunner&)> load, custom, modify, instantiate;   // the hooks
    Hook fails = NHOOKS;
    bool any = false;                     // it throws what is not a std::exception
    bool nodevice = false;
    bool configless = false;              // the device is created without the configuration
    std::function<void(Device&)> early;      // in Init
    std::function<void(Device&)> inBind, inRun;
    bool viaMain = false;                 // the main function that programs get from runDevice.h
    bool handlers = true;                 // RunWithExceptionHandlers, else Run
};
Conf* conf;
ProgOptions* configOf = nullptr;

// a device that says which channels it needs; it may or may not be given its configuration when it is created
struct Prog : Device
{
    Prog() = default;
    explicit Prog(ProgOptions& c) : Device(c) {}
    std::function<void(Hook)> on;
    void RegisterChannelEndpoints() override
    {
        RegisterChannelEndpoint("in", 1, 5);
        RegisterChannelEndpoint("out", 0, 1);
    }
    void Init() override { on(INIT); }
    void Bind() override { on(BIND); }
    void Connect() override { on(CONNECT); }
    void InitTask() override { on(INITTASK); }
    void PreRun() override { on(PRERUN); }
    bool ConditionalRun() override { on(COND); return false; }
    void Run() override { on(RUN); }
    void PostRun() override { on(POSTRUN); }
    void ResetTask() override { on(RESETTASK); }
    void Reset() override { on(RESET); }
};
// what main of runDevice.h needs
std::unique_ptr<Device> makeDevice(ProgOptions& c)
{
    saw("device");
    if (conf->nodevice) return {};
    auto d = conf->configless ? std::make_unique<Prog>() : std::make_unique<Prog>(c);
    Prog* p = d.get();
    p->on = [p](Hook h) {
        saw(kHook[h]);
        if (h == INIT && conf->early) conf->early(*p);
        if (h == BIND && conf->inBind) conf->inBind(*p);
        if (h == RUN && conf->inRun) conf->inRun(*p);
        if (h == conf->fails && conf->any) throw 5;
        if (h == conf->fails) throw std::runtime_error("hook failed");
    };
    return d;
}
struct Outcome { int code = -1; string threw; };
Outcome program(const Args& args, Conf& c)
{
    Outcome r;
    std::vector<string> keep{"program"};
    {
        mc::Quiet q;
        keep.insert(keep.end(), args.begin(), args.end());
        conf = &c;
        seen.clear();
        loaded.clear();
        unsetenv("FAIRMQ_SEVERITY");
        fair::stublog::tell = [](const string& s) { saw(s); };
        signal(SIGTERM, SIG_DFL);
        signal(SIGINT, SIG_DFL);
    }
    clean();
    std::vector<char*> argv;
    for (auto& s : keep) argv.push_back(s.data());
    argv.push_back(nullptr);
    if (c.viaMain) { r.code = program_main(keep.size(), argv.data()); return r; }
    try {
        DeviceRunner runner(keep.size(), argv.data(), false);
        runner.AddHook<hooks::LoadPlugins>([&](DeviceRunner& x) { saw("hook LoadPlugins"); if (c.load) c.load(x); });
        runner.AddHook<hooks::SetCustomCmdLineOptions>([&](DeviceRunner& x) { saw("hook SetCustomCmdLineOptions"); if (c.custom) c.custom(x); });
        runner.AddHook<hooks::ModifyRawCmdLineArgs>([&](DeviceRunner& x) { saw("hook ModifyRawCmdLineArgs"); if (c.modify) c.modify(x); });
        runner.AddHook<hooks::InstantiateDevice>([&](DeviceRunner& x) { saw("hook InstantiateDevice"); if (c.instantiate) c.instantiate(x); x.fDevice = makeDevice(x.fConfig); });
        r.code = c.handlers ? runner.RunWithExceptionHandlers() : runner.Run();
        saw("returned");
    } catch (std::exception& e) {
        r.threw = e.what();
    } catch (int) {
        r.threw = "int";
    }
    return r;
}
const std::vector<string> kHooks{"hook LoadPlugins", "hook SetCustomCmdLineOptions", "hook ModifyRawCmdLineArgs", "hook InstantiateDevice"};
void ordered(const std::vector<string>& want, const string& what)
{
    long last = -1;
    for (auto& w : want) {
        long i = at(w);
        MC_CHECK(i > last, "%s: \"%s\" is missing or out of order:%s", what.c_str(), w.c_str(), all().c_str());
        MC_CHECK(times(w) == 1, "%s: \"%s\" more than once:%s", what.c_str(), w.c_str(), all().c_str());
        last = i;
    }
}
void ran(const Outcome& r, const string& what)      // the device has been taken through its life
{
    MC_CHECK(r.threw.empty() && r.code == 0, "%s: exit code %d%s%s", what.c_str(), r.code, r.threw.empty() ? "" : ", exception ", r.threw.c_str());
    ordered({"device", "Init", "Bind", "Connect", "InitTask", "PreRun", "Run", "PostRun", "ResetTask", "Reset"}, what);
}
void neverRan(const string& what)
{
    for (int h = 0; h < NHOOKS; ++h) MC_CHECK(at(kHook[h]) < 0, "%s: the device was run:%s", what.c_str(), all().c_str());
}

// ------------------------------------------------------------------ options
struct Value { string token; string expected; bool valid; };     // expected: as the typed property prints
struct Option
{
    string name;
    std::optional<string> def;                            // absent: no property
    std::function<std::optional<string>(ProgOptions&)> get;
    std::vector<Value> values;
};
template<typename V> string show(const V& v) { std::stringstream s; s << std::boolalpha << v; return s.str(); }
template<> string show(const std::vector<string>& v) { string r; for (auto& x : v) r += "<" + x + ">"; return r; }
template<typename V> Option opt(const string& n, std::optional<V> def, std::vector<Value> values)
{
    Option o{n, {}, {}, values};
    if (def) o.def = show(*def);
    o.get = [n](ProgOptions& c) -> std::optional<string> {
        if (!c.Count(n)) return {};
        return show(c.GetProperty<V>(n));     // throws if the property is of another type
    };
    return o;
}
std::vector<Option> options34()
{
    std::vector<Value> b{{"true", "true", true}, {"false", "false", true}, {"1", "true", true}, {"0", "false", true}, {"2", "", false}};
    std::vector<Value> i{{"2", "2", true}, {"0", "0", true}, {"-3", "-3", true}, {"2147483647", "2147483647", true}, {"2147483648", "", false}, {"x", "", false}, {"2x", "", false}, {"1.5", "", false}};
    std::vector<Value> z{{"0", "0", true}, {"4096", "4096", true}, {"8589934592", "8589934592", true}, {"x", "", false}, {"18446744073709551616", "", false}};
    auto s = [](Args a) { std::vector<Value> v; for (auto& x : a) v.push_back({x, x, true}); return v; };
    using I = int; using Z = std::size_t; using B = bool; using St = string;
    std::vector<Option> v;
    v.push_back(opt<St>("id", "", s({"dev-1", "7", "a.b c"})));
    v.push_back(opt<I>("io-threads", 1, i));
    v.push_back(opt<St>("transport", "zeromq", s({"zeromq", "shmem"})));
    v.push_back(opt<St>("network-interface", "default", s({"eth1"})));
    v.push_back(opt<I>("init-timeout", 120, i));
    v.push_back(opt<Z>("shm-segment-size", Z(2ULL << 30), z));
    v.push_back(opt<St>("shm-allocation", "rbtree_best_fit", s({"simple_seq_fit"})));
    v.push_back(opt<uint16_t>("shm-segment-id", uint16_t(0), {{"1", "1", true}, {"65535", "65535", true}, {"65536", "", false}, {"x", "", false}}));
    v.push_back(opt<uint64_t>("shmid", {}, {{"5", "5", true}, {"18446744073709551615", "18446744073709551615", true}, {"x", "", false}}));
    v.push_back(opt<B>("shm-mlock-segment", false, b));
    v.push_back(opt<B>("shm-mlock-segment-on-creation", false, b));
    v.push_back(opt<B>("shm-zero-segment", false, b));
    v.push_back(opt<B>("shm-zero-segment-on-creation", false, b));
    v.push_back(opt<B>("shm-throw-bad-alloc", true, b));
    v.push_back(opt<Z>("shm-metadata-msg-size", Z(0), z));
    v.push_back(opt<I>("bad-alloc-max-attempts", {}, i));
    v.push_back(opt<I>("bad-alloc-attempt-interval", 50, i));
    v.push_back(opt<B>("shm-monitor", false, b));
    v.push_back(opt<B>("shm-no-cleanup", false, b));
    v.push_back(opt<float>("rate", 0.f, {{"10", "10", true}, {"0.5", "0.5", true}, {"x", "", false}}));
    v.push_back(opt<St>("session", "default", s({"one", "2"})));
    v.push_back(opt<St>("config-key", {}, s({"key"})));
    v.push_back(opt<St>("mq-config", {}, s({"/no/such/file.json"})));
    v.push_back(opt<std::vector<St>>("channel-config", {}, {{"name=a,type=pair", "<name=a,type=pair>", true}}));
    v.push_back(opt<St>("control", "dynamic", s({"static", "none"})));
    v.push_back(opt<I>("catch-signals", 1, i));
    v.push_back(opt<St>("severity", "", s({"warn"})));
    v.push_back(opt<St>("file-severity", "debug", s({"warn"})));
    v.push_back(opt<St>("verbosity", "medium", s({"low"})));
    v.push_back(opt<B>("color", true, b));
    v.push_back(opt<St>("log-to-file", "", s({"/tmp/x.log"})));
    // of the program itself
    v.push_back(opt<I>("max", 9, i));
    v.push_back(opt<I>("p", {}, {{"5", "5", true}, {"x", "", false}}));
    v.push_back(opt<St>("plug", {}, s({"in"})));
    v.push_back(opt<B>("i", false, b));
    v.push_back(opt<St>("name", "n", s({"m"})));
    return v;
}
void custom34(DeviceRunner& r)
{
    po::options_description d("own");
    d.add_options()("max", po::value<int>()->default_value(9), "")("p", po::value<int>(), "")("plug", po::value<string>(), "")
        ("i", po::value<bool>()->default_value(false)->implicit_value(true), "")("name,n", po::value<string>()->default_value("n"), "");
    r.fConfig.AddToCmdLineOptions(d);
}
struct Given { int option; int value; };
// the configuration the program has got
void compare(ProgOptions& c, const std::vector<Option>& os, const std::map<string, string>& want, const string& what)
{
    for (auto& o : os) {
        std::optional<string> w = o.def, g;
        auto i = want.find(o.name);
        if (i != want.end()) w = i->second;
        try { g = o.get(c); } catch (std::exception& e) { mc::fail("%s: option %s: %s", what.c_str(), o.name.c_str(), e.what()); }
        MC_CHECK(g == w, "%s: option %s is %s, not %s", what.c_str(), o.name.c_str(), g ? g->c_str() : "absent", w ? w->c_str() : "absent");
    }
}
// the tokens of an option in a given form
Args form(const string& n, const string& v, int f)
{
    if (f == 0) return {"--" + n, v};
    return {"--" + n + "=" + v};
}
enum { NOISE = 9 };
Args noise(int k)
{
    switch (k) {
        case 1: return {"--unknown"};
        case 2: return {"--unknown=5"};
        case 3: return {"--unknown", "5"};
        case 4: return {"--io-thread", "7"};            // not an abbreviation
        case 5: return {"--plu", "x"};                  // neither
        case 6: return {"--plugin-search", "/no/such"};
        case 7: return {"--pl=/no/such"};
        case 8: return {"-x", "-y7"};
    }
    return {};
}
// the program is started with these arguments; it looks at its configuration when it creates its device
void started(const Args& args, const std::map<string, string>& want, bool valid)
{
    Conf c;
    static const auto os = options34();
    bool looked = false;
    string what;
    {
        mc::Quiet q;
        what = "started with" + text(args);
        c.nodevice = true;
        c.custom = custom34;
        c.instantiate = [&](DeviceRunner& r) { looked = true; if (valid) compare(r.fConfig, os, want, what); };
        mc::transition();
    }
    Outcome r = program(args, c);
    mc::Quiet q;
    if (valid) MC_CHECK(looked, "%s: the program did not get as far as creating its device (exit code %d%s):%s", what.c_str(), r.code, r.threw.c_str(), all().c_str());
    else MC_CHECK(!looked, "%s: the program goes on with a bad value", what.c_str());
    MC_CHECK(r.code == 1 || !r.threw.empty(), "%s: exit code %d without a device", what.c_str(), r.code);
    neverRan(what);
    mc::state(mc::hash_str(what));
    mc::outcome(valid ? "valid" : "invalid");
}
void oneOption()
{
    static const auto os = options34();
    if (mc::flag("no option of the program")) {
        Args args = noise(mc::choose(NOISE, "arguments that are not the program's"));
        if (mc::flag("a word more")) args.push_back("word");
        started(args, {}, true);
        return;
    }
    const Option& o = os[mc::choose(os.size(), "option")];
    const Value& v = o.values[mc::choose(o.values.size(), "value")];
    int f = mc::choose(2, "form");
    if (f == 0 && (v.token[0] == '-' || o.name == "i")) { f = 1; }
    int nz = mc::choose(NOISE, "arguments that are not the program's"), where = mc::choose(3, "where");
    Args a = form(o.name, v.token, f), n = noise(nz), args;
    if (where == 0) { args = n; args.insert(args.end(), a.begin(), a.end()); }
    else if (where == 1) { args = a; args.insert(args.end(), n.begin(), n.end()); }
    else { args = {"word"}; args.insert(args.end(), a.begin(), a.end()); args.insert(args.end(), n.begin(), n.end()); }
    std::map<string, string> want;
    if (v.valid) want[o.name] = v.expected;
    started(args, want, v.valid);
}
const Value& firstValid(const Option& o) { return o.values[0]; }
void twoOptions()
{
    static const auto os = options34();
    int i = mc::choose(os.size(), "first option"), j = mc::choose(os.size(), "second option"), f = mc::choose(2, "form");
    Args args;
    std::map<string, string> want;
    for (int k : {i, j}) {
        for (auto& s : form(os[k].name, firstValid(os[k]).token, os[k].name == "i" ? 1 : f)) args.push_back(s);
        want[os[k].name] = firstValid(os[k]).expected;
    }
    bool valid = i != j;
    if (i == j && os[i].name == "channel-config") { valid = true; want["channel-config"] = "<name=a,type=pair><name=a,type=pair>"; }
    started(args, want, valid);
}
void channelConfig()
{
    Args args;
    string want;
    int n = 1 + mc::choose(3, "values");
    int token = mc::choose(2, "a form for each");
    for (int i = 0; i < n; ++i) {
        string v = "name=c" + std::to_string(i);
        if (token) args.push_back("--channel-config=" + v);
        else { if (!i || mc::flag("option repeated")) args.push_back("--channel-config"); args.push_back(v); }
        want += "<" + v + ">";
    }
    if (mc::flag("another option follows")) { args.push_back("--max"); args.push_back("3"); started(args, {{"channel-config", want}, {"max", "3"}}, true); return; }
    started(args, {{"channel-config", want}}, true);
}
void shortOptions()
{
    switch (mc::choose(4, "form")) {
        case 0: started({"-n", "q"}, {{"name", "q"}}, true); break;
        case 1: started({"-nq"}, {{"name", "q"}}, true); break;
        case 2: started({"-n", "q", "-x"}, {{"name", "q"}}, true); break;
        case 3: started({"--i"}, {{"i", "true"}}, true); break;
    }
}

// ------------------------------------------------------------------ the hooks
void hooks34()
{
    Conf c;
    int which = mc::choose(13, "what the hooks do");
    bool direct = mc::flag("Run, without the exception handlers");
    c.configless = mc::flag("the device is created without the configuration");
    c.handlers = !direct;
    Args args{"--control", "static", "--catch-signals", "0", "--id", "first"};
    int bad = 0;
    string id = "first";
    static string got;
    got.clear();
    c.custom = custom34;
    c.early = [](Device& d) { saw("id " + d.GetId()); saw("opt " + d.GetConfig()->GetProperty<string>("name")); };
    string name = "n";
    switch (which) {
        case 0: break;
        case 1: c.modify = [](DeviceRunner& r) { r.fRawCmdLineArgs.push_back("--name"); r.fRawCmdLineArgs.push_back("added"); }; name = "added"; break;
        case 2: c.modify = [](DeviceRunner& r) { r.fRawCmdLineArgs.back() = "second"; }; id = "second"; break;
        case 3: c.instantiate = [](DeviceRunner& r) { r.fConfig.SetProperty<string>("name", "set"); }; name = "set"; break;
        case 4: bad = 1; c.load = [](DeviceRunner&) { throw std::runtime_error("x"); }; break;
        case 5: bad = 1; c.custom = [](DeviceRunner&) { throw std::runtime_error("x"); }; break;
        case 6: bad = 1; c.modify = [](DeviceRunner&) { throw std::runtime_error("x"); }; break;
        case 7: bad = 1; c.instantiate = [](DeviceRunner&) { throw std::runtime_error("x"); }; break;
        case 8: bad = 1; c.nodevice = true; break;
        case 9: bad = 1; c.instantiate = [](DeviceRunner&) { throw 5; }; break;
        case 10: bad = 1; c.custom = [](DeviceRunner& r) { custom34(r); po::options_description d("more"); d.add_options()("needed", po::value<int>()->required(), ""); r.fConfig.AddToCmdLineOptions(d); }; break;
        case 11: c.custom = [](DeviceRunner& r) { custom34(r); po::options_description d("more"); d.add_options()("needed", po::value<int>()->required()->notifier([](int i) { saw("notified " + std::to_string(i)); }), ""); r.fConfig.AddToCmdLineOptions(d); };
                 c.modify = [](DeviceRunner& r) { r.fRawCmdLineArgs.push_back("--needed=4"); }; break;
        case 12: c.load = [](DeviceRunner& r) { r.fPluginManager.LoadPlugin("p:alpha"); }; c.instantiate = [](DeviceRunner& r) { r.fConfig.SetProperty<string>("alpha-opt", "set"); }; break;
    }
    Outcome r = program(args, c);
    mc::Quiet q;
    string what = "hooks, case " + std::to_string(which);
    mc::state(which * 2 + direct);
    mc::transition();
    if (!bad) {
        ran(r, what);
        ordered(kHooks, what);
        MC_CHECK(at("id " + id) >= 0 && at("opt " + name) >= 0, "%s: the device saw another configuration:%s", what.c_str(), all().c_str());
        MC_CHECK(at("Reset") < at("returned"), "%s", what.c_str());
        if (which == 11) MC_CHECK(at("notified 4") >= 0 && at("notified 4") < at("device"), "%s: the notifier of an option was not called:%s", what.c_str(), all().c_str());
        if (which == 12) MC_CHECK(at("alpha-opt set") > at("device"), "%s: the plugin saw another value of its option:%s", what.c_str(), all().c_str());
        return;
    }
    neverRan(what);
    size_t last = which == 8 || which == 9 ? 4 : which == 10 ? 3 : which - 3;
    ordered(std::vector<string>(kHooks.begin(), kHooks.begin() + last), what);
    for (size_t i = last; i < 4; ++i) MC_CHECK(at(kHooks[i]) < 0, "%s: a hook was called after one failed:%s", what.c_str(), all().c_str());
    if (direct && which != 8) MC_CHECK(!r.threw.empty(), "%s: the exception did not come out", what.c_str());
    else MC_CHECK(r.code == 1, "%s: exit code %d", what.c_str(), r.code);
}
// ------------------------------------------------------------------ how programs end
void ends()
{
    Conf c;
    int which = mc::choose(3, "form of the program");
    c.viaMain = which == 0;
    c.handlers = which == 1;
    Args args{"--control", "static", "--catch-signals", mc::flag("signals are watched for") ? "1" : "0", "--id", "d"};
    c.fails = Hook(mc::choose(NHOOKS + 1, "failing hook"));
    c.any = c.fails != NHOOKS && mc::flag("throws what is not a std::exception");
    Outcome r = program(args, c);
    mc::Quiet q;
    string what = "program form " + std::to_string(which) + ", failing hook " + (c.fails == NHOOKS ? "none" : kHook[c.fails]);
    mc::state(which * 100 + c.fails + c.any * 1000);
    mc::transition();
    if (c.fails == NHOOKS) { ran(r, what); return; }
    if (which == 2) MC_CHECK(!r.threw.empty(), "%s: the exception did not come out, exit code %d", what.c_str(), r.code);
    else MC_CHECK(r.code == 1, "%s: exit code %d", what.c_str(), r.code);
    MC_CHECK(at(kHook[c.fails]) >= 0, "%s: the hook was not called:%s", what.c_str(), all().c_str());
}
// ------------------------------------------------------------------ questions to the program
void questions()
{
    Conf c;
    static const Args kAsk[] = {{"--help"}, {"-h"}, {"--print-options"}, {"--print-options=true"}, {"--print-channels"}, {"--version"}, {"-v"}};
    int k = mc::choose(7, "question");
    c.configless = k > 3 && mc::flag("the device is created without the configuration");
    int pre = mc::choose(3, "other arguments");
    int which = mc::choose(2, "form of the program");
    c.viaMain = which == 0;
    c.custom = custom34;
    Args args;
    if (pre == 1) args = {"--io-threads", "3"};
    args.insert(args.end(), kAsk[k].begin(), kAsk[k].end());
    if (pre == 2) { args.push_back("--io-threads=3"); args.push_back("--control=static"); }
    string what = "started with" + text(args);
    Outcome r;
    std::stringstream out;
    {
        auto* old = std::cout.rdbuf(out.rdbuf());
        struct Back { std::streambuf* b; ~Back() { std::cout.rdbuf(b); } } back{old};
        r = program(args, c);
    }
    mc::Quiet q;
    mc::state(mc::hash_str(what));
    mc::transition();
    MC_CHECK(r.threw.empty() && r.code == 0, "%s: exit code %d %s", what.c_str(), r.code, r.threw.c_str());
    neverRan(what);
    string o = out.str();
    if (k < 2) {
        for (const char* x : {"--help", "--io-threads", "--control", "--plugin", "--plugin-search-path", "--severity", "--channel-config"}) MC_CHECK(o.find(x) != string::npos, "%s: the help lacks %s", what.c_str(), x);
        if (which) MC_CHECK(o.find("--max") != string::npos, "%s: the help lacks the program's own options", what.c_str());
    } else if (k < 4) {
        string line = pre ? "\nio-threads:3:" : "\nio-threads:1:";
        MC_CHECK(("\n" + o).find(line) != string::npos, "%s: no line %s in %s", what.c_str(), line.c_str() + 1, o.c_str());
        MC_CHECK(("\n" + o).find("\nsession:default:") != string::npos && ("\n" + o).find("\nshm-segment-size:2147483648:") != string::npos, "%s: %s", what.c_str(), o.c_str());
        if (which) MC_CHECK(("\n" + o).find("\nmax:9:") != string::npos, "%s: %s", what.c_str(), o.c_str());
    } else if (k == 4) {
        MC_CHECK(at("print in:1:5") >= 0 && at("print out:0:1") >= 0, "%s: the channels are not printed:%s", what.c_str(), all().c_str());
        MC_CHECK(times("print in:1:5") == 1, "%s:%s", what.c_str(), all().c_str());
    } else {
        bool v = false;
        for (auto& s : seen) if (s.find("print ") == 0 && s.find(FAIRMQ_GIT_VERSION) != string::npos) v = true;
        MC_CHECK(v, "%s: no version printed:%s", what.c_str(), all().c_str());
    }
    if (k == 4 || k > 4) MC_CHECK(at("console nolog") >= 0, "%s: the log is not silenced:%s", what.c_str(), all().c_str());
}
// ------------------------------------------------------------------ channels
void writeFile(const string& path, const string& s)
{
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0 || write(fd, s.data(), s.size()) != ssize_t(s.size())) abort();
    close(fd);
}
void channels34()
{
    Conf c;
    int id = mc::choose(3, "id: none, one of the file, another");
    int key = mc::choose(3, "config-key: none, one of the file, another");
    int json = mc::choose(4, "mq-config: none, good, malformed, missing");
    int cfg = mc::choose(4, "channel-config: none, one, two, malformed");
    static const char* kId[] = {"", "dev", "stranger"};
    static const char* kFile[] = {"", "good.json", "bad.json", "none.json"};
    Args args{"--control", "static", "--catch-signals", "0"};
    if (id) { args.push_back("--id"); args.push_back(kId[id]); }
    if (key) { args.push_back("--config-key"); args.push_back(key == 1 ? "keyed" : "stranger"); }
    if (json) { args.push_back("--mq-config"); args.push_back(g_dir + "/" + kFile[json]); }
    if (cfg == 1) { args.push_back("--channel-config"); args.push_back("name=sub,type=push,method=bind,address=tcp://localhost:5001,sndBufSize=77"); }
    if (cfg == 2) for (auto s : {"--channel-config", "name=sub,type=push,method=bind,address=tcp://localhost:5001,sndBufSize=77", "name=other,type=pair,method=bind,address=tcp://localhost:5002"}) args.push_back(s);
    if (cfg == 3) { args.push_back("--channel-config"); args.push_back("type=push,method=bind"); }
    std::map<string, string> want;
    string parser = key ? (key == 1 ? "keyed" : "stranger") : kId[id];
    if (!parser.empty()) {
        if (json) { if (json == 1 && parser != "stranger") want = {{parser == "dev" ? "fromid" : "fromkey", parser == "dev" ? "pull 11" : "push 12"}}; }
        else if (cfg == 1) want = {{"sub", "push 77"}};
        else if (cfg == 2) want = {{"sub", "push 77"}, {"other", "pair 1000"}};
    }
    string what = "started with" + text(args);
    c.configless = mc::flag("the device is created without the configuration");
    std::map<string, string> got;
    c.inBind = [&](Device& d) {
        mc::Quiet q;
        for (auto& x : d.GetConfig()->GetChannelInfo()) got[x.first];
        for (auto& x : d.GetChannels()) for (auto& y : x.second) got[x.first] += y.GetType() + " " + std::to_string(y.GetSndBufSize());
    };
    Outcome r = program(args, c);
    mc::Quiet q;
    mc::transition();
    mc::state(mc::hash_str(what));
    ran(r, what);
    string g, w;
    for (auto& x : got) g += " " + x.first + ": " + x.second;
    for (auto& x : want) w += " " + x.first + ": " + x.second;
    MC_CHECK(got == want, "%s: the device has channels%s, not%s", what.c_str(), g.c_str(), w.c_str());
    mc::outcome(g);
}
// ------------------------------------------------------------------ logging options
void logging()
{
    Conf c;
    int sev = mc::choose(2, "severity"), env = mc::choose(2, "FAIRMQ_SEVERITY"), file = mc::choose(2, "log-to-file"), fs = mc::choose(2, "file-severity"), verb = mc::choose(2, "verbosity"), color = mc::choose(3, "color");
    Args args{"--control", "static", "--catch-signals", "0"};
    auto add = [&](const string& a, const string& b) { args.push_back(a); args.push_back(b); };
    if (sev) add("--severity", "warn");
    if (file) add("--log-to-file", "/tmp/none.log");
    if (fs) add("--file-severity", "error");
    if (verb) add("--verbosity", "low");
    if (color) add("--color", color == 1 ? "true" : "false");
    if (env) c.modify = [](DeviceRunner&) { setenv("FAIRMQ_SEVERITY", "fatal", 1); };
    size_t before = 0;
    c.inRun = [&](Device& d) {
        before = seen.size();
        d.GetConfig()->SetProperty<string>("severity", "info");
        d.GetConfig()->SetProperty<bool>("color", false);
        d.GetConfig()->SetProperty<string>("file-severity", "trace");
        d.GetConfig()->SetProperty<string>("verbosity", "high");
        d.GetConfig()->SetProperty<string>("name", "x");
    };
    Outcome r = program(args, c);
    mc::Quiet q;
    unsetenv("FAIRMQ_SEVERITY");
    mc::transition();
    string what = "started with" + text(args) + (env ? " and FAIRMQ_SEVERITY=fatal" : "");
    mc::state(mc::hash_str(what));
    ran(r, what);
    auto starts = [&](const string& s, size_t from, size_t to) { std::vector<string> v; for (size_t i = from; i < to; ++i) if (!seen[i].compare(0, s.size() + 1, s + " ")) v.push_back(seen[i].substr(s.size() + 1)); return v; };
    size_t n = at("hook InstantiateDevice");
    auto want = [&](const string& s, const std::vector<string>& w) {
        auto g = starts(s, 0, n);
        MC_CHECK(g == w, "%s: the logger's %s was set to%s, not%s", what.c_str(), s.c_str(), text(g).c_str(), text(w).c_str());
    };
    want("verbosity", {verb ? "low" : "medium"});
    if (file) {
        want("sink", {string(fs ? "error" : "debug") + " /tmp/none.log"});
        want("console", {"nolog"});
    } else {
        want("sink", {});
        want("color", {color == 2 ? "false" : "true"});
        auto con = starts("console", 0, n);
        if (env) MC_CHECK(con == std::vector<string>{"fatal"}, "%s: console severity%s", what.c_str(), text(con).c_str());
        else if (sev) MC_CHECK(con == std::vector<string>{"warn"}, "%s: console severity%s", what.c_str(), text(con).c_str());
        else MC_CHECK(con.empty(), "%s: console severity%s", what.c_str(), text(con).c_str());
    }
    size_t e = seen.size();
    for (auto& x : std::vector<std::pair<string, string>>{{"console", "info"}, {"color", "false"}, {"file", "trace"}, {"verbosity", "high"}})
        MC_CHECK(starts(x.first, before, e) == std::vector<string>{x.second}, "%s: changed while running, %s: %s", what.c_str(), x.first.c_str(), text(starts(x.first, before, e)).c_str());
}
// ------------------------------------------------------------------ plugins
void plugins34()
{
    Conf c;
    // where each plugin is asked for: not, on the command line, by the hook
    static const Args kNames{"alpha", "beta", "gamma"};
    Args order, args{"--control", "static", "--catch-signals", "0"};
    loadable = {"libfairmq-plugin-gamma.so"};
    std::vector<string> hook, want;
    int n = mc::choose(4, "plugins on the command line"), m = mc::choose(3, "plugins loaded by the hook");
    for (int i = 0; i < n; ++i) {
        int k = mc::choose(3, "plugin");
        args.push_back(i % 2 ? "-P" : "--plugin");
        args.push_back(k == 2 ? "gamma" : (k == 1 ? "p:" : "s:") + kNames[k]);
        if (std::find(want.begin(), want.end(), kNames[k]) == want.end()) want.push_back(kNames[k]);
    }
    bool opt = mc::flag("option of a plugin");
    if (opt) { args.push_back("--alpha-opt"); args.push_back("given"); }
    want.push_back("config");
    for (int i = 0; i < m; ++i) {
        int k = mc::choose(3, "plugin");
        hook.push_back(k == 2 ? "d:gamma" : "p:" + kNames[k]);
        if (std::find(want.begin(), want.end(), kNames[k]) == want.end()) want.push_back(kNames[k]);
    }
    want.push_back("control");
    int bad = mc::choose(4, "plugin that cannot be instantiated");     // 3: none
    failing.clear();
    if (bad < 3) failing.insert(kNames[bad]);
    c.handlers = mc::flag("RunWithExceptionHandlers");
    c.load = [&](DeviceRunner& r) { r.fPluginManager.LoadPlugins(hook); };
    std::vector<string> names;
    string fromBeta;
    c.custom = [&](DeviceRunner& r) { c.early = [&](Device& d) { mc::Quiet q; r.fPluginManager.ForEachPlugin([&](Plugin& p) { names.push_back(p.GetName()); }); fromBeta = d.GetConfig()->GetProperty<string>("from-beta", "no"); }; };
    string what = "started with" + text(args) + ", plugins of the hook" + text(hook) + (bad < 3 ? ", " + kNames[bad] + " cannot be instantiated" : "");
    Outcome r = program(args, c);
    mc::Quiet q;
    mc::transition();
    mc::state(mc::hash_str(what));
    auto has = [&](const string& s) { return std::find(want.begin(), want.end(), s) != want.end(); };
    long last = at("device");
    bool broken = bad < 3 && has(kNames[bad]);
    for (auto& w : want) {
        if (w == "config" || w == "control") continue;
        long i = at("plugin " + w);
        MC_CHECK(i > last && times("plugin " + w) == 1, "%s: plugin %s instantiated in the wrong order, not at all, or twice:%s", what.c_str(), w.c_str(), all().c_str());
        last = i;
        if (w == "alpha" && !failing.count(w)) MC_CHECK(at(opt ? "alpha-opt given" : "alpha-opt a0") == i + 1, "%s: the plugin saw another value of its option:%s", what.c_str(), all().c_str());
        if (broken && w == kNames[bad]) break;
    }
    if (broken) {
        neverRan(what);
        if (c.handlers) MC_CHECK(r.code == 1, "%s: exit code %d", what.c_str(), r.code);
        else MC_CHECK(!r.threw.empty(), "%s: the exception did not come out", what.c_str());
        return;
    }
    MC_CHECK(last < at("Init"), "%s: a plugin came after the device's start:%s", what.c_str(), all().c_str());
    ran(r, what);
    MC_CHECK(names == want, "%s: the plugins are%s, not%s", what.c_str(), text(names).c_str(), text(want).c_str());
    MC_CHECK(fromBeta == (has("beta") ? "yes" : "no"), "%s: what the plugin set is not seen by the device", what.c_str());
    for (auto& s : kNames) {
        MC_CHECK(times("plugin " + s) == (has(s) ? 1 : 0), "%s: plugin %s:%s", what.c_str(), s.c_str(), all().c_str());
        MC_CHECK(times("end of plugin " + s) == (has(s) ? 1 : 0), "%s: plugin %s not destroyed:%s", what.c_str(), s.c_str(), all().c_str());
    }
}
void missingPlugin()
{
    Conf c;
    loadable = {"libfairmq-plugin-other.so"};       // a library without the plugin's symbols
    static const Args kWhat{"p:missing", "d:missing", "missing", "s:missing", "d:other", "other"};
    string p = kWhat[mc::choose(kWhat.size(), "plugin")];
    bool hook = mc::flag("asked for by the hook");
    c.handlers = mc::flag("RunWithExceptionHandlers");
    Args args{"--control", "static", "--catch-signals", "0", "-P", "p:alpha"};
    if (hook) c.load = [&](DeviceRunner& r) { r.fPluginManager.LoadPlugin(p); };
    else { args.push_back("-P"); args.push_back(p); }
    Outcome r = program(args, c);
    mc::Quiet q;
    mc::transition();
    string what = "plugin " + p + (hook ? " in the hook" : " on the command line");
    mc::state(mc::hash_str(what));
    neverRan(what);
    MC_CHECK(at("device") < 0, "%s: the program goes on without the plugin:%s", what.c_str(), all().c_str());
    MC_CHECK(!r.threw.empty() || (c.handlers && r.code == 1), "%s: exit code %d", what.c_str(), r.code);
}
void drivingPlugin()
{
    Conf c;
    c.viaMain = mc::flag("main of runDevice.h");
    Args args{"--control", mc::flag("static control wanted as well") ? "static" : "none", "--catch-signals", "0", "-P", "p:drive", "--id", "x"};
    Outcome r = program(args, c);
    mc::Quiet q;
    mc::transition();
    mc::state(args[1].size() * 2 + c.viaMain);
    ran(r, "a plugin in control");
    MC_CHECK(times("released") == 1, "a plugin in control: the program ended before the plugin gave up control:%s", all().c_str());
    if (!c.viaMain) MC_CHECK(at("released") < at("returned"), "the program did not wait for the plugin to give up control:%s", all().c_str());
}
// ------------------------------------------------------------------ the search for plugins
struct Tok { string arg; char where; string path; bool bad; };
void searchPaths()
{
    string file = g_dir + "/file.so";
    std::vector<Tok> alphabet{{"/a", '=', "/a", false}, {"</b", '<', "/b", false}, {">/c", '>', "/c", false}, {g_dir, '=', g_dir, false}, {"<" + g_dir, '<', g_dir, false},
                              {">" + g_dir, '>', g_dir, false}, {file, '=', file, true}, {"<" + file, '<', file, true}, {">" + file, '>', file, true}, {"<", '<', "", true}, {">", '>', "", true}};
    int n = mc::choose(4, "paths"), f = mc::choose(3, "form");
    Args args{"program", "--id", "x"};
    std::vector<string> mid, post, want;
    bool bad = false;
    if (n && f == 2) args.push_back("-S");
    for (int i = 0; i < n; ++i) {
        Tok& t = alphabet[mc::choose(alphabet.size(), "path")];
        if (f == 0) { args.push_back("-S"); args.push_back(t.arg); }
        else if (f == 1) args.push_back("--plugin-search-path=" + t.arg);
        else args.push_back(t.arg);
        bad |= t.bad;
        if (t.where == '<') want.insert(want.begin(), t.path);
        else (t.where == '=' ? mid : post).push_back(t.path);
    }
    want.insert(want.end(), mid.begin(), mid.end());
    want.insert(want.end(), post.begin(), post.end());
    if (mc::flag("other options follow")) { args.push_back("--severity"); args.push_back("warn"); args.push_back("--unknown"); }
    mc::transition();
    mc::state(mc::hash_str(text(args)));
    bool threw = false;
    try {
        PluginManager m(args);
        std::vector<string> got;
        for (auto& p : m.SearchPaths()) got.push_back(p.string());
        MC_CHECK(bad || got == want, "with%s the search paths are%s, not%s", text(args).c_str(), text(got).c_str(), text(want).c_str());
    } catch (PluginManager::BadSearchPath&) {
        threw = true;
    }
    MC_CHECK(threw == bad, "with%s: a bad path %s", text(args).c_str(), threw ? "is reported" : "is not reported");
}
void search()
{
    // plugin gamma: files in two search directories and in the system's, under both names, each absent, broken or good
    static const char* kFile[] = {"libfairmq-plugin-gamma.so", "libFairMQPlugin_gamma.so"};
    int there[4];
    loadable.clear();
    loaded.clear();
    string dir[2], first;
    int set[2] = {0, 0};
    for (int i = 0; i < 4; ++i) {
        there[i] = mc::choose(3, "file");
        if (there[i]) set[i / 2] |= 1 << (i % 2);
    }
    for (int i = 0; i < 2; ++i) dir[i] = g_dir + "/" + (i ? "b" : "a") + std::to_string(set[i]);
    for (int i = 0; i < 4; ++i) {
        string p = dir[i / 2] + "/" + kFile[i % 2];
        if (there[i] && first.empty()) first = p;
        if (there[i] == 2) loadable.insert(p);
    }
    int sys = mc::choose(4, "files in the system's directories");
    for (int i = 0; i < 2; ++i) if (sys & (1 << i)) loadable.insert(kFile[i]);
    bool viaArgs = mc::flag("asked for on the command line");
    bool prefixed = mc::flag("name with d:");
    string name = prefixed ? "d:gamma" : "gamma";
    mc::transition();
    string what = "directories " + dir[0].substr(g_dir.size()) + " and " + dir[1].substr(g_dir.size()) + ", good:";
    for (auto& s : loadable) what += " " + (s.compare(0, g_dir.size(), g_dir) ? s : s.substr(g_dir.size()));
    mc::state(mc::hash_str(what + name));
    bool ok = true;
    std::unique_ptr<PluginManager> m;
    try {
        if (viaArgs) m = std::make_unique<PluginManager>(Args{"program", "-S", dir[0], dir[1], "-P", name});
        else {
            m = std::make_unique<PluginManager>();
            m->SetSearchPaths({dir[0], dir[1]});
            m->LoadPlugin(name);
        }
    } catch (PluginManager::PluginLoadError&) {
        ok = false;
    }
    MC_CHECK(loaded.size() <= 1, "%s: loaded%s", what.c_str(), text(loaded).c_str());
    string got = loaded.empty() ? "" : loaded[0];
    MC_CHECK(ok == !loaded.empty(), "%s: loaded \"%s\", %s", what.c_str(), got.c_str(), ok ? "no error" : "but reported an error");
    if (loadable.empty()) MC_CHECK(!ok, "%s: no error", what.c_str());
    if (!first.empty() && loadable.count(first)) MC_CHECK(got == first, "%s: loaded \"%s\", not %s", what.c_str(), got.c_str(), first.c_str());
    if (first.empty() && sys) MC_CHECK(got == kFile[sys & 1 ? 0 : 1], "%s: loaded \"%s\"", what.c_str(), got.c_str());
    if (!first.empty() && sys) MC_CHECK(ok, "%s: not loaded from the system's directories", what.c_str());
    PluginManager p;
    p.SetSearchPaths({dir[0], dir[1]});
    try {
        string f = p.SearchPluginFile("gamma").string();
        MC_CHECK(f == first, "%s: found \"%s\", not \"%s\"", what.c_str(), f.c_str(), first.c_str());
    } catch (PluginManager::PluginNotFound&) {
        MC_CHECK(first.empty(), "%s: %s not found", what.c_str(), first.c_str());
    }
    mc::outcome(got.compare(0, g_dir.size(), g_dir) ? got : got.substr(g_dir.size()));
}
// plugins are loaded once, whatever the way, and instantiated in the order of loading
void loads()
{
    static const Args kHow{"p:alpha", "p:beta", "s:alpha", "s:beta", "gamma", "d:gamma", "s:config", "s:control", "p:missing"};
    loadable = {"libfairmq-plugin-gamma.so"};
    failing.clear();
    seen.clear();
    Args done, want;
    ProgOptions o;
    Device d(o);
    clean();
    o.SetProperty<string>("control", "none");
    o.SetProperty<int>("catch-signals", 0);
    {
        PluginManager m;
        m.EmplacePluginServices(o, d);
        std::set<string> named;
        int n = 1 + mc::choose(mc::thorough() ? 4 : 3, "loads");
        int split = mc::choose(2, "plugins are instantiated in between");
        for (int i = 0; i < n; ++i) {
            string h = kHow[mc::choose(kHow.size(), "load")];
            done.push_back(h);
            bool threw = false;
            try { m.LoadPlugin(h); } catch (PluginManager::PluginLoadError&) { threw = true; }
            MC_CHECK(threw == (h == "p:missing"), "after%s: %s", text(done).c_str(), threw ? "cannot be loaded" : "no error");
            string name = h.substr(h.find(':') + 1);
            if (!threw && named.insert(name).second) want.push_back(name);
            if (split && i == 0) m.InstantiatePlugins();
        }
        m.InstantiatePlugins();
        mc::transition();
        mc::state(mc::hash_str(text(done)));
        Args got;
        m.ForEachPlugin([&](Plugin& p) { got.push_back(p.GetName()); });
        MC_CHECK(got == want, "after%s the plugins are%s, not%s", text(done).c_str(), text(got).c_str(), text(want).c_str());
        Args made;
        for (auto& s : seen) if (!s.compare(0, 7, "plugin ")) made.push_back(s.substr(7));
        Args probes;
        for (auto& w : want) if (w != "config" && w != "control") probes.push_back(w);
        MC_CHECK(made == probes, "after%s: plugins instantiated:%s, not%s", text(done).c_str(), text(made).c_str(), text(probes).c_str());
        int opts = 0, wopts = named.count("alpha") + named.count("config") + named.count("control");
        m.ForEachPluginProgOptions([&](po::options_description) { ++opts; });
        MC_CHECK(opts == wopts, "after%s: options of %d plugins, not %d", text(done).c_str(), opts, wopts);
    }
    mc::outcome(text(want));
}
}   // namespace

std::unique_ptr<Device> getDevice(ProgOptions& c) { return makeDevice(c); }
void addCustomOptions(po::options_description& d) { d.add_options()("main-opt", po::value<int>()->default_value(3), ""); }

int main(int argc, char** argv)
{
    using mc::Opts;
    using mc::Scenario;
    char tmpl[] = "/tmp/mc34.XXXXXX";
    if (!mkdtemp(tmpl)) return 2;
    g_dir = tmpl;
    std::vector<string> files, dirs;
    auto file = [&](const string& p, const string& s) { writeFile(p, s); files.push_back(p); };
    file(g_dir + "/file.so", "x");
    file(g_dir + "/bad.json", "{ \"fairMQOptions\": { \"devices\": [ { \"id\": \"dev\", ");
    file(g_dir + "/good.json", R"({"fairMQOptions": {"devices": [
        {"id": "dev", "channels": [{"name": "fromid", "sockets": [{"type": "pull", "method": "bind", "address": "tcp://localhost:5003", "sndBufSize": 11}]}]},
        {"key": "keyed", "channels": [{"name": "fromkey", "sockets": [{"type": "push", "method": "bind", "address": "tcp://localhost:5004", "sndBufSize": 12}]}]}]}})");
    for (const char* d : {"a", "b"}) for (int s = 0; s < 4; ++s) {
        string p = g_dir + "/" + d + std::to_string(s);
        if (s) { mkdir(p.c_str(), 0700); dirs.push_back(p); }     // the empty one does not exist
        if (s & 1) file(p + "/libfairmq-plugin-gamma.so", "x");
        if (s & 2) file(p + "/libFairMQPlugin_gamma.so", "x");
    }
    std::vector<Scenario> v;
    auto seq = [&](std::string n, std::string w, std::function<void()> b, double weight = 1) {
        Opts o;
        o.preemptions = o.preemptions_thorough = 0;
        o.early_timeouts = false;
        o.max_steps = 60000;
        o.weight = weight;
        v.push_back({n, w, b, o});
    };
    auto sch = [&](std::string n, std::string w, std::function<void()> b, double weight, int pre) {
        seq(n, w, b, weight);
        Opts& o = v.back().opts;
        o.preemptions = pre;
        o.preemptions_thorough = pre + 1;
        o.delays = true;
    };
    seq("one_option", "every option, every value, every form, amid arguments that are not the program's", oneOption, 3);
    seq("two_options", "every two options", twoOptions, 2);
    seq("channel_config", "lists of channel configurations", channelConfig);
    seq("short_options", "short options and implicit values", shortOptions);
    seq("hooks", "what each of the program's hooks may do", hooks34);
    sch("ends", "any hook of the device fails", ends, 3, 1);
    seq("questions", "help, options, channels, version", questions);
    seq("channels", "where the channels come from", channels34, 2);
    seq("logging", "options of the log", logging);
    seq("plugins", "plugins of the command line and of the hook", plugins34, 3);
    seq("missing_plugin", "plugins that cannot be loaded", missingPlugin);
    sch("driving_plugin", "a plugin in control of the device", drivingPlugin, 3, 2);
    seq("search_paths", "every list of search paths", searchPaths, 2);
    seq("search", "every way in which a plugin may be installed", search, 2);
    seq("loads", "every sequence of loads", loads, 2);
    pid_t me = getpid();
    int rc = mc::run(argc, argv, v);
    if (getpid() == me) {
        for (auto& f : files) unlink(f.c_str());
        for (auto& d : dirs) rmdir(d.c_str());
        rmdir(g_dir.c_str());
    }
    return rc;
}
