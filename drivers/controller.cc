// C07: who may steer a device (PluginServices and Plugin)
#define DEVICE_MAIN
#include "device.h"
#include <fairmq/Plugin.h>
#include <fairmq/PluginServices.h>
#include <algorithm>
using namespace dv;

namespace {
struct Party : Plugin
{
    Party(const std::string& n, PluginServices& ps) : Plugin(n, {1, 0, 0}, "m", "h", &ps) {}
};
const char* kNames[] = {"a", "ab", "b"};
enum Kind { TAKE, STEAL, RELEASE, CHANGE, GET, WAIT, NKINDS };
const char* kKind[] = {"take", "steal", "release", "change", "get", "wait"};
const T kT[] = {T::InitDevice, T::End, T::Bind};

// reference: one controller at most; a device that accepts what a real device of its own accepts
struct Model
{
    int holder = -1;
    std::vector<T> reached;
    // the answer to an operation: "" if it is not possible now
    std::string apply(int party, Kind k, T t, Device* ref)
    {
        switch (k) {
            case TAKE: if (holder >= 0 && holder != party) return "denied"; holder = party; return "ok";
            case STEAL: holder = party; return "ok";
            case RELEASE: if (holder == party) holder = -1; return "ok";
            case CHANGE: {
                if (holder >= 0 && holder != party) return "denied";
                holder = party;
                reached.push_back(t);
                if (ref) return ref->ChangeState(t) ? "yes" : "no";
                bool first = std::count(reached.begin(), reached.end(), t) == 1 && reached.size() == 1;   // only InitDevice is used then
                return first ? "yes" : "no";
            }
            case GET: return holder < 0 ? "nobody" : kNames[holder];
            case WAIT: return holder < 0 ? "ok" : "";
            default: return "?";
        }
    }
};
struct Services
{
    std::unique_ptr<ProgOptions> o = options();
    Dev d{*o};
    PluginServices ps{*o, d};
    std::vector<std::unique_ptr<Party>> p;
    Services() { for (auto n : kNames) p.push_back(std::make_unique<Party>(n, ps)); }
    std::string call(int i, Kind k, T t, bool direct)
    {
        try {
            switch (k) {
                case TAKE: direct ? ps.TakeDeviceControl(kNames[i]) : p[i]->TakeDeviceControl(); return "ok";
                case STEAL: direct ? ps.StealDeviceControl(kNames[i]) : p[i]->StealDeviceControl(); return "ok";
                case RELEASE: direct ? ps.ReleaseDeviceControl(kNames[i]) : p[i]->ReleaseDeviceControl(); return "ok";
                case CHANGE: return (direct ? ps.ChangeDeviceState(kNames[i], t) : p[i]->ChangeDeviceState(t)) ? "yes" : "no";
                case GET: { auto c = ps.GetDeviceController(); return c ? *c : "nobody"; }
                case WAIT: ps.WaitForReleaseDeviceControl(); return "ok";
                default: return "?";
            }
        } catch (PluginServices::DeviceControlError&) {
            return "denied";
        }
    }
};
void histories(int depth)
{
    clean();
    bool direct = mc::flag("called on the services");
    Services s;
    auto o2 = options();
    Dev ref(*o2);
    Model m;
    std::string log;
    for (int i = 0; i < depth; ++i) {
        // party x {take, steal, release, three transitions}
        int c = mc::choose(18, "operation"), party = c / 6, op = c % 6;
        Kind k = op < 3 ? Kind(op) : CHANGE;
        T t = kT[op < 3 ? 0 : op - 3];
        mc::transition();
        auto want = m.apply(party, k, t, &ref);
        auto got = s.call(party, k, t, direct);
        log += std::string(" ") + kNames[party] + "." + kKind[k] + (k == CHANGE ? "(" + name(t) + ")" : "") + "=" + got;
        MC_CHECK(got == want, "%s: answer should be %s", log.c_str(), want.c_str());
        auto h = s.call(0, GET, t, true);
        MC_CHECK(h == m.apply(0, GET, t, nullptr), "%s: controller is %s", log.c_str(), h.c_str());
        MC_CHECK(s.d.NewStatePending() == ref.NewStatePending() && s.d.GetCurrentState() == ref.GetCurrentState(), "%s: the device's state differs", log.c_str());
        if (m.holder < 0) s.call(0, WAIT, t, true);     // nobody to wait for
    }
    mc::outcome(log);
    mc::state(mc::hash_bytes(log.data(), log.size()));
}

// concurrent calls; every result must be explained by some order of the calls
struct Call { int thread, party; Kind k; int begin = 0, end = 0; std::string result; };
bool explain(std::vector<Call>& c, std::vector<bool>& used, Model m, int left)
{
    if (!left) return true;
    for (size_t i = 0; i < c.size(); ++i) {
        if (used[i]) continue;
        bool ok = true;
        for (size_t j = 0; j < c.size() && ok; ++j) if (!used[j] && j != i && c[j].end < c[i].begin) ok = false;
        if (!ok) continue;
        Model n = m;
        if (n.apply(c[i].party, c[i].k, T::InitDevice, nullptr) != c[i].result) continue;
        used[i] = true;
        bool r = explain(c, used, n, left - 1);
        used[i] = false;
        if (r) return true;
    }
    return false;
}
using Plan = std::vector<std::pair<int, std::vector<Kind>>>;    // party, calls
void concurrent(int holder, const Plan& plan, bool direct)
{
    clean();
    Services s;
    std::vector<Call> calls;
    int clock = 0;
    Model start;
    if (holder >= 0) { s.ps.TakeDeviceControl(kNames[holder]); start.holder = holder; }
    std::vector<std::vector<Call>> done(plan.size());
    std::vector<std::thread> t;
    for (size_t i = 0; i < plan.size(); ++i) t.emplace_back([&, i] {
        for (Kind k : plan[i].second) {
            Call c{int(i), plan[i].first, k, 0, 0, ""};
            { mc::Quiet q; c.begin = ++clock; }
            auto r = s.call(c.party, k, T::InitDevice, direct);
            mc::Quiet q;
            c.end = ++clock;
            c.result = r;
            done[i].push_back(c);
            mc::transition();
        }
    });
    for (auto& x : t) x.join();
    std::string log;
    for (auto& d : done) for (auto& c : d) calls.push_back(c);
    // the last word: who is in control
    calls.push_back({99, 0, GET, ++clock, clock + 1, s.call(0, GET, T::InitDevice, true)});
    for (auto& c : calls) log += std::string(" ") + kNames[c.party] + "." + kKind[c.k] + "=" + c.result + "[" + std::to_string(c.begin) + "," + std::to_string(c.end) + "]";
    std::vector<bool> used(calls.size());
    MC_CHECK(explain(calls, used, start, int(calls.size())), "no order of the calls explains the results:%s", log.c_str());
    std::string o;
    for (auto& c : calls) o += c.result + " ";
    mc::outcome(o);
}
}   // namespace

int main(int argc, char** argv)
{
    using mc::Opts;
    using mc::Scenario;
    std::vector<Scenario> v;
#ifdef SEQ
    Opts o;
    o.preemptions = o.preemptions_thorough = 0;
    o.in_main = true;
    v.push_back({"histories", "every sequence of up to 4 calls of three parties with similar names", [] { histories(mc::thorough() ? 5 : 4); }, o});
#else
    auto sch = [&](std::string n, std::string w, int holder, Plan p, bool direct = true, double weight = 1) {
        Opts o;
        o.preemptions = 3;
        o.preemptions_thorough = 5;
        o.races = o.freecheck = true;
        o.weight = weight;
        v.push_back({n, w, [=] { concurrent(holder, p, direct); }, o});
    };
    sch("plugins", "the same calls made by plugins", 0, {{1, {STEAL, CHANGE, RELEASE}}, {0, {CHANGE, RELEASE}}, {2, {WAIT}}}, false, 2);
    sch("plugins_take", "plugins take and release", -1, {{0, {TAKE, RELEASE}}, {1, {TAKE, RELEASE}}, {2, {CHANGE, GET}}}, false, 2);
    sch("two_waiters", "two parties wait for the controller to give up", 0, {{1, {WAIT}}, {2, {WAIT}}, {0, {RELEASE}}});
    sch("three_waiters", "three wait, one of them twice", 0, {{1, {WAIT}}, {2, {WAIT, WAIT}}, {1, {WAIT}}, {0, {RELEASE}}});
    sch("wait_steal", "control is stolen while somebody waits, then released by the thief", 0, {{1, {WAIT}}, {2, {STEAL, RELEASE}}, {0, {RELEASE}}});
    sch("wait_take", "control is taken again by the one who waits first", 0, {{1, {WAIT, TAKE, RELEASE}}, {2, {WAIT}}, {0, {RELEASE}}});
    sch("wait_change", "control is taken implicitly", 0, {{1, {CHANGE, RELEASE}}, {2, {WAIT}}, {0, {RELEASE}}});
    sch("two_take", "two parties take control", -1, {{0, {TAKE, RELEASE}}, {1, {TAKE, RELEASE}}});
    sch("three_take", "three parties take control", -1, {{0, {TAKE, CHANGE}}, {1, {TAKE, CHANGE}}, {2, {TAKE, CHANGE}}});
    sch("steal_change", "a request while control is stolen", 0, {{0, {CHANGE, GET}}, {1, {STEAL, CHANGE}}});
    sch("steal_steal", "two thieves", 0, {{0, {CHANGE}}, {1, {STEAL, CHANGE}}, {2, {STEAL, CHANGE}}});
    sch("implicit", "two requests while nobody is in control", -1, {{0, {CHANGE, RELEASE}}, {1, {CHANGE, RELEASE}}});
    sch("implicit_three", "requests, a take and a release race", 2, {{0, {CHANGE}}, {1, {CHANGE}}, {2, {RELEASE, TAKE}}});
    sch("release_other", "somebody else releases", 0, {{1, {RELEASE, TAKE}}, {0, {CHANGE, GET}}});
#endif
    return mc::run(argc, argv, v);
}
