// Shared by the drivers of devices: real device, configuration and transports over the in-process
// stand-ins, and a device that records which of its hooks are called.
#pragma once
#include "fakeshm.h"
#include "fakezmq.h"
#include "mc.h"
#include <condition_variable>
#include <fairmq/Device.h>
#include <fairmq/ProgOptions.h>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

namespace dv {
using namespace fair::mq;
using S = State;
using T = Transition;

// answers of the name resolution stand-ins
inline std::map<std::string, std::string> hosts{{"localhost", "127.0.0.1"}, {"127.0.0.1", "127.0.0.1"}, {"*", ""}};
inline bool no_route = false;

inline void clean()
{
    fakeshm::reset();
    fakezmq::reset();
    mc::Quiet q;
    no_route = false;
}
inline std::unique_ptr<ProgOptions> options(const std::string& id = "dev", const std::string& session = "devices")
{
    mc::Quiet q;
    auto o = std::make_unique<ProgOptions>();
    Properties p;
    p["id"] = std::string(id);
    p["session"] = std::string(session);
    p["shm-monitor"] = false;
    p["shm-segment-size"] = size_t(1 << 18);
    o->SetProperties(p);
    return o;
}
struct Chan { std::string name, type, method, address, transport; int index = 0; std::map<std::string, int> more; bool autobind = true; };
inline void add(ProgOptions& o, const Chan& c)
{
    mc::Quiet q;
    std::string x = "chans." + c.name + "." + std::to_string(c.index) + ".";
    Properties p;
    p[x + "type"] = std::string(c.type);
    if (!c.method.empty()) p[x + "method"] = std::string(c.method);
    p[x + "address"] = std::string(c.address);
    p[x + "transport"] = std::string(c.transport.empty() ? "default" : c.transport);
    for (auto& m : c.more) p[x + m.first] = m.second;
    p[x + "autoBind"] = c.autobind;
    o.SetProperties(p);
}

enum Hook { INIT, BIND, CONNECT, INITTASK, PRERUN, COND, RUN, POSTRUN, RESETTASK, RESET, NHOOKS };
inline const char* kHook[] = {"Init", "Bind", "Connect", "InitTask", "PreRun", "ConditionalRun", "Run", "PostRun", "ResetTask", "Reset"};

// a device whose hooks report to the driver
class Dev : public Device
{
  public:
    explicit Dev(ProgOptions& c) : Device(c) {}
    std::function<void(Hook)> on;                 // called in every hook
    std::function<bool()> cond;                   // answer of ConditionalRun
    void Init() override { if (on) on(INIT); }
    void Bind() override { if (on) on(BIND); }
    void Connect() override { if (on) on(CONNECT); }
    void InitTask() override { if (on) on(INITTASK); }
    void PreRun() override { if (on) on(PRERUN); }
    bool ConditionalRun() override { if (on) on(COND); return cond ? cond() : false; }
    void Run() override { if (on) on(RUN); }
    void PostRun() override { if (on) on(POSTRUN); }
    void ResetTask() override { if (on) on(RESETTASK); }
    void Reset() override { if (on) on(RESET); }
};

// where a device has been
struct Track
{
    std::vector<S> seen;
    void push(S s) { mc::Quiet q; seen.push_back(s); }
    // waits until s has been visited (n times); false if the device ended before that
    bool until(S s, int n = 1)
    {
        bool ok = false;
        mc::block_until([&] {
            int k = 0;
            for (S x : seen) { if (x == s && ++k == n) { ok = true; return true; } if (x == S::Error || x == S::Exiting) return true; }
            return false;
        }, -1, "state");
        return ok;
    }
};
inline std::string name(S s) { return GetStateName(s); }
inline std::string name(T t) { return GetTransitionName(t); }
}   // namespace dv

#ifdef DEVICE_MAIN
namespace fair::mq::tools {
std::string getIpFromHostname(const std::string& h) { mc::Quiet q; auto i = dv::hosts.find(h); return i == dv::hosts.end() ? "" : i->second; }
std::string getInterfaceIP(const std::string& i) { return i == "nodev" ? "" : "127.0.0.1"; }
std::string getDefaultRouteNetworkInterface() { if (dv::no_route) throw DefaultRouteDetectionError("no default route"); return "eth0"; }
}
#endif
