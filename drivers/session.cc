// C20 (a session's shared memory lives as long as it has users), C21 (cleanup after a crash anywhere)
#include "transport.h"
#include <fairmq/shmem/Monitor.h>
#include <fairmq/shmem/Segment.h>
#include <filesystem>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace tr;
using fair::mq::shmem::Monitor;
using fair::mq::shmem::SessionId;
using fair::mq::shmem::ShmId;

namespace {
std::string g_dir;
const std::string kSession = "run1";
const std::string kOther = "run2";
std::string me() { mc::Quiet q; return shmid(kSession); }
using Snap = std::map<std::string, uint64_t>;
// objects that belong to somebody else
Snap plant()
{
    mc::Quiet q;
    std::string id = me(), o = shmid(kOther);
    Snap r;
    for (const std::string& n : {"fmq_" + o + "_mng", "fmq_" + o + "_m_0", "fmq_" + o + "_rg_1", "fmq_" + o + "_rgq_1", "fmq_" + o + "_rrc_1",
                                 "fmq_" + id + "0_mng", "fmq_" + id + "0_m_0", "fmq_" + id.substr(0, 7) + "_m_0", id + "_m_0", std::string("somebody_else"), "xfmq_" + id + "_m_0"}) {
        fakeshm::put(n, 64);
        r[n] = fakeshm::hash(n);
    }
    return r;
}
Snap snap()
{
    mc::Quiet q;
    Snap r;
    for (auto& n : fakeshm::objects()) r[n] = fakeshm::hash(n);
    return r;
}
std::set<std::string> mine(const Snap& foreign)
{
    mc::Quiet q;
    std::set<std::string> r;
    for (auto& n : fakeshm::objects()) if (!foreign.count(n)) r.insert(n);
    return r;
}
std::string list(const std::set<std::string>& s) { std::string r; for (auto& x : s) r += " " + x; return r; }
void untouched(const Snap& foreign, const std::string& when)
{
    mc::Quiet q;
    for (auto& f : foreign) {
        MC_CHECK(fakeshm::exists(f.first), "%s: object %s of somebody else has been removed", when.c_str(), f.first.c_str());
        MC_CHECK(!f.second || fakeshm::hash(f.first) == f.second, "%s: object %s of somebody else has been changed", when.c_str(), f.first.c_str());
    }
    for (auto& u : fakeshm::unlinked_files) if (u.find('/') != std::string::npos && u.find("fmq_" + me() + "_") == std::string::npos) MC_CHECK(false, "%s: tried to remove file %s", when.c_str(), u.c_str());
}
void nothing_left(const Snap& foreign, const std::string& when)
{
    untouched(foreign, when);
    auto m = mine(foreign);
    MC_CHECK(m.empty(), "%s: left over:%s", when.c_str(), list(m).c_str());
}
std::string scratch()
{
    mc::Quiet q;
    std::string s = g_dir + "/session." + std::to_string(getpid()) + "/";
    mkdir(s.c_str(), 0700);
    fakeshm::file_prefix = s;
    return s;
}
std::set<std::string> files(const std::string& dir)
{
    mc::Quiet q;
    std::set<std::string> r;
    for (auto& e : std::filesystem::directory_iterator(dir)) r.insert(e.path().filename().string());
    return r;
}
struct Opt { uint16_t seg = 0; bool noclean = false; std::string alg = "rbtree_best_fit"; bool mlock = false, mlockc = false, zero = false, zeroc = false; std::string session = kSession; };
Fac attach(const std::string& name, const Opt& x = {})
{
    ProgOptions* o;
    {
        mc::Quiet q;
        o = options(x.session, kSeg, x.seg, x.alg);
        o->values["shm-no-cleanup"] = x.noclean;
        o->values["shm-mlock-segment"] = x.mlock;
        o->values["shm-mlock-segment-on-creation"] = x.mlockc;
        o->values["shm-zero-segment"] = x.zero;
        o->values["shm-zero-segment-on-creation"] = x.zeroc;
    }
    struct Del { ProgOptions* o; ~Del() { mc::Quiet q; delete o; } } del{o};
    return std::make_shared<shmem::TransportFactory>(name, o);
}
bool sees(Fac& f, uint16_t seg)
{
    auto infos = f->GetRegionInfo();
    mc::Quiet q;
    for (auto& i : infos) if (i.managed && i.id == seg) return true;
    return false;
}

#if PROP == 21
// ---- C21: death at every scheduling point of a lifetime, then listing, cleanup, restart -----------
struct Crash { bool reset = false, armed = false, crashed = false, finished = false; std::string where; std::vector<int> keep; };
struct Vary { bool full = false, survivor = false, other = false; };
Crash g;

void after(const Snap& foreign, const std::string& dir, bool full, std::set<std::string> keepfiles)
{
    std::string when = g.crashed ? "death at '" + g.where + "'" : std::string("after an orderly end");
    // the listing changes nothing
    if (g.reset && g.crashed) {
        auto id = SessionId{kSession};
        bool all = Monitor::SegmentIsPresent(id, 3) && Monitor::SegmentIsPresent(id, 4) && Monitor::RegionIsPresent(id, 7) && Monitor::RegionIsPresent(id, 8);
        if (!all) when = "resetting with configurations, death before everything is registered again";
    }
    auto still = [&] { Snap r = snap(); for (auto& f : foreign) if (!f.second) r[f.first] = 0; return r; };    // living sessions' contents change
    Snap before = still();
    auto fbefore = files(dir);
    Monitor::PrintShm(ShmId{me()});
    Monitor::SegmentIsPresent(SessionId{kSession}, 0);
    Monitor::RegionIsPresent(SessionId{kSession}, 1);
    MC_CHECK(still() == before, "%s: the listing changed shared memory", when.c_str());
    MC_CHECK(files(dir) == fbefore, "%s: the listing changed files", when.c_str());
    auto clean = [&] { return full ? Monitor::CleanupFull(SessionId{kSession}) : Monitor::Cleanup(SessionId{kSession}); };
    auto res = clean();
    nothing_left(foreign, when + ", after the cleanup");
    auto left = files(dir);
    MC_CHECK(left == keepfiles, "%s, after the cleanup: files left:%s", when.c_str(), list(left).c_str());
    {
        mc::Quiet q;
        for (auto& r : res) if (r.second) MC_CHECK(before.count(r.first) || fbefore.size() || r.first.find("ms") != std::string::npos, "%s: reported to have removed %s, which did not exist", when.c_str(), r.first.c_str());
        for (auto& b : before) if (!foreign.count(b.first) && b.first.rfind("sem.", 0) != 0) {
            bool said = false;
            for (auto& r : res) said |= r.second && r.first == b.first;
            MC_CHECK(said, "%s: the cleanup does not report the removal of %s", when.c_str(), b.first.c_str());
        }
    }
    clean();
    nothing_left(foreign, when + ", after another cleanup");
    // a new device starts, works and leaves nothing
    {
        Fac n = attach("new");
        auto m = n->CreateMessage(1000);
        MC_CHECK(m->GetSize() == 1000, "%s: a new device cannot allocate", when.c_str());
        Acks acks;
        RegionConfig cfg;
        cfg.id = 1;
        cfg.rcSegmentSize = 100000;
        cfg.linger = 10;
        auto r = region(n, acks, 4096, false, cfg);
        MC_CHECK(r->GetSize() == 4096, "%s: a new device cannot create a region", when.c_str());
        MC_CHECK(Monitor::SegmentIsPresent(SessionId{kSession}, 0), "%s: the new device's session is not there", when.c_str());
    }
    nothing_left(foreign, when + ", after a new device has run");
}
void lifetime(std::function<void(const std::string& dir)> life, std::function<void(const std::string& dir)> prepare, Vary vary = {})
{
    clean();
    mc::set_tick(1000);
    g = Crash{};
    std::string dir = scratch();
    Snap foreign = plant();
    prepare(dir);
    Fac other, survivor;                        // devices of another session, and of this one in another process
    MessagePtr om;
    int others = 1;
    if (vary.other) {
        other = attach("other", {.seg = 5, .session = "run3"});
        om = other->CreateMessage(100);
        fill(om->GetData(), 100, 3);
        for (auto* n : {"_mng", "_m_5"}) foreign["fmq_" + shmid("run3") + n] = 0;      // content changes: heartbeats
    }
    others = mc::threads();
    if (vary.survivor) survivor = attach("survivor", {.seg = 6});
    for (int i = 0; i < mc::threads(); ++i) g.keep.push_back(i);
    fakeshm::hook = [](const char* what, const char*) { mc::yield_point(what); };
    mc::at_points([](const char* what) {
        if (!g.armed || g.crashed || g.finished || std::find(g.keep.begin(), g.keep.end(), mc::self_id()) != g.keep.end()) return;
        if (!mc::choose(2, "crash")) return;
        g.crashed = true;
        g.where = what;
        mc::transition();
        mc::freeze_others(g.keep);
    });
    g.armed = true;
    auto* d = new std::thread([&] {
        life(dir);
        g.finished = true;
    });
    mc::block_until([] { return g.crashed || g.finished; }, -1, "death or end");
    g.armed = false;
    if (!g.crashed) d->join();
    else fakezmq::lost();
    if (survivor) {     // it detaches, unless it has to wait for the dead forever: then it is killed, too
        auto* s = new std::shared_ptr<shmem::TransportFactory>(std::move(survivor));
        static bool done;
        done = false;
        auto* t = new std::thread([s] { s->reset(); done = true; });
        if (mc::block_until([] { return done; }, mc::now_ns() + 5000000000ll, "survivor")) t->join();
        else {
            std::vector<int> keep;
            for (int i = 0; i < others; ++i) keep.push_back(i);
            mc::freeze_others(keep);
            fakezmq::lost();
        }
    }
    after(foreign, dir, vary.full, {"keep", "fmq_" + shmid(kOther) + "_rg_1"});
    if (other) {
        MC_CHECK(holds(om->GetData(), 100, 3), "content of a message of another session changed");
        om.reset();
        auto m2 = other->CreateMessage(1000);
        MC_CHECK(Monitor::SegmentIsPresent(SessionId{"run3"}, 5), "the other session is gone");
    }
    mc::outcome(g.crashed ? "died at " + g.where : "finished");
    mc::state(g.where.size());
}
void touch(const std::string& f) { mc::Quiet q; std::ofstream(f) << "x"; }
void base(const std::string& dir) { touch(dir + "keep"); touch(dir + "fmq_" + shmid(kOther) + "_rg_1"); }
void life_device()
{
    lifetime([](const std::string&) { Fac f = attach("d"); auto m = f->CreateMessage(100); m.reset(); }, base);
}
void life_region()
{
    lifetime([](const std::string&) {
        Fac f = attach("d");
        Acks a;
        RegionConfig cfg;
        cfg.rcSegmentSize = 100000;
        cfg.linger = 10;
        cfg.id = 5;
        auto r = region(f, a, 4096, false, cfg);
        auto m = f->CreateMessage(r, r->GetData(), 100, nullptr);
        m.reset();
    }, base);
}
void life_file()
{
    lifetime([](const std::string& dir) {
        Fac f = attach("d");
        RegionConfig cfg;
        cfg.rcSegmentSize = 0;
        cfg.path = dir;
        cfg.id = 5;
        auto r = f->CreateUnmanagedRegion(4096, RegionCallback(nullptr), cfg);
    }, base);
}
void life_two()
{
    lifetime([](const std::string&) {
        Fac a = attach("a"), b = attach("b", {.seg = 1, .alg = "simple_seq_fit"});
        auto m = b->CreateMessage(100);
        a.reset();
        m.reset();
    }, base);
}
void life_others()
{
    lifetime([](const std::string&) {
        Fac f = attach("d");
        RegionConfig cfg;
        cfg.rcSegmentSize = 100000;
        auto r = f->CreateUnmanagedRegion(4096, RegionCallback(nullptr), cfg);
    }, base, {.survivor = true, .other = true});
}
void leftover(const std::string& dir);
// its regions and segments are known to the caller: a session is created anew around them
void reset_cfg(const std::string& dir)
{
    std::vector<shmem::SegmentConfig> segs{{3, kSeg, "rbtree_best_fit"}, {4, kSeg, "simple_seq_fit"}};
    std::vector<RegionConfig> regions(2);
    regions[0].id = 7;
    regions[1].id = 8;
    regions[1].path = dir;
    Monitor::ResetContent(SessionId{kSession}, segs, regions, false);
}
void life_reset_cfg()
{
    lifetime(reset_cfg, [](const std::string& d) { leftover(d); g.reset = true; });
}
void life_viewer()
{
    lifetime([](const std::string&) {
        Fac a = attach("a"), b = attach("b");
        RegionConfig cfg;
        cfg.rcSegmentSize = 100000;
        auto r = a->CreateUnmanagedRegion(4096, RegionCallback(nullptr), cfg);
        auto i = b->GetRegionInfo();
        a.reset();
    }, base);
}
void life_nocleanup()
{
    lifetime([](const std::string&) {
        Fac a = attach("a", {.seg = 3, .noclean = true});
        RegionConfig cfg;
        cfg.rcSegmentSize = 100000;
        cfg.removeOnDestruction = false;
        cfg.id = 7;
        auto r = a->CreateUnmanagedRegion(4096, RegionCallback(nullptr), cfg);
    }, base);
}
void leftover(const std::string& dir)
{
    base(dir);
    {
        Fac a = attach("a", {.seg = 3, .noclean = true});
        Fac b = attach("b", {.seg = 4, .noclean = true, .alg = "simple_seq_fit"});
        RegionConfig cfg;
        cfg.rcSegmentSize = 100000;
        cfg.removeOnDestruction = false;
        cfg.id = 7;
        Acks acks;
        auto r = region(a, acks, 4096, false, cfg);
        RegionConfig cf;
        cf.rcSegmentSize = 100000;
        cf.removeOnDestruction = false;
        cf.id = 8;
        cf.path = dir;
        auto s = a->CreateUnmanagedRegion(4096, RegionCallback(nullptr), cf);
    }
}
// the cleanup itself dies
void life_cleanup()
{
    lifetime([](const std::string&) { Monitor::Cleanup(SessionId{kSession}); }, leftover);
}
void life_reset()
{
    lifetime([](const std::string&) { Monitor::ResetContent(SessionId{kSession}, false); }, leftover);
}
void life_tools()
{
    lifetime([](const std::string& dir) {
        shmem::Segment s(me(), 0, kSeg, shmem::rbTreeBestFit);
        shmem::Segment t(me(), 1, kSeg, shmem::simpleSeqFit);
        RegionConfig cfg;
        cfg.id = 3;
        cfg.size = 4096;
        cfg.rcSegmentSize = 100000;
        cfg.removeOnDestruction = false;
        shmem::UnmanagedRegion r(me(), cfg);
        cfg.id = 4;
        cfg.path = dir;
        shmem::UnmanagedRegion u(me(), cfg);
        Fac a = attach("a");
    }, base);
}
// the monitor daemon finds a dead session, cleans it up and ends; it dies anywhere as well
void life_monitor()
{
    lifetime([](const std::string&) { Monitor m(me(), true, false, false, 1000, 100, true, true); m.Run(); }, leftover, {.full = true});
}
#endif

#if PROP == 20
std::string seg(uint16_t id) { return "fmq_" + me() + "_m_" + std::to_string(id); }
// ---- C20: devices attach and detach in several threads ------------------------------------------
struct World { std::map<int, uint16_t> attached; int born = 0; };
World w;
void works(Fac& f, int i, uint16_t id, const std::string& when)
{
    MC_CHECK(Monitor::SegmentIsPresent(SessionId{kSession}, id), "%s: the session's segment %d is not there although device %d is attached", when.c_str(), int(id), i);
    std::map<int, uint16_t> others;
    {
        mc::Quiet q;
        MC_CHECK(fakeshm::exists("fmq_" + me() + "_mng"), "%s: the session is gone although device %d is attached", when.c_str(), i);
        others = w.attached;
    }
    // everybody attached is in the same session
    auto infos = f->GetRegionInfo();
    mc::Quiet q;
    for (auto& o : others) {
        bool found = false;
        for (auto& x : infos) found |= x.managed && x.id == o.second;
        MC_CHECK(found, "%s: device %d does not see the segment of device %d, which is attached", when.c_str(), i, o.first);
    }
}
void party(int i, std::vector<uint16_t> segs, bool traffic)
{
    for (uint16_t s : segs) {
        Fac f = attach("d" + std::to_string(i), {.seg = s});
        { mc::Quiet q; w.attached[i] = s; ++w.born; }
        mc::transition();
        works(f, i, s, "after the attach");
        if (traffic) {
            auto m = f->CreateMessage(64);
            fill(m->GetData(), 64, i);
            mc::yield_point("traffic");
            MC_CHECK(holds(m->GetData(), 64, i), "content of a message of device %d changed", i);
        }
        mc::yield_point("attached");
        works(f, i, s, "before the detach");
        { mc::Quiet q; w.attached.erase(i); }
        f.reset();
    }
}
void threads(std::vector<std::vector<uint16_t>> plan, bool traffic)
{
    clean();
    mc::set_tick(0);
    w = World{};
    Snap foreign = plant();
    {
        std::vector<std::thread> t;
        for (size_t i = 0; i < plan.size(); ++i) t.emplace_back([i, &plan, traffic] { party(int(i), plan[i], traffic); });
        for (auto& x : t) x.join();
    }
    nothing_left(foreign, "after the last detach");
    mc::outcome(std::to_string(w.born));
}
// a device is attached all the time
void guest(std::vector<std::vector<uint16_t>> plan)
{
    clean();
    mc::set_tick(0);
    w = World{};
    Snap foreign = plant();
    {
        Fac f = attach("host", {.seg = 7});
        auto m = f->CreateMessage(64);
        fill(m->GetData(), 64, 9);
        w.attached[99] = 7;
        {
            std::vector<std::thread> t;
            for (size_t i = 0; i < plan.size(); ++i) t.emplace_back([i, &plan] { party(int(i), plan[i], false); });
            for (auto& x : t) x.join();
        }
        works(f, 99, 7, "after the others have detached");
        MC_CHECK(holds(m->GetData(), 64, 9), "content of the host's message changed");
        w.attached.clear();
    }
    nothing_left(foreign, "after the last detach");
}
// ---- sequences of attaching, detaching, failing attaches, regions, in two sessions ---------------
struct Fault { int at = -1, n = 0; std::string what; };
void histories(int depth, bool faults)
{
    clean();
    mc::set_tick(0);
    Snap foreign;
    {
        mc::Quiet q;
        std::string id = me();
        for (const std::string& n : {"fmq_" + id + "0_mng", "fmq_" + id.substr(0, 7) + "_m_0", std::string("somebody_else")}) { fakeshm::put(n, 64); foreign[n] = fakeshm::hash(n); }
    }
    struct Dev { Fac f; UnmanagedRegionPtr r; MessagePtr m; int session = 0; uint16_t seg = 0; bool noclean = false, mlock = false; std::set<int> region; };
    Dev d[3];
    const std::string name[2] = {kSession, kOther};
    const std::string id[2] = {shmid(kSession), shmid(kOther)};
    std::map<int, std::set<uint16_t>> segs;       // model: segments of each session
    bool lives[2] = {false, false};
    std::string ops;
    auto users = [&](int s) { int n = 0; for (auto& x : d) n += x.f && x.session == s; return n; };
    auto check = [&] {
        std::set<std::string> want;
        for (auto& f : foreign) want.insert(f.first);
        for (int s = 0; s < 2; ++s) {
            if (!lives[s]) continue;
            want.insert("fmq_" + id[s] + "_mng");
            for (auto g : segs[s]) want.insert("fmq_" + id[s] + "_m_" + std::to_string(g));
            for (auto& x : d) if (x.f && x.session == s && x.r) for (auto* k : {"rg", "rrc"}) want.insert("fmq_" + id[s] + "_" + k + "_" + std::to_string(x.r->GetId()));
        }
        mc::Quiet q;
        auto have = fakeshm::objects();
        for (auto& n : want) MC_CHECK(have.count(n), "%s: %s is gone", ops.c_str(), n.c_str());
        for (auto& n : have) if (n.find("_rgq_") != std::string::npos) {   // acknowledgement queues of living regions come with their first user
            std::string rg = n;
            rg.replace(rg.find("_rgq_"), 5, "_rg_");
            if (want.count(rg)) want.insert(n);
        }
        for (auto& n : have) MC_CHECK(want.count(n), "%s: %s exists, nobody needs it", ops.c_str(), n.c_str());
        untouched(foreign, ops);
        mc::state(mc::hash_str(list(have)));
    };
    for (int step = 0; step < depth; ++step) {
        int op = mc::choose(faults ? 12 : 9, "op");
        if (!faults && op >= 7) op += 3;
        mc::transition();
        if (op == 0) break;
        int i = (op - 1) % 3;
        Dev& x = d[i];
        if (op <= 3) {              // attach / detach
            if (!x.f) {
                x.session = i == 2 ? mc::choose(2, "session") : 0;
                x.seg = uint16_t(i == 1 ? mc::choose(2, "segment") : 0);
                x.noclean = i == 1 && mc::choose(2, "no cleanup");
                ops += " attach" + std::to_string(i) + "/s" + std::to_string(x.session) + "/" + std::to_string(x.seg) + (x.noclean ? "/noclean" : "");
                x.f = attach("d" + std::to_string(i), {.seg = x.seg, .noclean = x.noclean, .session = name[x.session]});
                lives[x.session] = true;
                segs[x.session].insert(x.seg);
            } else {
                ops += " detach" + std::to_string(i);
                x.m.reset();
                x.r.reset();
                x.f.reset();
                if (!users(x.session) && !x.noclean) { lives[x.session] = false; segs[x.session].clear(); }
            }
        } else if (op <= 6) {       // region
            if (!x.f) mc::abandon();
            if (!x.r) {
                ops += " region" + std::to_string(i);
                RegionConfig cfg;
                cfg.rcSegmentSize = 100000;
                x.r = x.f->CreateUnmanagedRegion(4096, RegionCallback(nullptr), cfg);
            } else { ops += " unregion" + std::to_string(i); x.r.reset(); }
        } else if (op <= 9) {       // a device fails to attach
            if (x.f || !faults) mc::abandon();
            int how = mc::choose(3, "failure");
            int s = i == 2 ? 1 : 0;
            uint16_t sg = uint16_t(i == 1 ? 1 : 0);
            static const char* fn[] = {"lock", "lock new segment", "no memory"};
            ops += std::string(" fail") + std::to_string(i) + "(" + fn[how] + ")";
            bool newseg = !segs[s].count(sg);
            bool newsession = !lives[s];
            bool hit = false;
            std::string target = "fmq_" + id[s] + "_m_" + std::to_string(sg);
            bool arm = false;
            fakeshm::fault = [&](const char* what, const char* n) -> int {
                if (how < 2) { if (strcmp(what, "mlock") == 0) { hit = true; return ENOMEM; } return 0; }
                if (strncmp(what, "shm_open create", 15) == 0) arm = std::string(n).find(target) != std::string::npos;
                if (arm && strcmp(what, "allocate") == 0) { hit = true; return ENOSPC; }
                return 0;
            };
            bool failed = false;
            Fac f;
            try { f = attach("bad", {.seg = sg, .mlock = how == 0, .mlockc = how == 1, .session = name[s]}); }
            catch (std::exception&) { failed = true; }
            fakeshm::fault = nullptr;
            MC_CHECK(failed == hit, "%s: attach %s although the system call %s", ops.c_str(), failed ? "failed" : "succeeded", hit ? "failed" : "succeeded");
            if (!failed) mc::abandon();
            (void)newseg; (void)newsession;
            if (users(s)) { if (how < 2) segs[s].insert(sg); }
            else { lives[s] = false; segs[s].clear(); }
        } else if (op == 10) {      // message of device 0 still usable
            if (!d[0].f || d[0].m) mc::abandon();
            ops += " message";
            d[0].m = d[0].f->CreateMessage(64);
            fill(d[0].m->GetData(), 64, 1);
        } else {                    // listing
            ops += " list";
            Snap before = snap();
            Monitor::PrintShm(ShmId{id[0]});
            MC_CHECK(snap() == before, "%s: listing changed something", ops.c_str());
        }
        check();
        if (d[0].m) MC_CHECK(holds(d[0].m->GetData(), 64, 1), "%s: content of the message changed", ops.c_str());
        for (auto& a : d) if (a.f) for (auto& b : d) if (b.f && a.session == b.session) MC_CHECK(sees(a.f, b.seg), "%s: devices of a session do not see each other's segments", ops.c_str());
    }
    for (auto& x : d) {
        if (!x.f) continue;
        x.m.reset();
        x.r.reset();
        x.f.reset();
        if (!users(x.session) && !x.noclean) { lives[x.session] = false; segs[x.session].clear(); }
        ops += " end";
        check();
    }
    mc::outcome(std::to_string(fakeshm::objects().size()));
}
#endif
}   // namespace
int main(int argc, char** argv)
{
    char tmpl[] = "/tmp/mcsessXXXXXX";
    g_dir = mkdtemp(tmpl);
    std::vector<mc::Scenario> v;
#if PROP == 21
    mc::Opts c;
    c.preemptions = 1;
    c.preemptions_thorough = 2;
    c.fork_each = true;
    c.delays = true;
    c.early_timeouts = false;
    c.max_steps = 200000;
    c.max_time_jumps = 4000;
    v.push_back({"device", "a device attaches, allocates and detaches; it dies at any point", life_device, c});
    v.push_back({"region", "a device with a region and acknowledgements", life_region, c});
    v.push_back({"file", "a device with a region in a file", life_file, c});
    v.push_back({"two", "two devices with segments of their own", life_two, c});
    v.push_back({"viewer", "a device looks at the region of another one", life_viewer, c});
    v.push_back({"nocleanup", "a device that leaves its memory behind", life_nocleanup, c});
    v.push_back({"cleanup", "the cleanup dies itself", life_cleanup, c});
    v.push_back({"reset", "resetting the content dies", life_reset, c});
    v.push_back({"reset_cfg", "resetting with configurations dies", life_reset_cfg, c});
    v.push_back({"others", "a device dies, one survives and detaches; a device of another session goes on", life_others, c});
    v.push_back({"tools", "segments and regions created by management tools", life_tools, c});
    v.push_back({"monitor", "the monitor daemon cleans up a dead session and dies", life_monitor, c});
#endif
#if PROP == 20
    mc::Opts c;
    c.preemptions = 2;
    c.preemptions_thorough = 3;
    c.delays = true;
    c.early_timeouts = false;
    c.max_steps = 200000;
    c.max_time_jumps = 4000;
#if defined(SEQ)
    c.preemptions = c.preemptions_thorough = 0;
    v.push_back({"failing", "attaching and detaching (also failing), regions, two sessions, against a model of the objects that exist", [] { histories(mc::thorough() ? 5 : 4, true); }, c});
    v.push_back({"histories", "attaching and detaching, regions, messages, listing, two sessions, against a model of the objects that exist", [] { histories(mc::thorough() ? 6 : 5, false); }, c});
#else
    v.push_back({"two", "two devices attach and detach", [] { threads({{0}, {0}}, true); }, c});
    v.push_back({"two_segments", "two devices with different segments", [] { threads({{0}, {1}}, false); }, c});
    v.push_back({"again", "one attaches twice", [] { threads({{0, 1}, {2}}, false); }, c});
    v.push_back({"three", "three devices", [] { threads({{0}, {1}, {2}}, false); }, c});
    v.push_back({"guest", "a device is attached all the time", [] { guest({{0}, {1}}); }, c});
#endif
#endif
    int rc = mc::run(argc, argv, v);
    (void)!system(("rm -rf " + std::string(tmpl)).c_str());
    return rc;
}
