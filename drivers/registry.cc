// C18 (region events), C19 (lookup and registry of regions)
#include "transport.h"
#include <unistd.h>
using namespace tr;

namespace {
using FacBase = std::shared_ptr<TransportFactory>;
std::string g_dir;

// ---- C18 ---------------------------------------------------------------------------------------------
struct Ev { bool managed; uint64_t id; RegionEvent e; void* p; size_t n; int64_t flags; };
struct Log
{
    std::vector<Ev> ev;
    bool over = false;
    std::function<void(const RegionInfo&)> react;
    void operator()(const RegionInfo& i)
    {
        {
            mc::Quiet q;
            MC_CHECK(!over, "callback after unsubscribing has returned");
            ev.push_back({i.managed, i.id, i.event, i.ptr, i.size, i.flags});
        }
        if (react) react(i);
    }
    int count(uint64_t id, RegionEvent e) { int c = 0; for (auto& x : ev) if (!x.managed && x.id == id && x.e == e) ++c; return c; }
};
struct Reg { uint64_t id; size_t n; int64_t flags; bool seen_long; bool destroyed; void* p; };
void check_events(Log& l, const std::vector<Reg>& regs, bool settled, bool same_process_ptr, const char* when)
{
    mc::Quiet q;
    std::set<uint64_t> known;
    for (auto& r : regs) {
        known.insert(r.id);
        int c = l.count(r.id, RegionEvent::created), d = l.count(r.id, RegionEvent::destroyed);
        MC_CHECK(c <= 1 && d <= 1, "%s: region %lu reported created %d times, destroyed %d times", when, (unsigned long)r.id, c, d);
        MC_CHECK(d == 0 || r.destroyed, "%s: region %lu reported destroyed while it exists", when, (unsigned long)r.id);
        MC_CHECK(c >= d, "%s: region %lu reported destroyed but never created", when, (unsigned long)r.id);
        if (settled && (!r.destroyed || r.seen_long)) MC_CHECK(c == 1, "%s: creation of region %lu was not reported", when, (unsigned long)r.id);
        if (settled && r.destroyed && c) MC_CHECK(d == 1, "%s: destruction of region %lu was not reported", when, (unsigned long)r.id);
        bool created = false;
        for (auto& e : l.ev) if (!e.managed && e.id == r.id) {
            if (e.e == RegionEvent::created) {
                created = true;
                MC_CHECK(e.flags == r.flags && e.n == r.n && e.p, "%s: region %lu reported with size %zu, flags %ld", when, (unsigned long)r.id, e.n, long(e.flags));
                if (same_process_ptr) MC_CHECK(e.p == r.p, "%s: region %lu reported at a wrong address", when, (unsigned long)r.id);
            } else {
                MC_CHECK(created, "%s: destruction reported before creation", when);
                MC_CHECK(e.flags == r.flags, "%s: destruction of region %lu reported with flags %ld", when, (unsigned long)r.id, long(e.flags));
            }
        }
    }
    int managed = 0;
    for (auto& e : l.ev) {
        if (e.managed) { ++managed; continue; }
        MC_CHECK(known.count(e.id), "%s: event for unknown region %lu", when, (unsigned long)e.id);
    }
    MC_CHECK(managed <= 1, "%s: the managed segment was reported %d times", when, managed);
    if (settled) MC_CHECK(managed == 1, "%s: the managed segment was not reported", when);
}
// kind 0: shm, subscriber owns the regions, 1: shm, another device owns them, 2: zmq
void events(int kind, int pattern, bool reentrant)
{
    clean();
    std::vector<Reg> regs;
    Log log, log2;
    {
        FacBase own, sub;
        if (kind == 2) own = sub = std::make_shared<zmq::TransportFactory>("Z", nullptr);
        else { own = dev("A", g_session, 1025); sub = kind ? FacBase(dev("B", g_session, 1025)) : own; }     // a segment with the id of the first region
        auto mk = [&](size_t n, int64_t flags, bool seen_long) {
            RegionConfig cfg;
            cfg.userFlags = flags;
            cfg.rcSegmentSize = 0;
            auto r = own->CreateUnmanagedRegion(n, RegionCallback(nullptr), cfg);
            mc::Quiet q;
            for (auto& x : regs) MC_CHECK(x.id != r->GetId(), "two regions with id %lu", (unsigned long)r->GetId());
            regs.push_back({r->GetId(), n, flags, seen_long, false, r->GetData()});
            return r;
        };
        auto rm = [&](UnmanagedRegionPtr& r) {
            uint64_t id = r->GetId();
            { mc::Quiet q; for (auto& x : regs) if (x.id == id) x.destroyed = true; }
            r.reset();
        };
        UnmanagedRegionPtr r0, r1, r2;
        bool early = mc::flag("region before subscribing");
        if (early) r0 = mk(4096, 10, true);
        TransportFactory* subp = sub.get();
        if (reentrant) log.react = [&, subp](const RegionInfo& i) {
            auto v = subp->GetRegionInfo();
            if (i.event == RegionEvent::created && !i.managed) {
                bool in = false;
                for (auto& x : v) if (!x.managed && x.id == i.id) in = true;
                (void)in;
            }
        };
        MC_CHECK(!sub->SubscribedToRegionEvents(), "subscribed from the start");
        std::thread t([&] {
            if (pattern & 1) ms(50);
            r1 = mk(8192, 11, pattern & 2);
            if (pattern & 2) ms(150);
            if (pattern & 4) rm(r1);
            if (pattern & 8) { if (pattern & 1) ms(50); r2 = mk(12288, 12, true); }
        });
        sub->SubscribeToRegionEvents([&log](RegionInfo i) { log(i); });
        MC_CHECK(sub->SubscribedToRegionEvents(), "not subscribed after subscribing");
        if (early && (pattern & 16)) { ms(50); rm(r0); }
        check_events(log, regs, false, kind != 1, "meanwhile");
        t.join();
        ms(300);
        check_events(log, regs, true, kind != 1, "after the events have settled");
        if (r2) rm(r2);
        ms(300);
        check_events(log, regs, true, kind != 1, "after destroying a region");
        auto list = [&](FacBase f, const char* who) {
            auto v = f->GetRegionInfo();
            mc::Quiet q;
            for (auto& x : regs) {
                int c = 0;
                for (auto& i : v) if (!i.managed && i.id == x.id && i.event == RegionEvent::created) { ++c; MC_CHECK(i.size == x.n && i.flags == x.flags && i.ptr, "%s lists region %lu with size %zu", who, (unsigned long)x.id, i.size); }
                MC_CHECK(c == (x.destroyed ? 0 : 1), "%s lists region %lu %d times", who, (unsigned long)x.id, c);
            }
        };
        list(own, "owner"); list(sub, "subscriber");
        int how = mc::choose(3, "unsubscribe, subscribe again or leave");
        if (how == 0) {
            sub->UnsubscribeFromRegionEvents();
            { mc::Quiet q; log.over = true; }
            MC_CHECK(!sub->SubscribedToRegionEvents(), "still subscribed after unsubscribing");
            auto r3 = mk(4096, 13, false);
            ms(200);
            rm(r3);
            ms(200);
            // and again
            std::vector<Reg> alive;
            for (auto& x : regs) if (!x.destroyed) alive.push_back(x);
            regs = alive;
            sub->SubscribeToRegionEvents([&log2](RegionInfo i) { log2(i); });
            ms(200);
            check_events(log2, regs, true, kind != 1, "second subscription");
            sub->UnsubscribeFromRegionEvents();
            { mc::Quiet q; log2.over = true; }
        } else if (how == 1) {
            auto r3 = mk(4096, 13, false);
            sub->SubscribeToRegionEvents([&log2](RegionInfo i) { log2(i); });
            { mc::Quiet q; log.over = true; }
            ms(200);
            std::vector<Reg> alive;
            for (auto& x : regs) if (!x.destroyed) alive.push_back(x);
            regs = alive;
            check_events(log2, regs, true, kind != 1, "overwriting subscription");
            rm(r3);
            ms(200);
            check_events(log2, regs, true, kind != 1, "overwriting subscription, after destroying a region");
        }
        if (r0) rm(r0);
        if (r1) rm(r1);
        mc::outcome(std::to_string(log.ev.size()) + "," + std::to_string(log2.ev.size()));
        if (kind == 2) { own.reset(); sub.reset(); } else { sub.reset(); { mc::Quiet q; if (kind == 1) { log.over = log2.over = true; } } own.reset(); }
        { mc::Quiet q; log.over = log2.over = true; }
    }
    if (kind != 2) gone("after the last device left");
}

// ---- C19: several threads -----------------------------------------------------------------------------
void lookup(int other)
{
    clean();
    Acks acks;
    {
        RegionConfig cfg;
        cfg.rcSegmentSize = 0;
        Fac A = dev("A"), B = dev("B");
        auto r = region(A, acks, 4096, true, cfg);
        fill(r->GetData(), 64, 5);
        SocketPtr sa = A->CreateSocket("pair", "c"), sb = B->CreateSocket("pair", "c");
        sa->Bind("inproc://t"); sb->Connect("inproc://t");
        MessagePtr m[2];
        for (int i = 0; i < 2; ++i) {
            m[i] = A->CreateMessage(r, static_cast<char*>(r->GetData()), 64, nullptr);
            MC_CHECK(sa->Send(m[i], 0) == 64, "send");
            m[i] = B->CreateMessage();
            MC_CHECK(sb->Receive(m[i], 0) == 64, "receive");
        }
        std::thread t1([&] { MC_CHECK(holds(m[0]->GetData(), 64, 5), "message does not show the region's memory"); m[0].reset(); });
        std::thread t2([&] {
            switch (other) {
                case 0: MC_CHECK(holds(m[1]->GetData(), 64, 5), "message does not show the region's memory"); m[1].reset(); break;
                case 1: { auto x = B->CreateUnmanagedRegion(8192, RegionCallback(nullptr), cfg); MC_CHECK(x->GetId() != r->GetId() && x->GetSize() == 8192, "new region is not a new one"); break; }
                case 2: { auto v = B->GetRegionInfo(); int c = 0; for (auto& i : v) if (!i.managed) { ++c; MC_CHECK(i.id == r->GetId() && holds(i.ptr, 64, 5) && i.size == 4096, "list shows a wrong region"); } MC_CHECK(c == 1, "list shows %d regions", c); break; }
                case 3: { auto x = A->CreateUnmanagedRegion(8192, RegionCallback(nullptr), cfg); MC_CHECK(x->GetId() != r->GetId() && x->GetSize() == 8192, "new region is not a new one"); x.reset(); auto v = A->GetRegionInfo(); int c = 0; for (auto& i : v) if (!i.managed && i.event == RegionEvent::created) ++c; MC_CHECK(c == 1, "list shows %d regions", c); break; }
            }
        });
        t1.join(); t2.join();
        m[1].reset();
        sb.reset(); B.reset();
        r.reset();
    }
    gone("after the last device left");
}
// regions created at the same time
void create(int n, bool zmq, bool two_devices)
{
    clean();
    {
        std::vector<FacBase> f(n);
        for (int i = 0; i < n; ++i) f[i] = i && !(two_devices && i == 1) ? f[0] : zmq ? FacBase(std::make_shared<zmq::TransportFactory>("Z", nullptr)) : FacBase(dev(std::string(1, char('A' + i))));
        std::vector<UnmanagedRegionPtr> r(n);
        std::vector<std::thread> t;
        RegionConfig cfg;
        cfg.rcSegmentSize = 0;
        for (int i = 0; i < n; ++i) t.emplace_back([&, i] {
            r[i] = f[i]->CreateUnmanagedRegion(4096 * (i + 1), RegionCallback(nullptr), cfg);
            MC_CHECK(r[i]->GetSize() == size_t(4096 * (i + 1)), "region has size %zu", r[i]->GetSize());
            fill(r[i]->GetData(), 64, i);
            if (i == 0) { r[i].reset(); }
        });
        for (auto& x : t) x.join();
        for (int i = 1; i < n; ++i) {
            MC_CHECK(holds(r[i]->GetData(), 64, i), "regions share memory");
            for (int j = 1; j < i; ++j) MC_CHECK(r[i]->GetId() != r[j]->GetId(), "two regions with id %d", int(r[i]->GetId()));
        }
        auto v = f[0]->GetRegionInfo();
        int c = 0;
        for (auto& i : v) if (!i.managed && i.event == RegionEvent::created) ++c;
        MC_CHECK(c == n - 1, "list shows %d of %d regions", c, n - 1);
        r.clear();
    }
    gone("after the last device left");
}
// a viewer looks a region up while its owner destroys it
void vanish(int what)
{
    clean();
    Acks acks;
    {
        RegionConfig cfg;
        cfg.rcSegmentSize = 0;
        Fac A = dev("A"), B = dev("B");
        auto r = region(A, acks, 4096, true, cfg);
        fill(r->GetData(), 64, 5);
        SocketPtr sa = A->CreateSocket("pair", "c"), sb = B->CreateSocket("pair", "c");
        sa->Bind("inproc://t"); sb->Connect("inproc://t");
        auto m = A->CreateMessage(r, static_cast<char*>(r->GetData()), 64, nullptr);
        MC_CHECK(sa->Send(m, 0) == 64, "send");
        m = B->CreateMessage();
        MC_CHECK(sb->Receive(m, 0) == 64, "receive");
        std::thread t([&] {
            if (what == 0) { void* p = m->GetData(); MC_CHECK(!p || holds(p, 64, 5), "message shows other memory"); m.reset(); }
            else if (what == 1) { for (auto& i : B->GetRegionInfo()) if (!i.managed && i.event == RegionEvent::created) MC_CHECK(i.size == 4096 && holds(i.ptr, 64, 5), "list shows a wrong region"); }
            else { m.reset(); auto x = B->CreateUnmanagedRegion(4096, RegionCallback(nullptr), cfg); MC_CHECK(x->GetId() == 1025, "region id"); fill(x->GetData(), 64, 9); MC_CHECK(holds(x->GetData(), 64, 9), "content"); }
        });
        r.reset();
        t.join();
        m.reset();
    }
    gone("after the last device left");
}
// segments of other devices first met by several threads
void segments(int other)
{
    clean();
    {
        Fac A = dev("A"), B = dev("B", g_session, 1), C = dev("C", g_session, 2);
        SocketPtr sa = A->CreateSocket("pair", "c"), sb = B->CreateSocket("pair", "c"), sc = C->CreateSocket("pair", "d"), sd = B->CreateSocket("pair", "d");
        sa->Bind("inproc://t"); sb->Connect("inproc://t");
        sc->Bind("inproc://u"); sd->Connect("inproc://u");
        MessagePtr m[2];
        for (int i = 0; i < 2; ++i) {
            m[i] = (i ? C : A)->CreateMessage(64);
            fill(m[i]->GetData(), 64, 6 + i);
            MC_CHECK((i ? sc : sa)->Send(m[i], 0) == 64, "send");
            m[i] = B->CreateMessage();
            MC_CHECK((i ? sd : sb)->Receive(m[i], 0) == 64, "receive");
        }
        std::thread t1([&] { MC_CHECK(holds(m[0]->GetData(), 64, 6), "content of a message from another segment"); m[0].reset(); });
        std::thread t2([&] {
            if (other == 0) { MC_CHECK(holds(m[1]->GetData(), 64, 7), "content of a message from another segment"); m[1].reset(); }
            else if (other == 1) { auto x = B->CreateMessage(64); fill(x->GetData(), 64, 1); MC_CHECK(holds(x->GetData(), 64, 1), "content"); }
            else { auto v = B->GetRegionInfo(); int c = 0; for (auto& i : v) if (i.managed) ++c; MC_CHECK(c == 3, "list shows %d segments", c); }
        });
        t1.join(); t2.join();
        for (auto& x : m) x.reset();
    }
    gone("after the last device left");
}

// ---- C19: histories of two sessions -----------------------------------------------------------------------
void histories(int depth, std::vector<int> first = {})
{
    clean();
    fakeshm::file_prefix = g_dir;
    struct R { UnmanagedRegionPtr r; int tag; bool file; };
    struct H { MessagePtr m; int tag; bool live; bool own = false, seen = false; };
    Acks dummy;
    {
        Fac f[3];
        SocketPtr sa, sb;
        int inc = 0;
        auto start = [&] {
            f[0] = dev("A"); f[1] = dev("B");
            sa = f[0]->CreateSocket("pair", "c"); sb = f[1]->CreateSocket("pair", "c");
            std::string addr = "inproc://h" + std::to_string(inc++);
            MC_CHECK(sa->Bind(addr) && sb->Connect(addr), "connect");
        };
        start();
        f[2] = dev("C", "othersession");
        std::vector<R> reg[3];
        std::vector<H> held;
        std::set<int> used[2];
        int tag = 1;
        std::string ops;
        auto make = [&](int d, int mode) {     // 0 auto, 1 explicit id, 2 file
            RegionConfig cfg;
            cfg.rcSegmentSize = 0;
            cfg.userFlags = tag;
            if (mode == 1) cfg.id = used[d == 2].empty() ? 1025 : uint16_t(*used[d == 2].rbegin() + 1);
            if (mode == 2) cfg.path = g_dir;
            auto r = f[d]->CreateUnmanagedRegion(4096, RegionBulkCallback([](const std::vector<RegionBlock>&) {}), cfg);
            MC_CHECK(r && r->GetSize() == 4096, "%s: no region", ops.c_str());
            MC_CHECK(used[d == 2].insert(r->GetId()).second, "%s: id %d used twice in a session", ops.c_str(), int(r->GetId()));
            fill(r->GetData(), 4096, tag);
            reg[d].push_back({std::move(r), tag++, mode == 2});
        };
        auto drop = [&](int d) {
            if (reg[d].empty()) return;
            int t = reg[d][0].tag;
            reg[d].erase(reg[d].begin());
            for (auto& h : held) if (h.tag == t) h.live = false;
        };
        auto verify = [&] {
            for (int d = 0; d < 3; ++d) for (auto& r : reg[d]) MC_CHECK(holds(r.r->GetData(), 4096, r.tag), "%s: memory of a region was changed by others", ops.c_str());
            for (auto& h : held) { if (h.own && h.seen && !h.live) continue; /* the owner gave this memory up */ h.seen = true; void* p = h.m->GetData(); MC_CHECK(p ? holds(p, 64, h.tag) : !h.live, "%s: message shows %s", ops.c_str(), p ? "memory of another region" : "nothing"); }
            for (int d = 0; d < 3; ++d) {
                auto v = f[d]->GetRegionInfo();
                size_t expect = d == 2 ? reg[2].size() : reg[0].size() + reg[1].size(), n = 0;
                for (auto& i : v) {
                    if (i.managed || i.event != RegionEvent::created) continue;
                    ++n;
                    bool found = false;
                    for (int e = 0; e < 3; ++e) if ((e == 2) == (d == 2)) for (auto& r : reg[e]) if (r.r->GetId() == i.id) { found = true; MC_CHECK(i.size == 4096 && holds(i.ptr, 4096, r.tag) && i.flags == r.tag, "%s: device %d lists region %lu wrongly", ops.c_str(), d, (unsigned long)i.id); }
                    MC_CHECK(found, "%s: device %d lists region %lu, which does not exist", ops.c_str(), d, (unsigned long)i.id);
                }
                MC_CHECK(n == expect, "%s: device %d lists %zu of %zu regions", ops.c_str(), d, n, expect);
            }
        };
        for (int step = 0; step < depth + int(first.size()); ++step) {
            int op = size_t(step) < first.size() ? first[step] : mc::choose(13, "op");
            mc::transition();
            switch (op) {
                case 0: ops += " newA"; make(0, 0); break;
                case 1: ops += " newB"; make(1, 0); break;
                case 2: ops += " newC"; make(2, 0); break;
                case 3: ops += " idA"; make(0, 1); break;
                case 4: ops += " delA"; drop(0); break;
                case 5: ops += " delB"; drop(1); break;
                case 6: case 7: {
                    if (reg[0].empty()) break;
                    ops += op == 6 ? " send" : " sendcopy";
                    auto& r = op == 6 ? reg[0].back() : reg[0].front();
                    auto m = f[0]->CreateMessage(r.r, r.r->GetData(), 64, nullptr);
                    MC_CHECK(sa->Send(m, 0) == 64, "send");
                    m = f[1]->CreateMessage();
                    MC_CHECK(sb->Receive(m, 0) == 64, "receive");
                    if (op == 7) { m->GetData(); auto c = f[1]->CreateMessage(); c->Copy(*m); held.push_back({std::move(c), r.tag, true}); }
                    held.push_back({std::move(m), r.tag, true});
                    break;
                }
                case 8: ops += " look"; verify(); break;
                case 9: ops += " drop"; held.clear(); break;
                case 10: {
                    ops += " restart";
                    held.clear(); reg[0].clear(); reg[1].clear();
                    sa.reset(); sb.reset(); f[0].reset(); f[1].reset();
                    used[0].clear();
                    start();
                    break;
                }
                case 11: ops += " fileA"; make(0, 2); break;
                case 12: {      // two messages come back to the owner, who looks at one of them
                    if (reg[0].empty()) break;
                    ops += " back";
                    auto& r = reg[0].back();
                    for (int i = 0; i < 2; ++i) {
                        auto m = f[0]->CreateMessage(r.r, r.r->GetData(), 64, nullptr);
                        MC_CHECK(sa->Send(m, 0) == 64, "send");
                        m = f[1]->CreateMessage();
                        MC_CHECK(sb->Receive(m, 0) == 64 && sb->Send(m, 0) == 64, "send back");
                        m = f[0]->CreateMessage();
                        MC_CHECK(sa->Receive(m, 0) == 64, "receive");
                        if (!i) MC_CHECK(m->GetData() == r.r->GetData(), "%s: the owner sees other memory", ops.c_str());
                        else held.push_back({std::move(m), r.tag, true, true});      // first looked at when the region may be gone
                    }
                    break;
                }
            }
        }
        ops += " end";
        verify();
        held.clear();
        for (auto& v : reg) v.clear();
        verify();
        mc::outcome(ops);
        mc::trace_validated();
    }
    gone("after the last device left");
}
}   // namespace

#ifndef PROP
#define PROP 19
#endif
int main(int argc, char** argv)
{
    char tmpl[] = "/tmp/mcregXXXXXX";
    g_dir = mkdtemp(tmpl);
    mc::on_worker_start([] { g_dir += "/" + std::to_string(getpid()); (void)!system(("mkdir -p " + g_dir).c_str()); g_dir += "/"; });
    std::vector<mc::Scenario> v;
    mc::Opts c;
    c.preemptions = 2;
    c.preemptions_thorough = 3;
    c.delays = true;
    c.early_timeouts = false;
    c.max_steps = 200000;
    c.max_time_jumps = 4000;
    c.freecheck = true;
    mc::Opts o;
    o.preemptions = o.preemptions_thorough = 0;
    o.delays = true;
    o.sched_atomics = false;
    o.max_steps = 200000;
    o.max_time_jumps = 4000;
#if PROP == 18
    static const char* kn[] = {"own", "other", "zmq"};
    for (int k = 0; k < 3; ++k) {
        // 1: sleep first, 2: region lives 150 ms, 4: destroy it, 8: second region, 16: destroy the early region
        for (int p : {2 | 4 | 8, 4 | 16, 1 | 4 | 8})
            v.push_back({std::string(kn[k]) + "_" + std::to_string(p), "a thread creates and destroys regions while another one subscribes to region events", [k, p] { events(k, p, false); }, c});
        v.push_back({std::string(kn[k]) + "_reentrant", "the callback asks for the list of regions", [k] { events(k, 2 | 4 | 8, true); }, c});
    }
#elif defined(SEQ)
    v.push_back({"histories", "all histories of regions, messages and restarts of two sessions", [] { histories(mc::thorough() ? 5 : 4); }, o});
    v.push_back({"incarnations", "all continuations of a session that starts anew after a message of a region was used", [] { histories(mc::thorough() ? 4 : 3, {0, 7, 10}); }, o});
#else
    mc::Opts r = c;
    r.races = true;
    for (int k = 0; k < 4; ++k) v.push_back({"lookup_" + std::to_string(k), "two threads of a device look up a region, create or list regions", [k] { lookup(k); }, r});
    for (int k = 0; k < 3; ++k) v.push_back({"vanish_" + std::to_string(k), "a region is destroyed while another device looks it up, lists or creates regions", [k] { vanish(k); }, r});
    for (int k = 0; k < 3; ++k) v.push_back({"segments_" + std::to_string(k), "two threads of a device meet segments of other devices", [k] { segments(k); }, r});
    v.push_back({"create_shm", "regions created and destroyed by three threads", [] { create(3, false, false); }, r});
    v.push_back({"create_two", "regions created and destroyed by threads of two devices", [] { create(3, false, true); }, r});
    v.push_back({"create_zmq", "regions created and destroyed by three threads", [] { create(3, true, false); }, r});
#endif
    int rc = mc::run(argc, argv, v);
    (void)!system(("rm -rf " + std::string(tmpl)).c_str());
    return rc;
}
