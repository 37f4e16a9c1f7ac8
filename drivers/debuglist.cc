// C36: what the monitor shows.  After every operation of every sequence of operations on messages,
// regions and devices the monitor's overview of the session (PrintShm, GetFreeMemory, *IsPresent)
// and, with the library built with FAIRMQ_DEBUG_MODE, its list of buffers (GetDebugInfo,
// PrintDebugInfo) are compared with a reference model of what is in use, and Reset() of each device
// with its number of messages.
#include "transport.h"
#include <chrono>
#include <iostream>
#include <fairmq/shmem/Monitor.h>
#include <unistd.h>
using namespace tr;
using shmem::SessionId;

namespace {
struct Buf { int seg; size_t off; size_t size; uint64_t from, to; int refs = 0; };
#ifdef FAIRMQ_DEBUG_MODE
constexpr bool kDebug = true;
#else
constexpr bool kDebug = false;
#endif
// what is logged while f runs
std::vector<std::string> logged(const std::function<void()>& f)
{
    std::vector<std::string> v;
    fair::stublog::tell = [&](const std::string& s) { v.push_back(s); };
    f();
    fair::stublog::tell = nullptr;
    return v;
}
size_t number(const std::string& s, const std::string& after, size_t from = 0)
{
    size_t p = s.find(after, from);
    return p == std::string::npos ? size_t(-1) : strtoul(s.c_str() + p + after.size(), nullptr, 10);
}
std::string line(const std::string& s, const std::string& start)
{
    size_t p = s.find("\n" + start);
    return p == std::string::npos ? "" : s.substr(p + 1, s.find('\n', p + 1) - p - 1);
}
struct Region { size_t size; bool alive; };
uint64_t now() { return std::chrono::system_clock::now().time_since_epoch().count(); }
constexpr size_t kBig = 1200000;

void sequences(int depth)
{
    clean();
    Acks acks;
    {
        int variant = mc::choose(3, "config");      // one segment, two segments, seq-fit
        uint16_t seg_b = variant == 1;
        std::unique_ptr<ProgOptions> oa, ob;
        { mc::Quiet q; const char* alg = variant == 2 ? "simple_seq_fit" : "rbtree_best_fit"; oa.reset(options("list", 1 << 23, 0, alg)); ob.reset(options("list", 1 << 23, seg_b, alg)); }
        Fac f[2] = {std::make_shared<shmem::TransportFactory>("A", oa.get()), std::make_shared<shmem::TransportFactory>("B", ob.get())};
        SessionId sid{"list"};
        char* base[2] = {nullptr, nullptr};         // where each device sees its own segment
        for (int d = 0; d < 2; ++d) {
            for (auto& i : f[d]->GetRegionInfo()) if (i.managed && i.id == (d ? seg_b : 0)) base[d] = static_cast<char*>(i.ptr);
            MC_CHECK(base[d], "segment not found");
        }
        SocketPtr sock[2] = {f[0]->CreateSocket("pair", "c"), f[1]->CreateSocket("pair", "c")};
        MC_CHECK(sock[0]->Bind("inproc://l") && sock[1]->Connect("inproc://l"), "connect");
        RegionConfig cfg;
        cfg.rcSegmentSize = 0;
        cfg.linger = 100;
        auto r = region(f[0], acks, 4096, false, cfg);
        std::vector<Buf> bufs;
        std::vector<Buf> held;                      // where the reference counts of region blocks are kept: size and place are the library's
        struct S { MessagePtr m; int buf = -1; int rc = -1; bool reg = false; bool sent = false; };
        S slot[3];                                  // 0, 1 at A; 2 at B
        std::vector<S> q[2];
        std::string ops = std::string(variant == 1 ? "two segments" : variant ? "seq-fit" : "one segment") + ":";
        auto owner = [](int i) { return i == 2 ? 1 : 0; };
        auto drop = [&](S& s) {
            if (!s.sent) { if (s.buf >= 0) --bufs[s.buf].refs; if (s.rc >= 0) --held[s.rc].refs; }
            s.buf = s.rc = -1; s.reg = s.sent = false;
        };
        auto add = [&](S& s, int d, size_t size, uint64_t from) {
            Buf b{d ? int(seg_b) : 0, size_t(static_cast<char*>(s.m->GetData()) - base[d]), size, from, now(), 1};
            bufs.push_back(b);
            s.buf = int(bufs.size()) - 1;
        };
        std::map<int, Region> regions;
        Acks acks2;
        UnmanagedRegionPtr r2;
        Fac third;
        bool seg2 = false;
        size_t devices = 2;
        regions[int(r->GetId())] = {4096, true};
        auto overview = [&] {
            auto l = logged([&] { MC_CHECK(shmem::Monitor::PrintShm(shmem::ShmId{shmid("list")}), "%s: session not found", ops.c_str()); });
            MC_CHECK(l.size() == 1, "%s: %zu messages printed", ops.c_str(), l.size());
            const std::string& o = l[0];
            MC_CHECK(o.find("session: list,") != std::string::npos && o.find("shm id: " + shmid("list") + ",") != std::string::npos, "%s: wrong session: %s", ops.c_str(), o.c_str());
            MC_CHECK(number(o, ", devices: ") == devices + (third != nullptr), "%s: %zu devices, shown: %s", ops.c_str(), devices + (third != nullptr), o.c_str());
            MC_CHECK(number(o, "creator id: ") == size_t(geteuid()), "%s: wrong creator: %s", ops.c_str(), o.c_str());
            for (int g = 0; g < 4; ++g) {
                bool there = g == 0 || (g == 1 && seg_b) || (g == 2 && seg2);
                MC_CHECK(shmem::Monitor::SegmentIsPresent(sid, g) == there, "%s: segment %d reported as %s", ops.c_str(), g, there ? "missing" : "present");
                std::string t = line(o, "   [" + std::to_string(g) + "]: ");
                bool thrown = false;
                size_t free = 0;
                try { free = shmem::Monitor::GetFreeMemory(sid, g); } catch (shmem::Monitor::MonitorError&) { thrown = true; }
                MC_CHECK(thrown == !there && t.empty() == !there, "%s: segment %d: shown as '%s'", ops.c_str(), g, t.c_str());
                if (!there) continue;
                SegView v;
                { mc::Quiet q; v.open("list", g, (variant != 2) != (g == 2)); }
                size_t total = v.a ? v.a->get_size() : v.b->get_size(), msgs = 0;
                MC_CHECK(free == v.free() && number(t, "free: ") == free && number(t, "total: ") == total && number(t, "used: ") == total - free,
                         "%s: segment %d has %zu of %zu bytes free, reported %zu and '%s'", ops.c_str(), g, v.free(), total, free, t.c_str());
                for (auto& b : bufs) if (b.refs && b.seg == g) ++msgs;
                for (auto& h : held) if (h.refs && h.seg == g) ++msgs;
                if (kDebug) MC_CHECK(number(t, "msgs: ") == msgs, "%s: segment %d has %zu buffers, shown '%s'", ops.c_str(), g, msgs, t.c_str());
                mc::Quiet q;
                v.a.reset(); v.b.reset();
            }
            size_t shown = 0;
            for (size_t p = o.find("\n      ["); p != std::string::npos; p = o.find("\n      [", p + 1)) ++shown;
            MC_CHECK(shown == regions.size(), "%s: %zu regions, shown: %s", ops.c_str(), regions.size(), o.c_str());
            for (auto& [id, reg] : regions) {
                std::string t = line(o, "      [" + std::to_string(id) + "]: ");
                MC_CHECK(t.find(reg.alive ? "alive" : "destroyed") != std::string::npos && number(t, ", size: ") == reg.size, "%s: region %d of %zu bytes (%s) shown as '%s'", ops.c_str(), id, reg.size, reg.alive ? "alive" : "destroyed", t.c_str());
                MC_CHECK(shmem::Monitor::RegionIsPresent(sid, id) == reg.alive, "%s: region %d reported as %s", ops.c_str(), id, reg.alive ? "missing" : "present");
            }
            MC_CHECK(!shmem::Monitor::RegionIsPresent(sid, 77), "%s: unknown region reported as present", ops.c_str());
        };
        auto check = [&] {
            overview();
            auto info = shmem::Monitor::GetDebugInfo(sid);
            auto printed = logged([&] { shmem::Monitor::PrintDebugInfo(sid); });
            if (!kDebug) { MC_CHECK(info.empty(), "%s: buffers listed", ops.c_str()); mc::trace_validated(); return; }
            size_t want[2] = {0, 0}, have[2] = {0, 0};
            for (auto& [seg, list] : info) {
                MC_CHECK(seg <= 1, "%s: buffers of segment %d listed", ops.c_str(), seg);
                have[seg] += list.size();
                for (size_t k = 0; k < list.size(); ++k) for (size_t j = 0; j < k; ++j) MC_CHECK(list[k].fOffset != list[j].fOffset, "%s: offset %zu of segment %d listed twice", ops.c_str(), list[k].fOffset, seg);
            }
            for (auto& b : bufs) if (b.refs) {
                ++want[b.seg];
                bool found = false;
                for (auto& e : info[b.seg]) if (e.fOffset == b.off) {
                    found = true;
                    MC_CHECK(e.fSize == b.size, "%s: buffer at %zu of segment %d listed with size %zu, created with %zu", ops.c_str(), b.off, b.seg, e.fSize, b.size);
                    MC_CHECK(e.fPid == getpid(), "%s: buffer at %zu listed with creator %d", ops.c_str(), b.off, int(e.fPid));
                    MC_CHECK(e.fCreationTime >= b.from && e.fCreationTime <= b.to, "%s: buffer at %zu listed with creation time %lu, was created between %lu and %lu", ops.c_str(), b.off, (unsigned long)e.fCreationTime, (unsigned long)b.from, (unsigned long)b.to);
                }
                MC_CHECK(found, "%s: buffer of %zu bytes at %zu of segment %d is in use and not listed", ops.c_str(), b.size, b.off, b.seg);
            }
            for (auto& h : held) if (h.refs) ++want[h.seg];
            size_t lines = 0;
            for (auto& l : printed) if (l.find("segment: ") != std::string::npos) ++lines;
            bool any = false;                       // nothing has been allocated yet: no list
            for (auto& l : printed) any |= l.find("found " + std::to_string(want[0] + want[1]) + " messages.") != std::string::npos;
            MC_CHECK(lines == want[0] + want[1] && any, "%s: %zu buffers in use, %zu printed under '%s'", ops.c_str(), want[0] + want[1], lines, printed.empty() ? "" : printed[0].c_str());
            for (int g = 0; g < 2; ++g) MC_CHECK(have[g] == want[g], "%s: %zu buffers of segment %d listed, %zu are in use", ops.c_str(), have[g], g, want[g]);
            for (int d = 0; d < 2; ++d) {           // a device can be reset if and only if it has no messages
                size_t n = 0;
                for (int i = 0; i < 3; ++i) if (slot[i].m && owner(i) == d) ++n;
                bool thrown = false;
                try { f[d]->Reset(); } catch (MessageError&) { thrown = true; }
                MC_CHECK(thrown == (n > 0), "%s: reset of device %d with %zu messages %s", ops.c_str(), d, n, thrown ? "was refused" : "succeeded");
            }
            mc::trace_validated();
        };
        check();
        for (int step = 0; step < depth; ++step) {
            int op = mc::choose(step ? 15 : 6, "op");
            if (!step && op >= 4) op += 9;
            int i = op >= 13 ? 0 : step ? mc::choose(3, "message") : mc::flag("at B") ? 2 : 0;
            int d = owner(i);
            S& s = slot[i];
            static const char* names[] = {"new(64)", "new(big)", "new()", "new(region)", "new(user 40)", "Rebuild(100)", "Rebuild()", "SetUsedSize(8)", "SetUsedSize(0)", "Copy", "Send", "Receive", "delete", "region", "device"};
            ops += std::string(" m") + std::to_string(i) + "." + names[op] + ";";
            mc::transition();
            uint64_t t = now();
            bool skip = false;
            switch (op) {
                case 0: case 1: {
                    size_t n = op ? kBig : 64;
                    drop(s); s.m.reset();
                    t = now();
                    s.m = f[d]->CreateMessage(n);
                    add(s, d, n, t);
                    break;
                }
                case 2: drop(s); s.m.reset(); s.m = f[d]->CreateMessage(); break;
                case 3:
                    if (d) { skip = true; break; }
                    drop(s); s.m.reset();
                    s.m = f[0]->CreateMessage(r, static_cast<char*>(r->GetData()) + 8, 32, nullptr);
                    s.reg = true;
                    break;
                case 4:
                    drop(s); s.m.reset();
                    s.m = f[d]->CreateMessage(calloc(1, 40), 40, nullptr, nullptr);
                    add(s, d, 40, t);
                    break;
                case 5:
                    if (!s.m) { skip = true; break; }
                    drop(s);
                    s.m->Rebuild(100);
                    add(s, d, 100, t);
                    break;
                case 6: if (!s.m) { skip = true; break; } drop(s); s.m->Rebuild(); break;
                case 7: case 8: {
                    size_t to = op == 7 ? 8 : 0;
                    if (!s.m || s.sent || s.m->GetSize() <= to) { skip = true; break; }
                    size_t was = s.m->GetSize();
                    void* at = s.m->GetData();
                    MC_CHECK(s.m->SetUsedSize(to), "%s: shrinking failed", ops.c_str());
                    if (!to) drop(s);
                    else if (s.buf >= 0 && bufs[s.buf].refs == 1 && s.m->GetData() != at) {   // moved to a new buffer of the device's own segment
                        MC_CHECK(was - to >= 1000000, "%s: small buffer moved", ops.c_str());
                        drop(s);
                        add(s, d, to, t);
                    }
                    break;
                }
                case 9: {                            // copy of another message of the device or, at B, of one of A
                    int j = i == 0 ? 1 : 0;
                    S& o = slot[j];
                    if (!s.m || !o.m || o.sent) { skip = true; break; }
                    if (o.reg && i == 2) { skip = true; break; }
                    drop(s);
                    s.m->Copy(*o.m);
                    if (o.reg && o.rc < 0) { held.push_back({0, 0, 2, t, now(), 1}); o.rc = int(held.size()) - 1; }
                    s.buf = o.buf; s.rc = o.rc; s.reg = o.reg;
                    if (s.buf >= 0) ++bufs[s.buf].refs;
                    if (s.rc >= 0) ++held[s.rc].refs;
                    break;
                }
                case 10: {
                    if (!s.m || s.sent) { skip = true; break; }
                    size_t was = s.m->GetSize();
                    int64_t n = 0;
                    if (variant == 2) {             // as a message of one part
                        Parts::container p;
                        p.push_back(std::move(s.m));
                        n = sock[d]->Send(p, 0);
                        s.m = std::move(p[0]);
                    } else {
                        n = sock[d]->Send(s.m, 0);
                    }
                    MC_CHECK(n == int64_t(was), "%s: send returned %ld", ops.c_str(), long(n));
                    S x;
                    x.buf = s.buf; x.rc = s.rc; x.reg = s.reg;
                    q[1 - d].push_back(std::move(x));
                    s.buf = s.rc = -1; s.reg = false; s.sent = true;
                    break;
                }
                case 11: {
                    if (!s.m || q[d].empty()) { skip = true; break; }
                    int64_t n = 0;
                    if (variant == 2) {
                        Parts::container p;
                        s.m.reset();
                        n = sock[d]->Receive(p, 0);
                        MC_CHECK(p.size() == 1, "%s: %zu parts received", ops.c_str(), p.size());
                        s.m = std::move(p[0]);
                    } else {
                        n = sock[d]->Receive(s.m, 0);
                    }
                    MC_CHECK(n >= 0, "%s: receive returned %ld", ops.c_str(), long(n));
                    drop(s);
                    s.buf = q[d][0].buf; s.rc = q[d][0].rc; s.reg = q[d][0].reg;
                    q[d].erase(q[d].begin());
                    break;
                }
                case 12: if (!s.m) { skip = true; break; } drop(s); s.m.reset(); break;
                case 13: {
                    if (r2) { r2.reset(); regions[9].alive = false; break; }
                    if (regions.count(9)) { skip = true; break; }       // an id is used once per session
                    RegionConfig c2;
                    c2.id = 9;
                    c2.linger = 100;
                    r2 = region(f[0], acks2, 10000, false, c2);
                    regions[9] = {10000, true};
                    break;
                }
                case 14:
                    if (third) { third.reset(); break; }
                    {
                        std::unique_ptr<ProgOptions> oc;
                        { mc::Quiet q2; oc.reset(options("list", 1 << 20, 2, variant == 2 ? "rbtree_best_fit" : "simple_seq_fit")); }
                        third = std::make_shared<shmem::TransportFactory>("C", oc.get());
                        mc::Quiet q2;
                        oc.reset();
                    }
                    seg2 = true;
                    break;
            }
            if (skip) break;
            check();
        }
        ops += " end;";
        bool leak = !(q[0].empty() && q[1].empty()) && mc::flag("leave what is queued");
        if (third) { third.reset(); check(); }
        for (auto& s : slot) { drop(s); s.m.reset(); }
        if (!leak)
            for (int d = 0; d < 2; ++d) while (!q[d].empty()) {
                if (variant == 2) {
                    Parts::container p;
                    MC_CHECK(sock[d]->Receive(p, 0) >= 0, "%s: receive", ops.c_str());
                } else {
                    auto m = f[d]->CreateMessage();
                    MC_CHECK(sock[d]->Receive(m, 0) >= 0, "%s: receive", ops.c_str());
                }
                drop(q[d][0]);
                q[d].erase(q[d].begin());
            }
        check();
        if (leak) {                                  // resetting the session's content forgets them all
            shmem::Monitor::ResetContent(sid, false);
            for (auto& b : bufs) b.refs = 0;
            for (auto& h : held) h.refs = 0;
            ops += " reset content;";
            check();
            slot[0].m = f[0]->CreateMessage(72);
            add(slot[0], 0, 72, 0);
            ops += " new(72);";
            check();
            drop(slot[0]);
            slot[0].m.reset();
            check();
        }
        size_t total = 0;
        for (auto& [seg, list] : shmem::Monitor::GetDebugInfo(sid)) total += list.size();
        MC_CHECK(total == 0, "%s: %zu buffers still listed", ops.c_str(), total);
        sock[1].reset();
        f[1].reset();
        devices = 1;
        ops += " B leaves;";
        overview();
        mc::outcome(std::to_string(bufs.size()) + "," + std::to_string(held.size()));
    }
    gone("after the last device left");
    // no session: nothing to list, no error
    MC_CHECK(shmem::Monitor::GetDebugInfo(SessionId{"list"}).empty(), "buffers listed after the session has ended");
}
#ifdef FAIRMQ_DEBUG_MODE
// a session in which no device of this build has registered yet
void bare()
{
    clean();
    {
        using namespace boost::interprocess;
        managed_shared_memory mng(open_or_create, shmem::MakeShmName(shmid("bare"), "mng").c_str(), 100000);
        MC_CHECK(shmem::Monitor::GetDebugInfo(SessionId{"bare"}).empty(), "buffers listed in an empty session");
        shmem::Monitor::PrintDebugInfo(SessionId{"bare"});
    }
    clean();
}
// two devices create, copy and release while a monitor lists
void concurrent(bool two)
{
    clean();
    {
        g_session = "list";
        Fac f[2] = {dev("A", "list", 0), dev("B", "list", two)};
        SessionId sid{"list"};
        MessagePtr keep = f[0]->CreateMessage(33);
        std::thread t[2];
        for (int d = 0; d < 2; ++d) t[d] = std::thread([&, d] {
            auto m = f[d]->CreateMessage(size_t(50 + d));
            auto c = f[d]->CreateMessage();
            c->Copy(d ? *m : *keep);
            m.reset();
            c.reset();
        });
        size_t n = 0, have = 0;
        for (int k = 0; k < 2; ++k) {
            auto info = shmem::Monitor::GetDebugInfo(sid);
            have = n = 0;
            for (auto& [seg, list] : info) for (auto& e : list) {
                MC_CHECK(e.fSize == 33 || e.fSize == 50 || e.fSize == 51, "buffer of %zu bytes listed", e.fSize);
                have += e.fSize == 33;
                ++n;
            }
            MC_CHECK(have == 1 && n <= 3, "%zu buffers listed, the kept one %zu times", n, have);
        }
        for (auto& x : t) x.join();
        n = 0;
        for (auto& [seg, list] : shmem::Monitor::GetDebugInfo(sid)) n += list.size();
        MC_CHECK(n == 1, "%zu buffers listed, one is in use", n);
        keep.reset();
        n = 0;
        for (auto& [seg, list] : shmem::Monitor::GetDebugInfo(sid)) n += list.size();
        MC_CHECK(n == 0, "%zu buffers listed, none is in use", n);
        for (auto& x : f) x->Reset();
    }
    gone("after the last device left");
}
#endif
}   // namespace

int main(int argc, char** argv)
{
    std::cout.rdbuf(nullptr);   // the monitor reports what it resets
    std::vector<mc::Scenario> v;
    mc::Opts o;
    o.preemptions = 0;
    o.preemptions_thorough = 0;
    o.delays = true;
    o.sched_atomics = false;
    o.max_steps = 400000;
    o.max_time_jumps = 4000;
    o.early_timeouts = false;
    mc::Opts c = o;
    c.preemptions = 2;
    c.preemptions_thorough = 3;
#ifndef LISTING
    v.push_back({"sequences", "all sequences of operations on messages, regions and devices, three configurations", [] { sequences(mc::thorough() ? 4 : 3); }, o});
#endif
#if defined(FAIRMQ_DEBUG_MODE) && !defined(LISTING)
    v.push_back({"bare", "session without any list", [] { bare(); }, o});
#endif
#ifdef LISTING
    c.races = true;
    v.push_back({"concurrent", "two devices create, copy and release while a monitor lists, one segment", [] { concurrent(false); }, c});
    v.push_back({"concurrent_two", "the same with different segments", [] { concurrent(true); }, c});
#endif
    return mc::run(argc, argv, v);
}
