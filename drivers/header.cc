// C15: where a shared buffer's data and reference counter are, for every start address and alignment,
// seen by two devices that map the segment at different addresses; lost counter updates.
#include "transport.h"
#include <thread>
using namespace tr;

namespace {
const shmem::Message& sm(const MessagePtr& m) { return static_cast<const shmem::Message&>(*m); }
struct World
{
    Fac f[2];
    SocketPtr s[2];
    SegView view;
    std::vector<MessagePtr> step;   // fillers that move the next free address
};
World& world(size_t seg)
{
    static auto* all = new std::map<size_t, World>;
    auto& w = (*all)[seg];
    if (w.f[0]) return w;
    std::string session = "header" + std::to_string(seg);
    for (int i = 0; i < 2; ++i) {
        std::unique_ptr<ProgOptions> o(options(session, seg));
        w.f[i] = std::make_shared<shmem::TransportFactory>(i ? "B" : "A", o.get());
        w.s[i] = w.f[i]->CreateSocket("pair", "c");
    }
    MC_CHECK(w.s[0]->Bind("inproc://" + session) && w.s[1]->Connect("inproc://" + session), "connect");
    w.view.open(session, 0, true);
    return w;
}
// Every 16-byte start address modulo the alignment (up to kSteps different ones) x every alignment x sizes
void layout()
{
    World& w = world(1 << 22);
    int lg = mc::choose(19, "log2 of the alignment");
    static const size_t sizes[] = {1, 2, 3, 8, 17, 64, 100};
    size_t size = sizes[mc::choose(7, "size")];
    size_t al = size_t(1) << lg;
    size_t steps = std::max<size_t>(4, std::min<size_t>(al / 16 + 1, mc::thorough() ? 16385 : 4097));
    size_t base = w.view.free();
    std::set<size_t> offsets;
    {
        std::vector<MessagePtr> filler;
        for (size_t k = 0; k < steps; ++k) {
            mc::transition();
            // neighbours right before and after
            MessagePtr before = w.f[0]->CreateMessage(32, Alignment{1});
            MessagePtr m = w.f[0]->CreateMessage(size, Alignment{al});
            MessagePtr after = w.f[0]->CreateMessage(32, Alignment{1});
            auto* p = static_cast<unsigned char*>(m->GetData());
            auto* x = static_cast<unsigned char*>(before->GetData());
            auto* y = static_cast<unsigned char*>(after->GetData());
            std::string at = "alignment " + std::to_string(al) + ", size " + std::to_string(size) + ", start " + std::to_string(k);
            offsets.insert(reinterpret_cast<size_t>(x) % al);
            MC_CHECK(reinterpret_cast<size_t>(p) % al == 0, "%s: data is not aligned", at.c_str());
            MC_CHECK(m->GetSize() == size, "%s: size %zu", at.c_str(), m->GetSize());
            // writing all of the three buffers changes neither counters nor neighbours
            memset(x, 0xff, 32); memset(p, 0xff, size); memset(y, 0xff, 32);
            memset(x, 0x00, 32);
            for (auto* q : {&before, &m, &after}) MC_CHECK(sm(*q).GetRefCount() == 1, "%s: the counter is %d after creation and writing", at.c_str(), sm(*q).GetRefCount());
            fill(p, size, int(k)); 
            for (int i = 0; i < 32; ++i) MC_CHECK(x[i] == 0 && y[i] == 0xff, "%s: neighbour overwritten", at.c_str());
            MessagePtr c = w.f[0]->CreateMessage();
            c->Copy(*m);
            MC_CHECK(sm(m).GetRefCount() == 2 && sm(c).GetRefCount() == 2, "%s: counter after a copy", at.c_str());
            MC_CHECK(c->GetData() == p, "%s: the copy sees another address", at.c_str());
            MC_CHECK(holds(p, size, int(k)), "%s: counting changed the data", at.c_str());
            for (int i = 0; i < 32; ++i) MC_CHECK(x[i] == 0 && y[i] == 0xff, "%s: counting changed a neighbour", at.c_str());
            // the other device maps the segment elsewhere
            MC_CHECK(w.s[0]->Send(c, 0) == int64_t(size), "send");
            MessagePtr r = w.f[1]->CreateMessage();
            MC_CHECK(w.s[1]->Receive(r, 0) == int64_t(size), "receive");
            auto* q = static_cast<unsigned char*>(r->GetData());
            MC_CHECK(q != p, "harness: both devices use one mapping");
            MC_CHECK(reinterpret_cast<size_t>(q) % std::min<size_t>(al, 4096) == 0, "%s: data is not aligned for the receiver", at.c_str());
            MC_CHECK(holds(q, size, int(k)), "%s: the receiver sees other data", at.c_str());
            q[0] ^= 0x55;
            MC_CHECK(p[0] == q[0], "%s: the receiver's address is another byte", at.c_str());
            MC_CHECK(sm(r).GetRefCount() == 2 && sm(m).GetRefCount() == 2, "%s: the receiver sees another counter", at.c_str());
            MessagePtr r2 = w.f[1]->CreateMessage();
            r2->Copy(*r);
            MC_CHECK(sm(r).GetRefCount() == 3 && sm(m).GetRefCount() == 3, "%s: the receiver's copy is not counted", at.c_str());
            r2.reset();
            // shrinking in place keeps address, counter and content; a smaller piece of a shared buffer too
            if (size > 2) {
                MC_CHECK(r->SetUsedSize(size / 2) && r->GetData() == q && sm(m).GetRefCount() == 2, "%s: resizing a shared buffer", at.c_str());
            }
            r.reset();
            MC_CHECK(sm(m).GetRefCount() == 1, "%s: counter after the receiver is done", at.c_str());
            if (size > 2) {
                MC_CHECK(m->SetUsedSize(size / 2) && m->GetSize() == size / 2, "%s: shrinking", at.c_str());
                MC_CHECK(m->GetData() == p, "%s: shrinking in place moved the data", at.c_str());
                p[0] ^= 0x55;
                MC_CHECK(holds(p, size / 2, int(k)), "%s: shrinking changed the data", at.c_str());
                MC_CHECK(sm(m).GetRefCount() == 1, "%s: shrinking changed the counter", at.c_str());
            }
            m.reset();
            before.reset();
            after.reset();
            filler.push_back(w.f[0]->CreateMessage(1, Alignment{1}));
        }
        mc::outcome("alignment " + std::to_string(al) + " starts " + std::to_string(offsets.size()));
    }
    MC_CHECK(w.view.free() == base, "alignment %zu size %zu: %ld bytes lost", al, size, long(base) - long(w.view.free()));
    MC_CHECK(w.view.sane(), "the segment is damaged");
}
// the counter goes up and down through its whole range
void range(int kind)
{
    clean();
    struct { Fac f[1]; SegView view; } w;
    g_seg = 1 << 22;
    w.f[0] = dev("A");
    g_seg = kSeg;
    w.view.open(g_session, 0, true);
    size_t base = w.view.free();
    {
        Acks acks;
        UnmanagedRegionPtr region;
        MessagePtr m;
        if (kind == 0) m = w.f[0]->CreateMessage(100);
        else {
            RegionConfig cfg;
            cfg.rcSegmentSize = kind == 1 ? 100000 : 0;
            cfg.linger = 100;
            region = tr::region(w.f[0], acks, 4096, false, cfg);
            m = w.f[0]->CreateMessage(region, region->GetData(), 100, nullptr);
        }
        auto* p = static_cast<unsigned char*>(m->GetData());
        fill(p, 100, 5);
        std::vector<MessagePtr> c;
        int top = mc::thorough() || kind == 0 ? 65535 : 5000;
        for (int i = 2; i <= top; ++i) {
            c.push_back(w.f[0]->CreateMessage());
            c.back()->Copy(i % 3 || c.size() < 2 ? *m : *c[(c.size() - 1) / 2]);
            mc::transition();
            MC_CHECK(sm(c.back()).GetRefCount() == i, "copy %d: the counter is %d", i, sm(c.back()).GetRefCount());
        }
        for (int i = top; i >= 2; --i) {
            MC_CHECK(sm(m).GetRefCount() == i, "%d references: the counter is %d", i, sm(m).GetRefCount());
            c.pop_back();
        }
        MC_CHECK(holds(p, 100, 5), "data changed");
        if (region) {
            ms(600);
            MC_CHECK(acks.got.empty(), "released while in use");
            m.reset();
            region.reset();
            MC_CHECK(acks.got.size() == 1, "block released %zu times", acks.got.size());
        } else m.reset();
    }
    mc::state(kind);
    MC_CHECK(w.view.free() == base, "%ld bytes lost", long(base) - long(w.view.free()));
    mc::outcome("ok");
}
// concurrent counting: each thread copies and drops in its own order, through its own device
void threads(int nthr, int kind, bool two)
{
    clean();
    {
        mc::set_tick(0);
        Acks acks;
        Fac f[2] = {dev("A"), two ? dev("B") : nullptr};
        UnmanagedRegionPtr region;
        MessagePtr m;
        SegView view;
        { mc::Quiet q; view.open(g_session, 0, true); }
        size_t base = view.free();
        if (kind == 0) m = f[0]->CreateMessage(64);
        else {
            RegionConfig cfg;
            cfg.rcSegmentSize = kind == 1 ? 100000 : 0;
            cfg.linger = 100;
            region = tr::region(f[0], acks, 4096, false, cfg);
            m = f[0]->CreateMessage(region, region->GetData(), 64, nullptr);
        }
        std::vector<MessagePtr> mine(nthr);
        for (int t = 0; t < nthr; ++t) { mine[t] = f[0]->CreateMessage(); mine[t]->Copy(*m); }
        if (two) {      // the last thread's message arrives at the other device
            auto s0 = f[0]->CreateSocket("pair", "c"), s1 = f[1]->CreateSocket("pair", "c");
            MC_CHECK(s0->Bind("inproc://h") && s1->Connect("inproc://h"), "connect");
            MC_CHECK(s0->Send(mine[nthr - 1], 0) == 64, "send");
            mine[nthr - 1] = f[1]->CreateMessage();
            MC_CHECK(s1->Receive(mine[nthr - 1], 0) == 64, "receive");
        }
        std::vector<MessagePtr> extra(nthr);
        std::vector<std::thread> th;
        for (int t = 0; t < nthr; ++t) th.emplace_back([&, t] {
            Fac& fac = two && t == nthr - 1 ? f[1] : f[0];
            auto a = fac->CreateMessage();
            a->Copy(*mine[t]);
            int c = sm(a).GetRefCount();
            // m, this thread's two and at least one of every other thread; at most three of each
            { mc::Quiet q; MC_CHECK(c >= 3 + (nthr - 1) && c <= 1 + 3 * nthr, "counter %d while %d threads count", c, nthr); }
            if (t == 0) mine[t].reset();        // drops its first, keeps the new one
            else if (t == 1) { auto b = fac->CreateMessage(); b->Copy(*a); a.reset(); a = std::move(b); }
            extra[t] = std::move(a);
        });
        for (auto& t : th) t.join();
        int expect = 1 + nthr + nthr - 1;
        int have = sm(m).GetRefCount();
        MC_CHECK(have == expect, "%d messages refer to the buffer, the counter says %d", expect, have);
        mc::transition();
        mine.clear();
        extra.clear();
        have = sm(m).GetRefCount();
        MC_CHECK(have == 1, "one message left, the counter says %d", have);
        if (region) MC_CHECK(acks.got.empty(), "released while in use");
        m.reset();
        region.reset();
        if (kind) MC_CHECK(acks.got.size() == 1, "block released %zu times", acks.got.size());
        MC_CHECK(view.free() == base, "%ld bytes lost", long(base) - long(view.free()));
    }
    gone("after the last device");
    mc::outcome("ok");
}
}   // namespace

int main(int argc, char** argv)
{
    setenv("USER", "verif", 1);
    mc::Opts o;
    std::vector<mc::Scenario> v;
#if SEQ
    o.in_main = true;
    o.preemptions = o.preemptions_thorough = 0;
    o.max_steps = 4000000;
    o.sched_atomics = false;
    v.push_back({"layout", "every alignment x every 16-byte start address modulo it x sizes, two mappings", layout, o});
    o = mc::Opts{};
    o.preemptions = o.preemptions_thorough = 0;
    o.max_steps = 1000000;
    v.push_back({"range_managed", "counter through its range, managed buffer", [] { range(0); }, o});
    v.push_back({"range_region", "counter through its range, region block, counters in their own segment", [] { range(1); }, o});
    v.push_back({"range_region_norc", "counter through its range, region block, counter in the managed segment", [] { range(2); }, o});
#else
    o.delays = true;
    o.early_timeouts = false;
    o.preemptions = 3;
    o.preemptions_thorough = 4;
    o.races = true;
    o.max_steps = 60000;
    v.push_back({"count_2", "two threads copy and drop", [] { threads(2, 0, false); }, o});
    v.push_back({"count_remote", "two threads of two devices copy and drop", [] { threads(2, 0, true); }, o});
    v.push_back({"count_3", "three threads copy and drop", [] { threads(3, 0, false); }, o});
    o.preemptions = 2;
    o.preemptions_thorough = 3;
    o.weight = 2;
    v.push_back({"count_region", "region block, counters in their own segment", [] { threads(2, 1, false); }, o});
    v.push_back({"count_region_norc", "region block, counter in the managed segment", [] { threads(2, 2, false); }, o});
    if (mc::thorough()) v.push_back({"count_3_remote", "three threads, two devices", [] { threads(3, 0, true); }, o});
#endif
    return mc::run(argc, argv, std::move(v));
}
