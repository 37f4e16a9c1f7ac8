// C14r (release of region blocks), C16 (concurrent release), C17 (acknowledgements), C18 (events), C19 (lookup)
#include "transport.h"
#include <algorithm>
#include <thread>
using namespace tr;

namespace {
// ---- C14 / C17: sequences of operations on region messages of two devices ------------------------
struct Life { char* p; size_t n; size_t hint; int refs = 0; bool remote_last = false; bool resized = false; };
void sequences(int depth, int minops)
{
    clean();
    Acks acks;
    {
        mc::set_tick(0);
        int variant = mc::choose(5, "config");       // 4: like 2, and the devices use different segments
        uint16_t seg_b = variant == 4;
        Fac f[2] = {dev("A"), dev("B", g_session, seg_b)};
        SocketPtr sock[2] = {f[0]->CreateSocket("pair", "c"), f[1]->CreateSocket("pair", "c")};
        MC_CHECK(sock[0]->Bind("inproc://r") && sock[1]->Connect("inproc://r"), "connect");
        SegView view, view_b;
        { mc::Quiet q; view.open(g_session, 0, true); if (seg_b) view_b.open(g_session, seg_b, true); }
        size_t base = view.free(), base_b = view_b.free();
        RegionConfig cfg;
        bool bulk = variant & 1;
        cfg.rcSegmentSize = variant >= 2 ? 0 : 100000;
        if (seg_b) minops = 16;
        cfg.linger = 100;
        auto r = region(f[0], acks, 4096, bulk, cfg);
        char* mem = static_cast<char*>(r->GetData());
        MC_CHECK(r->GetSize() == 4096, "region size");
        std::vector<Life> lives;
        MessagePtr slot[3];                 // 0,1 at A, 2 at B
        int who[3] = {-1, -1, -1};
        bool sent[3] = {false, false, false};
        size_t sz[3] = {0, 0, 0};
        std::vector<std::pair<int, size_t>> q[2];
        std::string ops = std::string(bulk ? "bulk" : "single") + (cfg.rcSegmentSize ? "" : " rc in segment") + (seg_b ? " two segments" : "") + ":";
        auto owner = [](int i) { return i == 2 ? 1 : 0; };
        auto release = [&](int i) {         // slot i no longer refers to what it held
            if (!sent[i] && who[i] >= 0) { auto& l = lives[who[i]]; if (--l.refs == 0) l.remote_last = owner(i) == 1; }
            who[i] = -1; sent[i] = false; sz[i] = 0;
        };
        auto check = [&] {
            for (int i = 0; i < 3; ++i) if (slot[i] && !sent[i]) {
                MC_CHECK(slot[i]->GetSize() == sz[i], "%s: message %d has size %zu, expected %zu", ops.c_str(), i, slot[i]->GetSize(), sz[i]);
                if (sz[i]) MC_CHECK(holds(slot[i]->GetData(), sz[i], who[i] >= 0 ? who[i] + 1 : 99), "%s: content of message %d changed", ops.c_str(), i);
            }
            for (auto& l : lives) {
                size_t c = acks.count(l.p, l.hint);
                MC_CHECK(c <= 1, "%s: block acknowledged %zu times", ops.c_str(), c);
                MC_CHECK(!c || !l.refs, "%s: block acknowledged while %d messages refer to it", ops.c_str(), l.refs);
            }
        };
        auto take = [&](int k) {
            if (!bulk) return sock[owner(k)]->Receive(slot[k], 0);
            Parts::container parts;     // as a message of one part
            int64_t n = sock[owner(k)]->Receive(parts, 0);
            if (n >= 0) { MC_CHECK(parts.size() == 1, "%s: %zu parts received", ops.c_str(), parts.size()); slot[k] = std::move(parts[0]); }
            return n;
        };
        for (int i = 0; i < 3; ++i) slot[i] = f[owner(i)]->CreateMessage();
        for (int step = 0; step < depth; ++step) {
            int op = mc::choose(step ? minops : 1, "op");
            mc::transition();
            int i = 0, j = -1;
            auto receive = [&](int k) {
                int d = owner(k);
                int64_t n = take(k);
                if (q[d].empty()) { MC_CHECK(n < 0, "%s: received something from nowhere", ops.c_str()); return; }
                MC_CHECK(n == int64_t(q[d][0].second), "%s: Receive returned %ld", ops.c_str(), long(n));
                release(k);
                who[k] = q[d][0].first;
                sz[k] = q[d][0].second;
                q[d].erase(q[d].begin());
            };
            auto send = [&](int k) {
                if (sent[k]) { return; }
                int64_t n = 0;
                if (bulk) {
                    Parts::container parts;
                    parts.push_back(std::move(slot[k]));
                    n = sock[owner(k)]->Send(parts, 0);
                    slot[k] = std::move(parts.at(0));
                } else n = sock[owner(k)]->Send(slot[k], 0);
                MC_CHECK(n == int64_t(sz[k]), "%s: Send returned %ld", ops.c_str(), long(n));
                q[1 - owner(k)].push_back({who[k], sz[k]});
                sent[k] = true;
            };
            switch (op) {
                case 0: case 1: {      // new block message in slot 0 / 1
                    i = op;
                    ops += " new" + std::to_string(i);
                    Life l;
                    l.p = mem + 64 * lives.size();
                    l.n = lives.size() % 2 ? 0 : 48;
                    l.hint = 1000 + lives.size();
                    l.refs = 1;
                    int id = int(lives.size());
                    fill(l.p, l.n, id + 1);
                    slot[i].reset();
                    release(i);
                    slot[i] = f[0]->CreateMessage(r, l.p, l.n, reinterpret_cast<void*>(l.hint));
                    lives.push_back(l);
                    who[i] = id; sz[i] = l.n;
                    break;
                }
                case 2: case 3: {      // copy 0->1, 1->0
                    i = op == 2 ? 1 : 0; j = 1 - i;
                    ops += " copy" + std::to_string(j) + std::to_string(i);
                    if (sent[j]) break;
                    slot[i]->Copy(*slot[j]);
                    int w = who[j];
                    release(i);
                    who[i] = w; sz[i] = sz[j];
                    if (w >= 0) ++lives[w].refs;
                    break;
                }
                case 4: ops += " send0"; send(0); break;
                case 5: ops += " recvB"; receive(2); break;
                case 6: ops += " delete0"; slot[0].reset(); release(0); slot[0] = f[0]->CreateMessage(); break;
                case 7: ops += " deleteB"; slot[2].reset(); release(2); slot[2] = f[1]->CreateMessage(); break;
                case 8: ops += " sendB"; send(2); break;
                case 9: ops += " recv0"; receive(0); break;
                case 10: ops += " rebuild1"; release(1); slot[1]->Rebuild(40); fill(slot[1]->GetData(), 40, 99); sz[1] = 40; break;
                case 11: ops += " rebuildB"; release(2); slot[2]->Rebuild(); break;
                case 12: ops += " shrink0"; if (sent[0] || sz[0] < 2) break; MC_CHECK(slot[0]->SetUsedSize(sz[0] / 2), "%s: SetUsedSize failed", ops.c_str()); sz[0] /= 2; if (who[0] >= 0) lives[who[0]].resized = true; break;
                case 13: ops += " wait"; ms(700); break;
                case 14: {      // copy within B
                    ops += " copyB";
                    if (sent[2]) break;
                    auto c = f[1]->CreateMessage();
                    c->Copy(*slot[2]);
                    slot[2] = std::move(c);
                    break;
                }
                case 15: ops += " fail0"; { if (sent[0]) break; fakezmq::fault = [](fakezmq::Op o, void*) { return o == fakezmq::SEND ? EAGAIN : 0; }; int64_t n = sock[0]->Send(slot[0], 0); fakezmq::fault = nullptr; MC_CHECK(n < 0, "failing send succeeded"); break; }
            }
            check();
        }
        ops += " end";
        while (!q[1].empty()) { slot[2]->Rebuild(); release(2); auto x = q[1][0]; q[1].erase(q[1].begin()); int64_t n = take(2); MC_CHECK(n == int64_t(x.second), "%s: Receive at the end returned %ld", ops.c_str(), long(n)); who[2] = x.first; sz[2] = x.second; check(); }
        while (!q[0].empty()) { slot[0]->Rebuild(); release(0); auto x = q[0][0]; q[0].erase(q[0].begin()); int64_t n = take(0); MC_CHECK(n == int64_t(x.second), "%s: Receive at the end returned %ld", ops.c_str(), long(n)); who[0] = x.first; sz[0] = x.second; check(); }
        for (int i = 0; i < 3; ++i) { slot[i].reset(); release(i); }
        bool remote = false;
        for (auto& l : lives) if (l.remote_last) remote = true;
        if (remote) ms(700);                // the other device forwards acknowledgements within half a second
        r.reset();
        { mc::Quiet qq; acks.over = true; }
        for (auto& l : lives) {
            size_t c = acks.count(l.p, l.hint);
            MC_CHECK(c == 1, "%s: block with hint %zu was acknowledged %zu times", ops.c_str(), l.hint, c);
            for (auto& e : acks.got) if (e.hint == l.hint) MC_CHECK(l.resized ? e.n <= l.n : e.n == l.n, "%s: acknowledged with size %zu", ops.c_str(), e.n);
        }
        MC_CHECK(acks.got.size() == lives.size(), "%s: %zu acknowledgements for %zu blocks", ops.c_str(), acks.got.size(), lives.size());
        MC_CHECK(view.free() == base, "%s: %ld bytes of the segment leaked", ops.c_str(), long(base) - long(view.free()));
        if (seg_b) MC_CHECK(view_b.free() == base_b, "%s: %ld bytes of the second segment leaked", ops.c_str(), long(base_b) - long(view_b.free()));
        mc::outcome(ops);
        mc::trace_validated();
        { mc::Quiet qq; view.a.reset(); view_b.a.reset(); }
    }
    gone("after the last device left");
}

// ---- C17: concurrent release, delivery threads and destruction -----------------------------------
// queue: capacity of the queue between releasing and owning device (0: as created by the library)
void ack_threads(int threads, int per, int queue, int slow, bool remote, bool during, int burst = 0)
{
    clean();
    Acks acks;
    acks.slow = slow;
    {
        RegionConfig cfg;
        cfg.id = 7;
        cfg.linger = slow ? 3000 : 100;
        bool bulk = mc::flag("bulk");
        if (queue) {
            mc::Quiet q;
            boost::interprocess::message_queue mq(boost::interprocess::create_only, shmem::MakeShmName(shmid(g_session), "rgq", 7).c_str(), queue, 256 * sizeof(shmem::RegionBlock));
        }
        Fac A = dev("A");
        Fac B = remote ? dev("B") : nullptr;
        auto r = region(A, acks, 1 << 16, bulk, cfg);
        char* mem = static_cast<char*>(r->GetData());
        SocketPtr sa, sb;
        int total = threads * per + burst;
        std::vector<std::vector<MessagePtr>> m(threads);
        std::vector<MessagePtr> bm;
        if (remote) {
            sa = A->CreateSocket("pair", "c"); sb = B->CreateSocket("pair", "c");
            sa->Bind("inproc://t"); sb->Connect("inproc://t");
        }
        for (int k = 0; k < total; ++k) {
            auto x = A->CreateMessage(r, mem + 8 * k, 8, reinterpret_cast<void*>(size_t(k + 1)));
            if (remote) {
                MC_CHECK(sa->Send(x, 0) == 8, "send");
                x = B->CreateMessage();
                MC_CHECK(sb->Receive(x, 0) == 8, "receive");
                MC_CHECK(x->GetData(), "no data");
            }
            if (k < threads * per) m[k % threads].push_back(std::move(x)); else bm.push_back(std::move(x));
        }
        if (burst) bm.clear();
        std::vector<std::thread> t;
        for (int i = 0; i < threads; ++i) t.emplace_back([&, i] { for (auto& x : m[i]) { x.reset(); if (queue && per > 1) ms(600); } });
        if (during) mc::yield_point("destroying the region meanwhile");
        for (auto& x : t) x.join();
        if (remote && !slow) { sb.reset(); B.reset(); }        // a device that leaves has forwarded its acknowledgements
        if (remote && slow) ms(700 + slow * total);
        r.reset();
        { mc::Quiet q; acks.over = true; }
        for (int k = 0; k < total; ++k) {
            size_t c = acks.count(mem + 8 * k, size_t(k + 1));
            MC_CHECK(c == 1, "block %d of %d was acknowledged %zu times", k, total, c);
        }
        MC_CHECK(acks.got.size() == size_t(total), "%zu acknowledgements for %d blocks", acks.got.size(), total);
        ms(1000);
    }
    gone("after the last device left");
}

// ---- C17: the owner destroys the region while another device still has to forward an acknowledgement ----
void linger()
{
    clean();
    Acks acks;
    {
        mc::set_tick(0);
        RegionConfig cfg;
        cfg.id = 7;
        cfg.linger = 1000;      // a device forwards acknowledgements within half a second
        bool later = mc::flag("linger time set after construction");
        if (later) cfg.linger = 100;
        bool bulk = mc::flag("bulk");
        Fac A = dev("A"), B = dev("B");
        auto r = region(A, acks, 4096, bulk, cfg);
        if (later) r->SetLinger(1000);
        MC_CHECK(r->GetLinger() == 1000, "linger time is %u", r->GetLinger());
        char* mem = static_cast<char*>(r->GetData());
        SocketPtr sa = A->CreateSocket("pair", "c"), sb = B->CreateSocket("pair", "c");
        sa->Bind("inproc://t");
        sb->Connect("inproc://t");
        int total = 1 + mc::choose(2, "blocks");
        std::vector<MessagePtr> m;
        for (int k = 0; k < total; ++k) {
            auto x = A->CreateMessage(r, mem + 8 * k, 8, reinterpret_cast<void*>(size_t(k + 1)));
            MC_CHECK(sa->Send(x, 0) == 8, "send");
            x = B->CreateMessage();
            MC_CHECK(sb->Receive(x, 0) == 8 && x->GetData(), "receive");
            m.push_back(std::move(x));
        }
        static const int waits[] = {0, 70, 130, 270, 450, 510};
        for (auto& x : m) { x.reset(); ms(waits[mc::choose(6, "pause after a release")]); if (total > 1 && &x == &m[0]) { m[1].reset(); break; } }
        r.reset();
        { mc::Quiet q; acks.over = true; }
        for (int k = 0; k < total; ++k) {
            size_t c = acks.count(mem + 8 * k, size_t(k + 1));
            MC_CHECK(c == 1, "block %d of %d was acknowledged %zu times although the linger time suffices", k, total, c);
        }
        ms(1000);
    }
    gone("after the last device left");
}

// ---- C16: copies released concurrently -------------------------------------------------------------
// kind 0: managed segment, 1: region with reference count segment, 2: region, counts in the managed segment
void concurrent(int kind, int threads, bool copies_in_threads, bool remote)
{
    clean();
    Acks acks;
    {
        uint16_t seg_b = remote && kind != 1 && mc::flag("the other device uses another segment");
        Fac A = dev("A");
        Fac B = remote ? dev("B", g_session, seg_b) : nullptr;
        SegView view, view_b;
        { mc::Quiet q; view.open(g_session, 0, true); if (seg_b) view_b.open(g_session, seg_b, true); }
        size_t base = view.free(), base_b = view_b.free();
        UnmanagedRegionPtr r;
        MessagePtr first;
        RegionConfig cfg;
        cfg.rcSegmentSize = kind == 2 ? 0 : 100000;
        if (kind) {
            r = region(A, acks, 4096, true, cfg);
            fill(r->GetData(), 64, 3);
            first = A->CreateMessage(r, r->GetData(), 64, reinterpret_cast<void*>(77));
        } else {
            first = A->CreateMessage(64);
            fill(first->GetData(), 64, 3);
        }
        SocketPtr sa, sb;
        if (remote) { sa = A->CreateSocket("pair", "c"); sb = B->CreateSocket("pair", "c"); sa->Bind("inproc://t"); sb->Connect("inproc://t"); }
        std::vector<MessagePtr> m(threads);
        m[0] = A->CreateMessage();
        m[0]->Copy(*first);
        for (int i = 1; i < threads; ++i) { m[i] = A->CreateMessage(); m[i]->Copy(i % 2 ? *first : *m[0]); }
        if (remote) {           // the last thread releases on another device
            MC_CHECK(sa->Send(m[threads - 1], 0) == 64, "send");
            m[threads - 1] = B->CreateMessage();
            MC_CHECK(sb->Receive(m[threads - 1], 0) == 64, "receive");
            MC_CHECK(m[threads - 1]->GetData(), "no data");
        }
        bool keep = mc::flag("original released first");
        if (keep) first.reset();
        std::vector<std::thread> t;
        std::vector<int> how(threads);
        for (int i = 0; i < threads; ++i) how[i] = copies_in_threads ? mc::choose(3, "operation") : seg_b && i == threads - 1 ? 2 * mc::choose(2, "operation") : i == 0 ? mc::choose(2, "operation") : 0;
        size_t live_expect = 0;
        for (int i = 0; i < threads; ++i) t.emplace_back([&, i] {
            Fac f = remote && i == threads - 1 ? B : A;
            MC_CHECK(holds(m[i]->GetData(), 64, 3), "content lost while thread %d holds a copy", i);
            if (how[i] == 2) {
                auto c = f->CreateMessage();
                c->Copy(*m[i]);
                m[i].reset();
                MC_CHECK(holds(c->GetData(), 64, 3), "content lost while thread %d holds a further copy", i);
                c.reset();
            } else if (how[i] == 1) {
                m[i]->Rebuild(32);
                fill(m[i]->GetData(), 32, 50 + i);
                mc::yield_point("rebuilt");
                MC_CHECK(holds(m[i]->GetData(), 32, 50 + i), "buffers overlap");
                m[i].reset();
            } else {
                m[i].reset();
            }
        });
        if (!keep) { MC_CHECK(holds(first->GetData(), 64, 3), "content lost while the original exists"); first.reset(); }
        for (auto& x : t) x.join();
        (void)live_expect;
        if (kind) {
            if (remote) { sb.reset(); B.reset(); }
            r.reset();
            mc::Quiet q;
            acks.over = true;
            MC_CHECK(acks.got.size() == 1 && acks.got[0].hint == 77 && acks.got[0].n == 64, "the region's owner was told %zu times", acks.got.size());
        }
        MC_CHECK(view.free() == base, "%ld bytes of the segment were not returned", long(base) - long(view.free()));
        if (seg_b) MC_CHECK(view_b.free() == base_b, "%ld bytes of the second segment were not returned", long(base_b) - long(view_b.free()));
        { mc::Quiet q; MC_CHECK(view.sane() && view_b.sane(), "segment corrupted"); view.a.reset(); view_b.a.reset(); }
    }
    gone("after the last device left");
}
}   // namespace

#ifndef PROP
#define PROP 17
#endif
int main(int argc, char** argv)
{
    std::vector<mc::Scenario> v;
    mc::Opts o;
    o.preemptions = 0;
    o.preemptions_thorough = 0;
    o.delays = true;
    o.sched_atomics = false;
    o.max_steps = 200000;
    o.max_time_jumps = 4000;
    mc::Opts c;
    c.preemptions = 1;
    c.preemptions_thorough = 2;
    c.max_steps = 200000;
    c.max_time_jumps = 4000;
    c.freecheck = true;
    c.delays = true;
    c.preemptions = 2;
    c.preemptions_thorough = 3;
#if PROP == 14
    v.push_back({"region_blocks", "all sequences of operations on region messages of two devices, five configurations", [] { sequences(mc::thorough() ? 5 : 4, 13); }, o});
#elif PROP == 17
    mc::Opts f = c;
    mc::Opts l = c;
    l.early_timeouts = false;
    l.preemptions = 1;
    l.preemptions_thorough = 2;
    f.early_timeouts = false;
    v.push_back({"sequences", "all sequences of operations on region messages of two devices, five configurations", [] { sequences(mc::thorough() ? 5 : 4, 16); }, o});
    v.push_back({"two_releasers", "two threads release, delivery threads, then destruction", [] { ack_threads(2, 1, 0, 0, false, true); }, c});
    v.push_back({"remote_releasers", "threads of another device release", [] { ack_threads(2, 1, 0, 0, true, false); }, c});
    v.push_back({"linger", "the region is destroyed while another device has yet to forward acknowledgements", [] { linger(); }, l});
    v.push_back({"full_queue", "the queue to the owner holds one entry and the owner is slow, more blocks than fit", [] { ack_threads(1, 1, 1, 120, false, false, 600); }, f});
    v.push_back({"full_queue_remote", "same, blocks released by another device", [] { ack_threads(1, 3, 1, 1500, true, false); }, f});
#elif PROP == 16
    mc::Opts d = c;
    d.preemptions = 2;
    for (int k = 0; k < 3; ++k) {
        mc::Opts r = d;
        r.weight = k == 2 ? 4 : 1;
        static const char* kn[] = {"managed", "region_rc", "region_norc"};
        v.push_back({std::string(kn[k]) + "_2", "two copies and the original released by three threads", [k] { concurrent(k, 2, true, false); }, d});
        v.push_back({std::string(kn[k]) + "_remote", "copies released by two threads of one and one of another device", [k] { concurrent(k, 2, false, true); }, r});
        v.push_back({std::string(kn[k]) + "_3", "three copies and the original", [k] { concurrent(k, 3, false, false); }, c});
    }
#endif
    return mc::run(argc, argv, v);
}
