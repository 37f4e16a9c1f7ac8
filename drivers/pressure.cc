// C32: creating messages in a full segment.  The real Manager / Message over the in-process stand-ins:
// attempts and waiting under the virtual clock, and all sequences of failing and succeeding operations.
#include "transport.h"
#include <optional>
using namespace tr;

namespace {
using Hogs = std::vector<MessagePtr>;
void hog(Fac& f, Hogs& h, size_t from = 32768)      // until not even one byte fits (f gives up at once)
{
    for (size_t n = from; n; n = n > 1 ? n / 8 + (n < 8) : 0) {
        for (;;) {
            try { h.push_back(f->CreateMessage(n)); } catch (MessageBadAlloc&) { break; }
            MC_CHECK(h.size() < 5000, "the segment never becomes full");
        }
    }
}
Fac device(const std::string& name, const std::function<void(ProgOptions&)>& set, const char* alg = "rbtree_best_fit")
{
    ProgOptions* o;
    { mc::Quiet q; o = options(g_session, g_seg, 0, alg); set(*o); }
    Fac f = std::make_shared<shmem::TransportFactory>(name, o);
    { mc::Quiet q; delete o; }
    return f;
}
int64_t now() { return mc::now_ns() / 1000; }       // us

// ---- how a message is made; all of them need memory ------------------------------------------------
enum Kind { Plain, Aligned, Buffer, RebuildSize, RebuildAligned, RebuildBuffer, Resource, RegionCopy, Kinds };
const char* kname[] = {"CreateMessage(size)", "CreateMessage(size, alignment)", "CreateMessage(buffer)", "Rebuild(size)", "Rebuild(size, alignment)", "Rebuild(buffer)", "memory resource", "Copy of a region message"};
struct Attempt
{
    MessagePtr m;
    void* raw = nullptr;
    int calls = 0;
    bool ok = false;
    int64_t begin = 0, end = 0;
    std::string why;
    static void freed(void* d, void* h) { ++*static_cast<int*>(h); free(d); }
    void make(Fac& f, Kind k, size_t n, MessagePtr regionmsg = nullptr)
    {
        void* buf = nullptr;
        if (k == Buffer || k == RebuildBuffer) { buf = malloc(n); fill(buf, n, 5); }
        if (k == RebuildSize || k == RebuildAligned || k == RebuildBuffer || k == RegionCopy) m = f->CreateMessage();
        begin = now();
        try {
            switch (k) {
                case Plain: m = f->CreateMessage(n); break;
                case Aligned: m = f->CreateMessage(n, Alignment{256}); break;
                case Buffer: m = f->CreateMessage(buf, n, freed, &calls); break;
                case RebuildSize: m->Rebuild(n); break;
                case RebuildAligned: m->Rebuild(n, Alignment{256}); break;
                case RebuildBuffer: m->Rebuild(buf, n, freed, &calls); break;
                case Resource: raw = f->GetMemoryResource()->allocate(n, 16); break;
                case RegionCopy: m->Copy(*regionmsg); break;
                default: break;
            }
            ok = true;
        } catch (MessageBadAlloc& e) {
            why = e.what();
            MC_CHECK(!why.empty(), "%s: an exception without a description", kname[k]);
        }
        end = now();
        if (ok && buf) {
            MC_CHECK(calls == 1, "%s: the buffer was released %d times", kname[k], calls);
            MC_CHECK(holds(m->GetData(), n, 5), "%s: content differs", kname[k]);
        } else if (buf) {
            MC_CHECK(calls == 0, "%s failed, but the buffer was released", kname[k]);
            MC_CHECK(holds(buf, n, 5), "%s failed and changed the buffer", kname[k]);
            free(buf);
        } else if (ok && k != RegionCopy) {
            char* p = raw ? static_cast<char*>(raw) : static_cast<char*>(m->GetData());
            MC_CHECK(p && (raw || m->GetSize() == n), "%s: size is wrong", kname[k]);
            if (k == Aligned || k == RebuildAligned) MC_CHECK(uintptr_t(p) % 256 == 0, "%s: misaligned", kname[k]);
            fill(p, n, 6);
        }
        if (!ok && m && k != RegionCopy) MC_CHECK(m->GetSize() == 0 && !m->GetData(), "%s failed and left a message of %zu bytes", kname[k], m->GetSize());
    }
    void drop(Fac& f, size_t n) { if (raw) f->GetMemoryResource()->deallocate(raw, n, 16); raw = nullptr; m.reset(); }
};

// ---- attempts and intervals ------------------------------------------------------------------------
struct Setting { const char* name; int attempts; int interval; std::function<void(ProgOptions&)> set; };
std::vector<Setting>& settings()
{
    static auto* s = new std::vector<Setting>{
        {"defaults", 1, 50, [](ProgOptions&) {}},
        {"throw", 1, 50, [](ProgOptions& o) { o.values["shm-throw-bad-alloc"] = true; }},
        {"0 attempts", 1, 20, [](ProgOptions& o) { o.values["bad-alloc-max-attempts"] = 0; o.values["bad-alloc-attempt-interval"] = 20; }},
        {"2 attempts", 2, 20, [](ProgOptions& o) { o.values["bad-alloc-max-attempts"] = 2; o.values["bad-alloc-attempt-interval"] = 20; }},
        {"3 attempts", 3, 50, [](ProgOptions& o) { o.values["shm-throw-bad-alloc"] = true; o.values["bad-alloc-max-attempts"] = 3; }},
        {"no throw", -1, 20, [](ProgOptions& o) { o.values["shm-throw-bad-alloc"] = false; o.values["bad-alloc-attempt-interval"] = 20; }},
        {"no throw, 2 attempts", -1, 20, [](ProgOptions& o) { o.values["shm-throw-bad-alloc"] = false; o.values["bad-alloc-max-attempts"] = 2; o.values["bad-alloc-attempt-interval"] = 20; }},
        {"unlimited attempts", -1, 50, [](ProgOptions& o) { o.values["shm-throw-bad-alloc"] = true; o.values["bad-alloc-max-attempts"] = -1; }},
    };
    return *s;
}
// one thread creates; at a chosen time memory is freed, or the transport is interrupted (or both, or none)
void attempts(int two, bool frag, const char* alg)
{
    clean();
    {
        mc::set_tick(0);
        Setting& s = settings()[mc::choose(int(settings().size()), "setting")];
        Kind k = Kind(mc::choose(Kinds, "kind"));
        int what = mc::choose(5, "event");       // 0 nothing, 1 free, 2 interrupt, 3 free then interrupt, 4 interrupt, then resume, then free
        if (s.attempts < 0 && what == 0) return;
        int half = mc::choose(what ? 2 * (s.attempts < 0 ? 3 : s.attempts) + 1 : 1, "half intervals");   // -1 .. : odd halves, never a tie
        Fac f = device("A", s.set, alg);
        Fac h = device("H", [](ProgOptions&) {}, alg);      // holds the memory
        SegView view;
        { mc::Quiet q; view.open(g_session, 0, std::string(alg) == "rbtree_best_fit"); }
        size_t base = view.free();
        Acks acks;
        UnmanagedRegionPtr r;
        MessagePtr rm[2];
        if (k == RegionCopy) {
            RegionConfig cfg;
            cfg.rcSegmentSize = 0;
            cfg.linger = 100;
            r = region(f, acks, 4096, false, cfg);
            for (int i = 0; i < 2; ++i) { rm[i] = f->CreateMessage(r, static_cast<char*>(r->GetData()) + 64 * i, 48, reinterpret_cast<void*>(size_t(70 + i))); fill(rm[i]->GetData(), 48, 9 + i); }
        }
        size_t n = 3000;
        Hogs big, rest;
        if (!frag) for (int i = 0; i < (two ? 2 : 1); ++i) big.push_back(h->CreateMessage(4096));
        else for (int i = 0; i < 8; ++i) big.push_back(h->CreateMessage(1000));   // adjacent: together they have room
        { mc::Quiet q; hog(h, rest); }
        size_t full = view.free();
        Attempt a[2];
        int64_t start = now();
        int64_t I = s.interval * 1000, when = I * half / 2 - I / 4;    // -I/4: before the first attempt, I/4, 3I/4, ...
        int64_t freed = -1, intr = -1, resumed = -1;
        auto act = [&] {
            if (when > 0) std::this_thread::sleep_for(std::chrono::microseconds(when));
            if (what == 1 || what == 3) { freed = now(); big.clear(); }
            if (what == 3) { std::this_thread::sleep_for(std::chrono::microseconds(I)); }
            if (what == 2 || what == 3 || what == 4) { intr = now(); f->Interrupt(); }
            if (what == 4) { std::this_thread::sleep_for(std::chrono::microseconds(2 * I)); resumed = now(); f->Resume(); std::this_thread::sleep_for(std::chrono::microseconds(I)); freed = now(); big.clear(); }
        };
        std::thread ev;
        if (what && when <= 0 && what != 3 && what != 4) act();
        else if (what) ev = std::thread(act);
        std::thread second;
        if (two) second = std::thread([&] { a[1].make(f, k, n, std::move(rm[1])); });
        if (ev.joinable() && when <= 0) ms(0);
        a[0].make(f, k, n, std::move(rm[0]));
        if (second.joinable()) second.join();
        if (ev.joinable()) ev.join();
        for (int i = 0; i <= two; ++i) {
            std::string w = std::string(kname[k]) + ", " + s.name;
            int64_t took = a[i].end - a[i].begin;
            int64_t lastAttempt = s.attempts < 0 ? INT64_MAX / 4 : start + (s.attempts - 1) * I;
            if (a[i].ok) {
                MC_CHECK(freed >= 0, "%s: succeeded in a full segment", w.c_str());
                MC_CHECK(a[i].end >= freed, "%s: succeeded before memory was free", w.c_str());
                MC_CHECK(a[i].end <= std::max(freed, start) + I, "%s: waited %ld us although memory became free after %ld us (interval %ld us)", w.c_str(), long(took), long(freed - start), long(I));
                MC_CHECK(a[i].end <= lastAttempt + I, "%s: still trying after %ld us", w.c_str(), long(took));
            } else {
                bool by_interrupt = intr >= 0 && a[i].end >= intr && (s.attempts < 0 || a[i].end < lastAttempt);
                if (by_interrupt) {
                    MC_CHECK(a[i].end <= std::max(intr, start) + I, "%s: interrupted after %ld us, gave up only after %ld us", w.c_str(), long(intr - start), long(took));
                } else {
                    MC_CHECK(s.attempts >= 0, "%s: gave up after %ld us", w.c_str(), long(took));
                    MC_CHECK(a[i].end >= lastAttempt, "%s: gave up after %ld us, before all attempts were made", w.c_str(), long(took));
                    MC_CHECK(a[i].end <= lastAttempt + I, "%s: gave up only after %ld us", w.c_str(), long(took));
                }
                MC_CHECK(freed < 0 || freed >= lastAttempt || (intr >= 0 && a[i].end >= intr), "%s: failed although memory became free after %ld us", w.c_str(), long(freed - start));
            }
        }
        mc::outcome(std::string(kname[k]) + " " + s.name + (a[0].ok ? " ok " : " failed ") + std::to_string((a[0].end - start) / (I / 4)) + (two ? a[1].ok ? "+" : "-" : ""));
        if (freed < 0) MC_CHECK(view.free() == full, "%s: a failed attempt left %ld bytes", kname[k], long(full) - long(view.free()));
        for (auto& x : a) x.drop(f, n);
        if (what >= 2 && resumed < 0) f->Resume();
        for (auto& m : rm) m.reset();
        { mc::Quiet q; big.clear(); rest.clear(); }
        Attempt again;                          // afterwards everything works
        if (k != RegionCopy) {
            again.make(f, k, n);
            MC_CHECK(again.ok, "%s: fails although the segment is empty: %s", kname[k], again.why.c_str());
            MC_CHECK(again.end == again.begin, "%s: waits although the segment is empty", kname[k]);
            again.drop(f, n);
        }
        Attempt huge;                           // can never work: given up at once
        if (k != RegionCopy) {
            huge.make(f, k, 2 * g_seg);
            MC_CHECK(!huge.ok, "%s: a message larger than the segment", kname[k]);
            MC_CHECK(huge.end == huge.begin, "%s: waits %ld us for memory the segment does not have", kname[k], long(huge.end - huge.begin));
            huge.drop(f, 2 * g_seg);
        }
        if (r) {
            ms(700);
            r.reset();
            mc::Quiet q;
            for (int i = 0; i < 2; ++i) MC_CHECK(acks.count(nullptr, 0) == 0, "wrong acknowledgement");
            MC_CHECK(acks.got.size() == 2, "%zu acknowledgements for two blocks", acks.got.size());
        }
        MC_CHECK(view.free() == base, "%s: %ld bytes of the segment leaked", kname[k], long(base) - long(view.free()));
        { mc::Quiet q; MC_CHECK(view.sane(), "segment corrupted"); view.a.reset(); view.b.reset(); }
        mc::trace_validated();
    }
    gone("after the last device left");
}

// ---- failed operations change nothing but their target ----------------------------------------------
struct Buf { int tag; size_t n; bool reg; int refs = 0; bool shared = false; size_t hint = 0; char* p = nullptr; };
void sequences(int depth)
{
    clean();
    Acks acks;
    {
        mc::set_tick(0);
        int variant = mc::choose(3, "reference counts");     // in the segment, in an own segment, in an own segment too small for any
        Fac f = device("A", [](ProgOptions&) {}), h = device("H", [](ProgOptions&) {});
        SegView view;
        { mc::Quiet q; view.open(g_session, 0, true); }
        size_t base = view.free();
        RegionConfig cfg;
        cfg.id = 7;
        cfg.rcSegmentSize = variant == 0 ? 0 : variant == 1 ? 100000 : 5000;
        cfg.linger = 100;
        auto r = region(f, acks, 8192, false, cfg);
        MessagePtr slot[3];
        for (auto& m : slot) m = f->CreateMessage();
        int who[3] = {-1, -1, -1};
        std::vector<Buf> bufs;
        Hogs hogs;
        bool full = false, sure = false;        // sure: nothing was released since the segment was filled
        std::unique_ptr<boost::interprocess::managed_shared_memory> rcseg;
        std::unique_ptr<shmem::RefCountPool> pool;
        std::vector<shmem::RefCountPool::pointer> taken;
        std::string ops = variant == 0 ? "rc in segment:" : variant == 1 ? "rc segment:" : "tiny rc segment:";
        int tag = 20;
        bool poolfull = false, poolsure = false;
        auto leave = [&](int i) {               // slot i lets go of its buffer
            if (who[i] >= 0) {
                Buf& b = bufs[who[i]];
                if (--b.refs == 0) { if (!b.reg || (b.shared && variant == 0)) sure = false; if (b.reg && b.shared && variant == 1) poolsure = false; }
            }
            who[i] = -1;
        };
        auto hold = [&](int i, int b) { who[i] = b; if (b >= 0) ++bufs[b].refs; };
        auto fresh = [&](size_t n) { bufs.push_back({++tag, n, false}); return int(bufs.size()) - 1; };
        auto judge = [&](bool ok, bool must_fail, bool must_work) {
            MC_CHECK(!ok || !must_fail, "%s: succeeded although there is no memory", ops.c_str());
            MC_CHECK(ok || !must_work, "%s: failed although there is memory", ops.c_str());
            if (!ok) ops += "(failed)";
        };
        auto check = [&] {
            for (int i = 0; i < 3; ++i) {
                size_t n = who[i] >= 0 ? bufs[who[i]].n : 0;
                MC_CHECK(slot[i]->GetSize() == n, "%s: message %d has size %zu, expected %zu", ops.c_str(), i, slot[i]->GetSize(), n);
                if (n) MC_CHECK(holds(slot[i]->GetData(), n, bufs[who[i]].tag), "%s: content of message %d changed", ops.c_str(), i);
                auto& sm = static_cast<shmem::Message&>(*slot[i]);
                if (n) MC_CHECK(sm.GetRefCount() == bufs[who[i]].refs, "%s: message %d counts %d references, there are %d", ops.c_str(), i, int(sm.GetRefCount()), bufs[who[i]].refs);
            }
            for (auto& b : bufs) if (b.reg && b.refs) MC_CHECK(acks.count(b.p, b.hint) == 0, "%s: a block still in use was given back", ops.c_str());
        };
        auto create = [&](int i, Kind k, size_t n) {
            Attempt a;
            bool rebuild = k == RebuildSize || k == RebuildAligned || k == RebuildBuffer;
            ops += std::string(" ") + kname[k] + std::to_string(i);
            size_t before = view.free();
            int64_t t = now();
            bool ok = true, mf = sure, mw = !full;
            int calls = 0;
            void* buf = nullptr;
            if (k == Buffer || k == RebuildBuffer) { buf = malloc(n); fill(buf, n, tag + 1); }
            if (rebuild) leave(i), mf = sure;
            try {
                if (k == Plain) { auto m = f->CreateMessage(n); leave(i); slot[i] = std::move(m); }
                else if (k == Buffer) { auto m = f->CreateMessage(buf, n, Attempt::freed, &calls); leave(i); slot[i] = std::move(m); }
                else if (k == RebuildSize) slot[i]->Rebuild(n);
                else if (k == RebuildAligned) slot[i]->Rebuild(n, Alignment{1024});
                else slot[i]->Rebuild(buf, n, Attempt::freed, &calls);
            } catch (MessageBadAlloc&) { ok = false; }
            MC_CHECK(now() == t, "%s: took time", ops.c_str());
            MC_CHECK(calls == (ok && buf ? 1 : 0), "%s: the user's buffer was released %d times", ops.c_str(), calls);
            if (!ok && buf) { MC_CHECK(holds(buf, n, tag + 1), "%s: the user's buffer changed", ops.c_str()); free(buf); }
            if (!ok && !rebuild) MC_CHECK(view.free() == before, "%s: took %ld bytes of the segment", ops.c_str(), long(before) - long(view.free()));
            judge(ok, mf, mw);
            if (ok) { int b = fresh(n); hold(i, b); if (!buf) fill(slot[i]->GetData(), n, bufs[b].tag); }
            else ++tag;
        };
        auto copy = [&](int j, int i) {
            ops += " copy" + std::to_string(j) + std::to_string(i);
            if (slot[j]->GetSize() == 0) { slot[i]->Copy(*slot[j]); leave(i); return; }
            Buf& b = bufs[who[j]];
            int keep = who[j];
            bool need = b.reg && !b.shared && who[i] != who[j];
            bool ok = true;
            leave(i);
            bool mf = need && (variant == 0 ? sure : variant == 1 ? poolsure : true);
            bool mw = !need || (variant == 0 ? !full : variant == 1 ? !poolfull : false);
            try { slot[i]->Copy(*slot[j]); }
            catch (MessageBadAlloc&) { ok = false; MC_CHECK(variant == 0, "%s: MessageBadAlloc", ops.c_str()); }
            catch (RefCountBadAlloc&) { ok = false; MC_CHECK(variant != 0, "%s: RefCountBadAlloc", ops.c_str()); }
            judge(ok, mf, mw);
            if (ok) { hold(i, keep); if (b.reg) bufs[keep].shared = true; }
        };
        for (int step = 0; step < depth; ++step) {
            int op = mc::choose(13, "op");
            mc::transition();
            switch (op) {
                case 0: create(0, Plain, 100); break;
                case 1: create(1, RebuildSize, 90); break;
                case 2: create(0, Buffer, 80); break;
                case 3: create(1, RebuildBuffer, 70); break;
                case 4: create(2, RebuildAligned, 60); break;
                case 5: copy(0, 1); break;
                case 6: copy(1, 0); break;
                case 7: copy(0, 2); break;
                case 8: {
                    ops += " region0";
                    Buf b{++tag, 48, true};
                    b.p = static_cast<char*>(r->GetData()) + 64 * bufs.size();
                    b.hint = 500 + bufs.size();
                    fill(b.p, 48, b.tag);
                    bufs.push_back(b);
                    slot[0] = f->CreateMessage(r, b.p, b.n, reinterpret_cast<void*>(b.hint));
                    leave(0);
                    hold(0, int(bufs.size()) - 1);
                    break;
                }
                case 9: {
                    ops += " fill";
                    mc::Quiet q;
                    hog(h, hogs);
                    full = sure = true;
                    if (variant == 1) {
                        if (!pool) {
                            rcseg = std::make_unique<boost::interprocess::managed_shared_memory>(boost::interprocess::open_only, shmem::MakeShmName(shmid(g_session), "rrc", 7).c_str());
                            pool = std::make_unique<shmem::RefCountPool>(rcseg->get_segment_manager());
                        }
                        try { for (;;) { taken.push_back(pool->allocate_one()); MC_CHECK(taken.size() < 100000, "the reference count segment never becomes full"); } }
                        catch (boost::interprocess::bad_alloc&) {}
                        poolfull = poolsure = true;
                    }
                    break;
                }
                case 10: {
                    ops += " empty";
                    mc::Quiet q;
                    hogs.clear();
                    for (auto& p : taken) pool->deallocate_one(p);
                    taken.clear();
                    full = sure = poolfull = poolsure = false;
                    break;
                }
                case 11: ops += " delete0"; slot[0] = f->CreateMessage(); leave(0); break;
                case 12: ops += " rebuild1"; slot[1]->Rebuild(); leave(1); break;
            }
            check();
        }
        ops += " end";
        for (int i = 0; i < 3; ++i) { slot[i].reset(); leave(i); }
        { mc::Quiet q; hogs.clear(); for (auto& p : taken) pool->deallocate_one(p); taken.clear(); pool.reset(); rcseg.reset(); }
        r.reset();
        { mc::Quiet q; acks.over = true; }
        size_t regs = 0;
        for (auto& b : bufs) if (b.reg) { ++regs; MC_CHECK(acks.count(b.p, b.hint) == 1, "%s: block %zu was given back %zu times", ops.c_str(), b.hint, acks.count(b.p, b.hint)); }
        MC_CHECK(acks.got.size() == regs, "%s: %zu acknowledgements for %zu blocks", ops.c_str(), acks.got.size(), regs);
        MC_CHECK(view.free() == base, "%s: %ld bytes of the segment leaked", ops.c_str(), long(base) - long(view.free()));
        mc::outcome(ops);
        mc::trace_validated();
        { mc::Quiet qq; MC_CHECK(view.sane(), "segment corrupted"); view.a.reset(); }
    }
    gone("after the last device left");
}
}   // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Scenario> v;
    mc::Opts o;
    o.preemptions = 0;
    o.preemptions_thorough = 0;
    o.delays = true;
    o.early_timeouts = false;
    o.sched_atomics = false;
    o.max_steps = 200000;
    o.max_time_jumps = 4000;
    mc::Opts p = o;
    p.preemptions = 1;
    p.preemptions_thorough = 2;
    v.push_back({"attempts", "every way to make a message x every retry setting x memory freed / transport interrupted / resumed at every half interval", [] { attempts(0, false, "rbtree_best_fit"); }, p});
    v.push_back({"fragments", "same, the freed memory consists of several adjacent buffers", [] { attempts(0, true, "rbtree_best_fit"); }, o});
    v.push_back({"seqfit", "same, the other allocation algorithm", [] { attempts(0, false, "simple_seq_fit"); }, o});
    v.push_back({"two_threads", "two threads wait for memory", [] { attempts(1, false, "rbtree_best_fit"); }, o});
    v.push_back({"sequences", "all sequences of operations that need memory, with a segment filled and emptied in between, three places for reference counts", [] { sequences(mc::thorough() ? 5 : 4); }, o});
    return mc::run(argc, argv, v);
}
