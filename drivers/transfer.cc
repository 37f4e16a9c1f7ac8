// C22: result codes, ownership and counters of transfers under every sequence of libzmq outcomes
// C23: content, shape and order of transferred messages
// C24: pollers
#include "transport.h"
#include <fairmq/Channel.h>
#include <fairmq/Poller.h>
#include <cerrno>
#include <thread>
using namespace tr;
using Container = Parts::container;

namespace {
constexpr int kTimeout = int(TransferCode::timeout), kError = int(TransferCode::error), kInterrupted = int(TransferCode::interrupted);
std::string num(int64_t n) { return std::to_string(n); }
std::unique_ptr<Channel> channel(const std::string& name, const std::string& type, std::shared_ptr<TransportFactory> f) { return std::make_unique<Channel>(name, type, f); }
struct World
{
    std::shared_ptr<TransportFactory> f[2];     // sender's, receiver's
    std::shared_ptr<TransportFactory> other;    // the other transport, for foreign parts
    std::unique_ptr<Channel> c[2];
    SegView view;
    bool shm = false;
    int number = 0;
    void* raw(int i) const { return fakezmq::find(c[i]->GetSocket().GetId()); }
};
World& world(bool shm, const std::string& a = "push", const std::string& b = "pull")
{
    static auto* all = new std::map<std::string, World>;
    auto& w = (*all)[std::to_string(shm) + a];
    if (w.f[0]) return w;
    static int n = 0;
    w.number = n++;
    std::string session = "transfer" + std::to_string(w.number);
    w.shm = shm;
    std::unique_ptr<ProgOptions> o(options(session, 1 << 20));
    for (int i = 0; i < 2; ++i) {
        if (shm) w.f[i] = std::make_shared<fair::mq::shmem::TransportFactory>(session + (i ? "B" : "A"), o.get());
        else w.f[i] = std::make_shared<fair::mq::zmq::TransportFactory>(session + (i ? "B" : "A"), o.get());
    }
    std::unique_ptr<ProgOptions> p(options(session + "x", 1 << 20));
    if (shm) w.other = std::make_shared<fair::mq::zmq::TransportFactory>(session + "X", p.get());
    else w.other = std::make_shared<fair::mq::shmem::TransportFactory>(session + "X", p.get());
    w.c[0] = channel("data", a, w.f[0]);
    w.c[1] = channel("data", b, w.f[1]);
    MC_CHECK(w.c[0]->Bind("inproc://" + session) && w.c[1]->Connect("inproc://" + session), "connect");
    if (shm) w.view.open(session, 0, true);
    return w;
}
// the second device sends on what it received to the first one
[[maybe_unused]] World& back(bool shm)
{
    static auto* all = new std::map<bool, World>;
    auto& w = (*all)[shm];
    if (w.f[0]) return w;
    World& v = world(shm);
    w.shm = shm;
    w.f[0] = v.f[1];
    w.f[1] = v.f[0];
    w.c[0] = channel("back", "push", w.f[0]);
    w.c[1] = channel("back", "pull", w.f[1]);
    std::string a = std::string("inproc://back") + (shm ? "1" : "0");
    MC_CHECK(w.c[0]->Bind(a) && w.c[1]->Connect(a), "connect");
    if (shm) w.view.open("transfer" + std::to_string(v.number), 0, true);
    return w;
}
struct Count { unsigned long btx, brx, mtx, mrx; };
Count counters(Channel& c) { return {c.GetBytesTx(), c.GetBytesRx(), c.GetMessagesTx(), c.GetMessagesRx()}; }

#if PROP == 22
// ---- every sequence of outcomes of the transport's calls --------------------------------------------
// What the transport below did during one operation, recorded by the stand-in.
struct Log { int calls = 0, failed = 0; bool fatal = false, interrupted = false, dontwait_missing = false; bool mid = false; int64_t last = 0; };
constexpr int kOps = 6;   // send one / send 1..3 parts / receive one / receive parts
void faults(bool shm, int depth)
{
    fakezmq::fault = nullptr;
    World& w = world(shm);
    static const int timeouts[] = {-1, 0, 50, 100, 250, 1000};
    int op = mc::choose(kOps, "operation");
    int timeout = timeouts[mc::choose(6, "timeout")];
    bool viasock = mc::flag("socket instead of channel");
    int nparts = op == 0 || op == 4 ? 1 : op == 5 ? 2 : op;
    bool sending = op < 4;
    Channel& ch = *w.c[sending ? 0 : 1];
    void* raw = w.raw(sending ? 0 : 1);
    std::string what = std::string(shm ? "shmem " : "zmq ") + (op == 0 ? "send message" : op == 4 ? "receive message" : op == 5 ? "receive 2 parts" : ("send " + num(op) + " parts").c_str()) + ", timeout " + num(timeout) + ":";
    static const size_t sizes[] = {11, 0, 23};
    size_t base = w.view.free();
    // what is to be received
    if (!sending) {
        Container v;
        for (int i = 0; i < nparts; ++i) { v.push_back(w.f[0]->CreateMessage(sizes[i])); fill(v[i]->GetData(), sizes[i], i + 3); }
        size_t all = 0;
        for (int i = 0; i < nparts; ++i) all += sizes[i];
        int64_t n = op == 4 ? w.c[0]->Send(v[0]) : w.c[0]->Send(v);
        MC_CHECK(n == int64_t(all), "%s preparing returned %ld", what.c_str(), long(n));
    }
    Container v;
    MessagePtr one;
    if (sending) for (int i = 0; i < nparts; ++i) { v.push_back(w.f[0]->CreateMessage(sizes[i])); fill(v[i]->GetData(), sizes[i], i + 3); }
    if (op == 0) { one = std::move(v[0]); v.clear(); }
    if (op == 4) { one = w.f[1]->CreateMessage(7); fill(one->GetData(), 7, 77); }
    Container had;      // parts the container had before
    if (op == 5 && mc::flag("container not empty")) { v.push_back(w.f[1]->CreateMessage(7)); fill(v[0]->GetData(), 7, 77); }
    size_t before = v.size();
    Count c0 = counters(ch);
    Log log;
    int left = depth;
    bool full = false;      // from now on it would block forever
    int64_t t0 = mc::now_ns();
    // asked before each call of the transport
    auto hook = [&](bool mid) -> int {
        ++log.calls;
        if (mid) log.mid = true;
        if (timeout == 0 && !(fakezmq::last_flags & ZMQ_DONTWAIT)) log.dontwait_missing = true;
        MC_CHECK(log.calls < 200, "%s the call never ends (%ld ms passed)", what.c_str(), long((mc::now_ns() - t0) / 1000000));
        int k = mid ? (left > 0 ? mc::choose(3, "outcome") : 0) : full ? 1 : mc::choose(left > 0 ? 5 : 2, "outcome");
        --left;
        if (k == 0) { what += " ok"; return 0; }
        if (mid && k == 1) k = 2;
        else if (mid) k = 3;
        bool wait = !(fakezmq::last_flags & ZMQ_DONTWAIT);
        ++log.failed;
        int e = 0;
        switch (k) {
            case 1: e = EAGAIN; if (wait) mc::advance_ns(int64_t(100) * 1000000); if (left <= 0) full = true; if (!full) what += " block"; else if (log.failed == 1 || left == 0) what += " block..."; break;
            case 2: e = EINTR; if (wait) mc::advance_ns(int64_t(7) * 1000000); what += " EINTR"; break;
            case 3: e = ETERM; log.fatal = true; what += " ETERM"; break;
            case 4: e = EHOSTUNREACH; log.fatal = true; what += " EHOSTUNREACH"; break;
        }
        if (!log.fatal && !full && !mid && mc::flag("interrupted meanwhile")) { what += " Interrupt"; w.f[sending ? 0 : 1]->Interrupt(); log.interrupted = true; }
        if (full && timeout < 0 && log.failed > 6 && !log.interrupted) { what += " Interrupt"; w.f[sending ? 0 : 1]->Interrupt(); log.interrupted = true; }
        log.last = mc::now_ns();
        return e;
    };
    fakezmq::fault = [&](fakezmq::Op o, void* s) { return (o == fakezmq::SEND || o == fakezmq::RECV) && s == raw ? hook(false) : 0; };
    fakezmq::midfault = [&](fakezmq::Op, void* s) { return s == raw ? hook(true) : 0; };
    mc::transition();
    int64_t n = -99;
    bool threw = false;
    try {
        if (op == 0) n = viasock ? ch.GetSocket().Send(one, timeout) : ch.Send(one, timeout);
        else if (op == 4) n = viasock ? ch.GetSocket().Receive(one, timeout) : ch.Receive(one, timeout);
        else if (op == 5) n = viasock ? ch.GetSocket().Receive(v, timeout) : ch.Receive(v, timeout);
        else n = viasock ? ch.GetSocket().Send(v, timeout) : ch.Send(v, timeout);
    } catch (std::exception& e) { threw = true; what += std::string(" exception ") + e.what(); }
    fakezmq::fault = nullptr;
    fakezmq::midfault = nullptr;
    int64_t elapsed = (mc::now_ns() - t0) / 1000000;
    what += " -> " + num(n) + " after " + num(elapsed) + " ms";
    MC_CHECK(!threw, "%s", what.c_str());
    MC_CHECK(!log.dontwait_missing, "%s the transport was asked to wait", what.c_str());
    if (timeout == 0) MC_CHECK(elapsed == 0, "%s waited", what.c_str());
    size_t total = 0;
    for (int i = 0; i < nparts; ++i) total += sizes[i];
    bool ok = n >= 0;
    if (ok) MC_CHECK(n == int64_t(total), "%s: %zu bytes were transferred", what.c_str(), total);
    else {
        MC_CHECK(n == kTimeout || n == kError || n == kInterrupted, "%s: unknown code", what.c_str());
        MC_CHECK(log.failed > 0, "%s: nothing went wrong", what.c_str());
        if (n == kTimeout) {
            MC_CHECK(timeout >= 0, "%s: gave up", what.c_str());
            MC_CHECK(elapsed >= timeout - 1, "%s: gave up too early", what.c_str());
        }
        if (n == kError) MC_CHECK(log.fatal, "%s: no error occurred", what.c_str());
        if (n == kInterrupted) MC_CHECK(log.interrupted, "%s: nobody interrupted", what.c_str());
    }
    if (log.fatal) MC_CHECK(n == kError, "%s: the failure was not reported", what.c_str());
    if (timeout > 0) MC_CHECK(elapsed <= timeout + 100 + 10 * depth, "%s: went on trying", what.c_str());
    // handed over or not
    size_t q = fakezmq::queued(w.raw(1));
    size_t expect = sending ? (ok ? 1 : 0) : (ok ? 0 : 1);
    bool broken = log.mid && log.fatal;      // the transport died between two parts
    if (!broken) MC_CHECK(q == expect, "%s: %zu messages are in the transport", what.c_str(), q);
    Count c1 = counters(ch);
    if (sending) {
        MC_CHECK(c1.btx - c0.btx == (ok ? total : 0) && c1.mtx - c0.mtx == (ok ? 1u : 0u), "%s: counters say %lu bytes, %lu messages sent", what.c_str(), c1.btx - c0.btx, c1.mtx - c0.mtx);
        MC_CHECK(c1.brx == c0.brx && c1.mrx == c0.mrx, "%s: receive counters changed", what.c_str());
    } else {
        MC_CHECK(c1.brx - c0.brx == (ok ? total : 0) && c1.mrx - c0.mrx == (ok ? 1u : 0u), "%s: counters say %lu bytes, %lu messages received", what.c_str(), c1.brx - c0.brx, c1.mrx - c0.mrx);
        MC_CHECK(c1.btx == c0.btx && c1.mtx == c0.mtx, "%s: send counters changed", what.c_str());
    }
    // ownership
    if (sending && !ok && !broken) {
        if (op == 0) v.push_back(std::move(one));
        MC_CHECK(v.size() == size_t(nparts), "%s: %zu parts left", what.c_str(), v.size());
        for (int i = 0; i < nparts; ++i) {
            MC_CHECK(v[i] && v[i]->GetSize() == sizes[i] && holds(v[i]->GetData(), sizes[i], i + 3), "%s: part %d is not what it was", what.c_str(), i);
        }
    }
    if (!sending) {
        if (op == 4) {
            if (ok) MC_CHECK(one->GetSize() == sizes[0] && holds(one->GetData(), sizes[0], 3), "%s: received something else", what.c_str());
            else MC_CHECK(one->GetSize() == 7 && holds(one->GetData(), 7, 77), "%s: the message changed", what.c_str());
        } else {
            MC_CHECK(v.size() == before + (ok ? nparts : 0), "%s: %zu parts, %zu before", what.c_str(), v.size(), before);
            if (before) MC_CHECK(v[0]->GetSize() == 7 && holds(v[0]->GetData(), 7, 77), "%s: the earlier part changed", what.c_str());
            if (ok) for (int i = 0; i < nparts; ++i) MC_CHECK(v[before + i]->GetSize() == sizes[i] && holds(v[before + i]->GetData(), sizes[i], i + 3), "%s: part %d is wrong", what.c_str(), i);
        }
    }
    // afterwards the connection is as it was: what is there can be received, then another message passes
    w.f[0]->Resume();
    w.f[1]->Resume();
    if (broken) { fakezmq::forget(raw); }
    while (fakezmq::queued(w.raw(1))) {
        Container r;
        int64_t m;
        if (op == 0 || op == 4) { r.push_back(w.f[1]->CreateMessage()); m = w.c[1]->Receive(r[0], 0); } else m = w.c[1]->Receive(r, 0);
        MC_CHECK(m == int64_t(total) && r.size() == size_t(nparts), "%s: afterwards received %ld bytes in %zu parts", what.c_str(), long(m), r.size());
        for (int i = 0; i < nparts; ++i) MC_CHECK(r[i]->GetSize() == sizes[i] && holds(r[i]->GetData(), sizes[i], i + 3), "%s: part %d arrived damaged", what.c_str(), i);
    }
    if (sending && !ok && !broken) {       // the caller can try again
        int64_t m = op == 0 ? w.c[0]->Send(v[0], 0) : w.c[0]->Send(v, 0);
        MC_CHECK(m == int64_t(total), "%s: trying again returned %ld", what.c_str(), long(m));
        Container r;
        if (op == 0) { r.push_back(w.f[1]->CreateMessage()); m = w.c[1]->Receive(r[0], 0); } else m = w.c[1]->Receive(r, 0);
        MC_CHECK(m == int64_t(total) && r.size() == size_t(nparts), "%s: trying again, received %ld bytes in %zu parts", what.c_str(), long(m), r.size());
        for (int i = 0; i < nparts; ++i) MC_CHECK(r[i]->GetSize() == sizes[i] && holds(r[i]->GetData(), sizes[i], i + 3), "%s: trying again, part %d arrived damaged", what.c_str(), i);
    }
    v.clear();
    one.reset();
    MC_CHECK(w.view.free() == base, "%s: %ld bytes of the segment lost", what.c_str(), long(base) - long(w.view.free()));
    mc::outcome(num(op) + "/" + num(timeout) + "/" + (ok ? "ok" : num(n)));
}
// ---- threads: back-pressure, interruption, timing ---------------------------------------------------
void blocking(bool shm, int n, bool interrupt, bool parts)
{
    clean();
    {
        mc::set_tick(0);
        std::shared_ptr<TransportFactory> f[2];
        ProgOptions* o;
        { mc::Quiet q; o = options("blocking", 1 << 17); }
        for (int i = 0; i < 2; ++i) {
            if (shm) f[i] = std::make_shared<fair::mq::shmem::TransportFactory>(i ? "B" : "A", o);
            else f[i] = std::make_shared<fair::mq::zmq::TransportFactory>(i ? "B" : "A", o);
        }
        { mc::Quiet q; delete o; }
        Channel a("data", "push", f[0]), b("data", "pull", f[1]);
        a.GetSocket().SetSndBufSize(1);
        b.GetSocket().SetRcvBufSize(1);
        MC_CHECK(a.Bind("inproc://b") && b.Connect("inproc://b"), "connect");
        int sent = 0, got = 0;
        int64_t slast = 0, rlast = 0;
        std::thread s([&] {
            for (int i = 0; i < n; ++i) {
                Parts p;
                p.AddPart(f[0]->CreateMessage(8 + i));
                fill(p.At(0)->GetData(), 8 + i, i);
                if (parts) { p.AddPart(f[0]->CreateMessage(3)); fill(p.At(1)->GetData(), 3, 50 + i); }
                slast = parts ? a.Send(p) : a.Send(p.At(0));
                if (slast < 0) break;
                { mc::Quiet q; MC_CHECK(slast == 8 + i + (parts ? 3 : 0), "Send returned %ld", long(slast)); }
                ++sent;
            }
        });
        std::thread r([&] {
            for (int i = 0; i < n + (interrupt ? 1 : 0); ++i) {
                Parts p;
                MessagePtr m = f[1]->CreateMessage();
                rlast = parts ? b.Receive(p) : b.Receive(m);
                if (rlast < 0) break;
                mc::Quiet q;
                if (!parts) p.AddPart(std::move(m));
                MC_CHECK(p.Size() == (parts ? 2u : 1u) && p.At(0)->GetSize() == size_t(8 + i) && holds(p.At(0)->GetData(), 8 + i, i), "message %d arrived damaged or out of order", i);
                ++got;
                mc::Quiet* un = nullptr; (void)un;
                p.Clear();
            }
        });
        if (interrupt) {
            int64_t t0 = mc::now_ns();
            f[0]->Interrupt();
            f[1]->Interrupt();
            s.join();
            r.join();
            MC_CHECK(mc::now_ns() - t0 <= 1000000000ll, "interruption took %ld ms", long((mc::now_ns() - t0) / 1000000));
            MC_CHECK(slast >= 0 || slast == kInterrupted, "Send returned %ld", long(slast));
            MC_CHECK(rlast == kInterrupted, "Receive returned %ld", long(rlast));
            MC_CHECK(sent == n || slast == kInterrupted, "Send stopped after %d messages", sent);
            MC_CHECK(got <= sent, "received more than was sent");
        } else {
            s.join();
            r.join();
            MC_CHECK(sent == n && got == n, "%d sent, %d received", sent, got);
        }
        MC_CHECK(a.GetMessagesTx() == size_t(sent) && b.GetMessagesRx() == size_t(got), "counters");
        mc::transition();
        mc::outcome(num(sent) + "/" + num(got));
        // what is still in the transport is not lost
        f[1]->Resume();
        for (int i = got; i < sent; ++i) {
            Parts p;
            MessagePtr m = f[1]->CreateMessage();
            int64_t k = parts ? b.Receive(p, 0) : b.Receive(m, 0);
            MC_CHECK(k == 8 + i + (parts ? 3 : 0), "message %d was lost: %ld", i, long(k));
        }
    }
    gone("at the end");
}
// time-outs against a slow peer: nothing lost, repeated or given up too early
void timed(bool shm, int n)
{
    clean();
    {
        mc::set_tick(0);
        std::shared_ptr<TransportFactory> f[2];
        ProgOptions* o;
        { mc::Quiet q; o = options("blocking", 1 << 17); }
        for (int i = 0; i < 2; ++i) {
            if (shm) f[i] = std::make_shared<fair::mq::shmem::TransportFactory>(i ? "B" : "A", o);
            else f[i] = std::make_shared<fair::mq::zmq::TransportFactory>(i ? "B" : "A", o);
        }
        { mc::Quiet q; delete o; }
        Channel a("data", "push", f[0]), b("data", "pull", f[1]);
        a.GetSocket().SetSndBufSize(1);
        b.GetSocket().SetRcvBufSize(1);
        MC_CHECK(a.Bind("inproc://b") && b.Connect("inproc://b"), "connect");
        static const int timeouts[] = {0, 100, 250};
        int st = timeouts[mc::choose(3, "send timeout")], rt = timeouts[mc::choose(3, "receive timeout")];
        int gaveup = 0, nothing = 0;
        auto check = [&](int64_t t0, int timeout) {
            int64_t e = (mc::now_ns() - t0) / 1000000;
            MC_CHECK(e >= timeout - 1, "a transfer with timeout %d ms gave up after %ld ms", timeout, long(e));
        };
        std::thread s([&] {
            for (int i = 0; i < n; ++i) {
                MessagePtr m = f[0]->CreateMessage(8 + i);
                fill(m->GetData(), 8 + i, i);
                while (true) {
                    int64_t t0 = mc::now_ns();
                    int64_t k = a.Send(m, st);
                    if (k == 8 + i) break;
                    {
                        mc::Quiet q;
                        MC_CHECK(k == kTimeout, "Send returned %ld", long(k));
                        check(t0, st);
                        MC_CHECK(m->GetSize() == size_t(8 + i) && holds(m->GetData(), 8 + i, i), "the message changed");
                        MC_CHECK(++gaveup < 60, "sending never succeeds");
                    }
                    if (!st) ms(30);
                }
            }
        });
        std::thread r([&] {
            for (int i = 0; i < n; ++i) {
                ms(170);
                MessagePtr m = f[1]->CreateMessage();
                while (true) {
                    int64_t t0 = mc::now_ns();
                    int64_t k = b.Receive(m, rt);
                    if (k >= 0) { mc::Quiet q; MC_CHECK(k == 8 + i && m->GetSize() == size_t(8 + i) && holds(m->GetData(), 8 + i, i), "message %d arrived damaged or out of order", i); break; }
                    MC_CHECK(k == kTimeout, "Receive returned %ld", long(k));
                    check(t0, rt);
                    MC_CHECK(++nothing < 60, "receiving never succeeds");
                    if (!rt) ms(30);
                }
            }
        });
        s.join();
        r.join();
        MC_CHECK(a.GetMessagesTx() == size_t(n) && b.GetMessagesRx() == size_t(n) && a.GetBytesTx() == b.GetBytesRx(), "counters");
        mc::transition();
        mc::outcome(num(st) + "/" + num(rt) + "/" + num(gaveup) + "/" + num(nothing));
    }
    gone("at the end");
}
#endif

#if PROP == 23
// ---- shapes -----------------------------------------------------------------------------------------
struct Made { MessagePtr m; std::vector<MessagePtr> keep; size_t size; int tag; };
const char* origins[] = {"plain", "copy", "resized", "user buffer", "other transport", "other transport's copy", "region"};
Made make(World& w, UnmanagedRegionPtr& region, int origin, size_t size, int tag)
{
    Made x{nullptr, {}, size, tag};
    auto& f = *w.f[0];
    switch (origin) {
        case 0: x.m = f.CreateMessage(size); break;
        case 1: {
            auto src = f.CreateMessage(size);
            fill(src->GetData(), size, tag);
            x.m = f.CreateMessage();
            x.m->Copy(*src);
            x.keep.push_back(std::move(src));
            return x;
        }
        case 2:
            x.m = f.CreateMessage(size + 40);
            fill(x.m->GetData(), size + 40, tag);
            MC_CHECK(x.m->SetUsedSize(size), "SetUsedSize");
            return x;
        case 3: {
            void* p = malloc(size + 1);
            fill(p, size, tag);
            x.m = f.CreateMessage(p, size, [](void* d, void*) { free(d); }, nullptr);
            return x;
        }
        case 4: x.m = w.other->CreateMessage(size); break;
        case 5: {
            auto src = w.other->CreateMessage(size);
            fill(src->GetData(), size, tag);
            x.m = w.other->CreateMessage();
            x.m->Copy(*src);
            x.keep.push_back(std::move(src));
            return x;
        }
        case 6: {
            char* p = static_cast<char*>(region->GetData()) + (tag % 16) * 256;
            fill(p, size, tag);
            x.m = f.CreateMessage(region, p, size, nullptr);
            return x;
        }
    }
    fill(x.m->GetData(), size, tag);
    return x;
}
struct Reg { UnmanagedRegionPtr r; long acks = 0; };
Reg& reg(World& w)
{
    static auto* all = new std::map<World*, Reg>;
    auto& x = (*all)[&w];
    if (!x.r) {
        RegionConfig cfg;
        cfg.rcSegmentSize = 100000;
        cfg.linger = 10;
        x.r = w.f[0]->CreateUnmanagedRegion(4096, RegionCallback([&x](void*, size_t, void*) { ++x.acks; }), cfg);
    }
    return x;
}
void check(World& w, const std::string& what, Container& r, std::vector<std::pair<size_t, int>> const& want)
{
    MC_CHECK(r.size() == want.size(), "%s: received %zu parts instead of %zu", what.c_str(), r.size(), want.size());
    for (size_t i = 0; i < r.size(); ++i) {
        MC_CHECK(r[i]->GetSize() == want[i].first, "%s: part %zu has %zu bytes instead of %zu", what.c_str(), i, r[i]->GetSize(), want[i].first);
        MC_CHECK(r[i]->GetType() == w.f[1]->GetType(), "%s: part %zu is of another transport", what.c_str(), i);
        if (want[i].first) MC_CHECK(r[i]->GetData() && holds(r[i]->GetData(), want[i].first, want[i].second), "%s: part %zu has another content", what.c_str(), i);
    }
}
void shapes(bool shm, int maxparts, bool second)
{
    World& w = world(shm, second ? "pair" : "push", second ? "pair" : "pull");
    Reg& g = reg(w);
    static const size_t sizes[] = {0, 1, 40, 250};
    int nsz = maxparts > 2 ? 3 : 4;
    int nmsg = second ? 2 : 1;
    bool regions = shm;
    std::string what = shm ? "shmem:" : "zmq:";
    std::vector<std::vector<std::pair<size_t, int>>> want;
    std::vector<MessagePtr> keep;
    std::vector<std::pair<size_t, int>> kept;
    size_t base = w.view.free();
    int tag = 0;
    std::vector<bool> single;
    for (int k = 0; k < nmsg; ++k) {
        int n = 1 + mc::choose(second && k == 0 ? 2 : maxparts, "parts");
        int api = mc::choose(n == 1 ? 3 : 2, "api");      // Parts, container, single message
        Parts p;
        want.push_back({});
        what += k ? " |" : "";
        what += api == 0 ? " Parts" : api == 1 ? " container" : " message";
        size_t total = 0;
        for (int i = 0; i < n; ++i) {
            size_t size = sizes[mc::choose(second ? 2 : nsz, "size")];
            int origin = mc::choose((regions ? 7 : 6), "origin");
            if (origin == 2 && size == 0) origin = 0;
            Made m = make(w, g.r, origin, size, ++tag);
            what += " " + std::string(origins[origin]) + "(" + num(size) + ")";
            want.back().push_back({size, m.tag});
            total += size;
            for (auto& x : m.keep) { kept.push_back({size, m.tag}); keep.push_back(std::move(x)); }
            p.AddPart(std::move(m.m));
        }
        mc::transition();
        int64_t sent = api == 0 ? w.c[0]->Send(p, 0) : api == 1 ? w.c[0]->Send(p.fParts, 0) : w.c[0]->Send(p.At(0), 0);
        MC_CHECK(sent == int64_t(total), "%s: Send returned %ld instead of %zu", what.c_str(), long(sent), total);
        single.push_back(api == 2);
    }
    if (mc::flag("copies dropped before reception")) { keep.clear(); kept.clear(); what += " (copies dropped)"; }
    for (int k = 0; k < nmsg; ++k) {
        Parts r;
        size_t total = 0;
        for (auto& x : want[k]) total += x.first;
        // a single message may be received into a message of another transport, too
        int into = single[k] ? mc::choose(3, "into") : mc::choose(2, "into");
        int64_t n;
        if (single[k]) {
            r.AddPart(into == 0 ? w.f[1]->CreateMessage() : into == 1 ? w.f[1]->CreateMessage(33) : w.other->CreateMessage(5));
            n = w.c[1]->Receive(r.At(0), 0);
        } else n = into == 0 ? w.c[1]->Receive(r, 0) : w.c[1]->Receive(r.fParts, 0);
        MC_CHECK(n == int64_t(total), "%s: Receive returned %ld instead of %zu", what.c_str(), long(n), total);
        check(w, what, r.fParts, want[k]);
        for (size_t i = 0; i < keep.size(); ++i) MC_CHECK(keep[i]->GetSize() == kept[i].first && (!kept[i].first || holds(keep[i]->GetData(), kept[i].first, kept[i].second)), "%s: the source of a copied part changed", what.c_str());
    }
    MessagePtr none = w.f[1]->CreateMessage();
    MC_CHECK(w.c[1]->Receive(none, 0) == kTimeout, "%s: something else arrived", what.c_str());
    keep.clear();
    MC_CHECK(w.view.free() == base, "%s: %ld bytes of the segment lost", what.c_str(), long(base) - long(w.view.free()));
    mc::outcome(what.substr(0, 40));
}
// relay: what was received is sent on (with changes) over a second connection of the other or the same transport
void relay(bool shm, bool cross)
{
    World& w = world(shm);
    World& w2 = cross ? world(!shm) : back(shm);
    static const size_t sizes[] = {0, 1, 40};
    int n = 1 + mc::choose(3, "parts");
    std::string what = std::string(shm ? "shmem" : "zmq") + (cross ? " relayed to the other transport:" : " relayed:");
    size_t b1 = w.view.free(), b2 = w2.view.free();
    std::vector<std::pair<size_t, int>> want;
    {
        Parts p;
        for (int i = 0; i < n; ++i) {
            size_t s = sizes[mc::choose(3, "size")];
            auto m = w.f[0]->CreateMessage(s);
            fill(m->GetData(), s, i + 1);
            want.push_back({s, i + 1});
            p.AddPart(std::move(m));
        }
        MC_CHECK(w.c[0]->Send(p, 0) >= 0, "send");
        Parts r;
        MC_CHECK(w.c[1]->Receive(r, 0) >= 0, "receive");
        check(w, what, r.fParts, want);
        // edit
        int edit = mc::choose(5, "edit");
        what += " edit " + num(edit);
        if (edit == 1) { auto m = w.f[1]->CreateMessage(9); fill(m->GetData(), 9, 60); r.AddPart(std::move(m)); want.push_back({9, 60}); }
        if (edit == 2) { auto m = w.f[1]->CreateMessage(); m->Copy(*r.At(0)); r.AddPart(std::move(m)); want.push_back(want[0]); }
        if (edit == 3) { r.fParts.erase(r.fParts.begin()); want.erase(want.begin()); if (want.empty()) { mc::outcome("empty"); return; } }
        if (edit == 4) { std::swap(r.fParts.front(), r.fParts.back()); std::swap(want.front(), want.back()); }
        mc::transition();
        size_t total = 0;
        for (auto& x : want) total += x.first;
        // the relay's own messages belong to the first transport
        int64_t k = w2.c[0]->Send(r, 0);
        MC_CHECK(k == int64_t(total), "%s: Send returned %ld", what.c_str(), long(k));
        r.Clear();
        Parts e;
        k = w2.c[1]->Receive(e, 0);
        MC_CHECK(k == int64_t(total), "%s: Receive returned %ld", what.c_str(), long(k));
        check(w2, what, e.fParts, want);
    }
    MC_CHECK(w.view.free() == b1 && w2.view.free() == b2, "%s: memory lost", what.c_str());
    mc::outcome(what);
}
#endif

#if PROP == 24
// ---- pollers ----------------------------------------------------------------------------------------
const char* kinds[] = {"pull", "push", "pair", "dealer", "router", "req", "rep", "sub", "pub", "xsub", "xpub"};
bool can_in(const std::string& k) { return k != "push" && k != "pub" && k != "xpub"; }
bool can_out(const std::string& k) { return k == "push" || k == "pub" || k == "xpub" || k == "pair" || k == "dealer" || k == "router" || k == "req" || k == "rep"; }
void poller(bool shm, int construct, int nch, int nkinds)
{
    clean();
    std::unique_ptr<ProgOptions> o(options("poller", 1 << 17));
    std::shared_ptr<TransportFactory> f;
    if (shm) f = std::make_shared<fair::mq::shmem::TransportFactory>("A", o.get());
    else f = std::make_shared<fair::mq::zmq::TransportFactory>("A", o.get());
    {
        std::unordered_map<std::string, std::vector<Channel>> map;
        std::vector<std::string> list;
        std::vector<std::pair<std::string, int>> flat;      // what the poller covers, in order
        std::string what = shm ? "shmem:" : "zmq:";
        for (int c = 0; c < nch; ++c) {
            std::string name(1, char('a' + c));
            int subs = construct == 2 ? 1 + mc::choose(2, "sub-channels") : 1;
            std::string kind = kinds[mc::choose(nkinds, "kind")];
            if (shm && (kind == "sub" || kind == "pub")) kind = "x" + kind;
            what += " " + name + "=" + kind + "x" + num(subs);
            for (int i = 0; i < subs; ++i) map[name].emplace_back(name + "[" + num(i) + "]", kind, f);
        }
        // the poller asks for a subset in any order; optionally a name twice
        if (construct == 2) {
            int perm = mc::choose(nch == 1 ? 2 : nch == 2 ? 5 : 7, "list");
            static const char* one[] = {"a", "aa"};
            static const char* two[] = {"ab", "ba", "a", "b", "aba"};
            static const char* three[] = {"abc", "cba", "bca", "ac", "c", "bab", "ccb"};
            std::string l = nch == 1 ? one[perm] : nch == 2 ? two[perm] : three[perm];
            for (char x : l) list.push_back(std::string(1, x));
            what += " polling " + l;
            std::set<std::string> seen;
            for (auto& n : list) if (seen.insert(n).second) for (size_t i = 0; i < map[n].size(); ++i) flat.push_back({n, int(i)});
        } else for (int c = 0; c < nch; ++c) flat.push_back({std::string(1, char('a' + c)), 0});
        PollerPtr p;
        std::vector<Channel> vec;
        if (construct == 0) {
            for (auto& x : flat) vec.push_back(std::move(map.at(x.first)[0]));
            p = f->CreatePoller(vec);
        } else if (construct == 1) {
            std::vector<Channel*> ptrs;
            for (auto& x : flat) ptrs.push_back(&map.at(x.first)[0]);
            p = f->CreatePoller(ptrs);
        } else p = f->CreatePoller(map, list);
        auto sock = [&](size_t i) -> Channel& { return construct == 0 ? vec[i] : map.at(flat[i].first)[flat[i].second]; };
        bool unique = std::set<std::string>(list.begin(), list.end()).size() == list.size();
        for (int round = 0; round < 2; ++round) {
            // readiness as reported by the transport, and how polling goes
            std::map<void*, std::pair<bool, bool>> ready;
            int outcome = mc::choose(round ? 4 : 3, "poll outcome");   // 0 ready/time-out, 1 EINTR first, 2 failure, 3 terminated
            bool inverse = round == 0 ? mc::flag("writable is the opposite of readable") : true;
            bool firstin = false;
            for (size_t i = 0; i < flat.size(); ++i) {
                bool in = round == 0 || i == 0 || mc::thorough() ? mc::flag("readable") : ((i & 1) == 0) == firstin;
                if (i == 0) firstin = in;
                bool out = flat.size() < 2 && round == 0 ? mc::flag("writable") : in != inverse;
                ready[fakezmq::find(sock(i).GetSocket().GetId())] = {in, out};
                what += in ? out ? " io" : " i" : out ? " o" : " -";
            }
            what += outcome == 1 ? " EINTR" : outcome == 2 ? " EFAULT" : outcome == 3 ? " ETERM" : "";
            int calls = 0;
            fakezmq::readiness = [&](void* s) { auto it = ready.find(s); return it == ready.end() ? std::pair<bool, bool>(true, true) : it->second; };
            fakezmq::fault = [&](fakezmq::Op op, void*) -> int {
                if (op != fakezmq::POLL) return 0;
                ++calls;
                MC_CHECK(calls < 10, "%s: polling goes on", what.c_str());
                if (outcome == 1 && calls == 1) return EINTR;
                if (outcome == 2) return EFAULT;
                if (outcome == 3) return ETERM;
                return 0;
            };
            mc::transition();
            bool threw = false;
            try { p->Poll(0); } catch (PollerError&) { threw = true; }
            MC_CHECK(threw == (outcome == 2), "%s: %s", what.c_str(), threw ? "an exception" : "the failure was not reported");
            MC_CHECK(calls == (outcome == 1 ? 2 : 1), "%s: %d polls", what.c_str(), calls);
            fakezmq::fault = nullptr;
            fakezmq::readiness = nullptr;
            if (outcome == 2) break;
            for (size_t i = 0; i < flat.size(); ++i) {
                std::string kind = sock(i).GetType();
                auto r = ready[fakezmq::find(sock(i).GetSocket().GetId())];
                bool in = outcome != 3 && r.first && can_in(kind), out = outcome != 3 && r.second && can_out(kind);
                if (unique) {
                    MC_CHECK(p->CheckInput(int(i)) == in, "%s: CheckInput(%zu) is %d", what.c_str(), i, !in);
                    MC_CHECK(p->CheckOutput(int(i)) == out, "%s: CheckOutput(%zu) is %d", what.c_str(), i, !out);
                }
                if (construct == 2) {
                    MC_CHECK(p->CheckInput(flat[i].first, flat[i].second) == in, "%s: CheckInput(%s, %d) is %d", what.c_str(), flat[i].first.c_str(), flat[i].second, !in);
                    MC_CHECK(p->CheckOutput(flat[i].first, flat[i].second) == out, "%s: CheckOutput(%s, %d) is %d", what.c_str(), flat[i].first.c_str(), flat[i].second, !out);
                }
            }
            if (construct == 2) {
                for (auto n : {"z", "", "a[0]"}) {
                    bool t = false, u = false;
                    try { p->CheckInput(n, 0); } catch (PollerError&) { t = true; }
                    try { p->CheckOutput(n, 0); } catch (PollerError&) { u = true; }
                    MC_CHECK(t && u, "%s: unknown channel '%s' accepted", what.c_str(), n);
                }
            }
            if (outcome == 3) break;
        }
        if (construct == 2) {
            bool t = false;
            auto l = list;
            l.insert(l.begin() + long(mc::choose(int(l.size()) + 1, "position")), "nope");
            try { f->CreatePoller(map, l); } catch (PollerError&) { t = true; }
            MC_CHECK(t, "%s: a poller for an unknown channel", what.c_str());
        }
        mc::outcome(what.substr(0, 60));
    }
    f.reset();
}
// real traffic: readiness follows what is queued
void traffic(bool shm)
{
    clean();
    std::unique_ptr<ProgOptions> o(options("traffic", 1 << 17));
    std::shared_ptr<TransportFactory> f;
    if (shm) f = std::make_shared<fair::mq::shmem::TransportFactory>("A", o.get());
    else f = std::make_shared<fair::mq::zmq::TransportFactory>("A", o.get());
    {
        std::unordered_map<std::string, std::vector<Channel>> map;
        for (int i = 0; i < 2; ++i) {
            map["in"].emplace_back("in[" + num(i) + "]", "pull", f);
            map["out"].emplace_back("out[" + num(i) + "]", "push", f);
        }
        for (auto& c : map["out"]) c.GetSocket().SetSndBufSize(1);
        for (auto& c : map["in"]) c.GetSocket().SetRcvBufSize(1);
        for (int i = 0; i < 2; ++i) MC_CHECK(map["in"][i].Bind("inproc://t" + num(i)) && map["out"][i].Connect("inproc://t" + num(i)), "connect");
        auto p = f->CreatePoller(map, {"in", "out"});
        int q[2] = {0, 0};
        std::string what = shm ? "shmem:" : "zmq:";
        for (int k = 0; k < (mc::thorough() ? 8 : 6); ++k) {
            int op = mc::choose(4, "operation"), i = op & 1;
            what += (op & 2 ? " recv" : " send") + num(i);
            MessagePtr m = op & 2 ? f->CreateMessage() : f->CreateMessage(10);
            int64_t n = op & 2 ? map["in"][i].Receive(m, 0) : map["out"][i].Send(m, 0);
            bool ok = op & 2 ? q[i] > 0 : q[i] < 2;
            MC_CHECK((n == 10) == ok && (ok || n == kTimeout), "%s: returned %ld with %d queued", what.c_str(), long(n), q[i]);
            if (ok) q[i] += op & 2 ? -1 : 1;
            p->Poll(0);
            mc::transition();
            for (int j = 0; j < 2; ++j) {
                MC_CHECK(p->CheckInput("in", j) == (q[j] > 0) && !p->CheckOutput("in", j), "%s: in[%d]", what.c_str(), j);
                MC_CHECK(p->CheckOutput("out", j) == (q[j] < 2) && !p->CheckInput("out", j), "%s: out[%d]", what.c_str(), j);
            }
            mc::state(q[0] * 3 + q[1]);
        }
        mc::outcome(what);
    }
}
#endif
}   // namespace

int main(int argc, char** argv)
{
    setenv("USER", "verif", 1);
    mallopt(M_PERTURB, 0x5a);
    mc::Opts o;
    std::vector<mc::Scenario> v;
#ifdef MC_SEQ
    o.in_main = true;
    o.preemptions = 0;
    o.sched_atomics = false;
    for (int shm = 0; shm < 2; ++shm) {
        std::string t = shm ? "_shm" : "_zmq";
#if PROP == 23
        v.push_back({"shapes" + t, "one message: all shapes and origins of up to three parts", [shm] { shapes(shm, 3, false); }, o});
        v.push_back({"sequence" + t, "two messages in sequence", [shm] { shapes(shm, 2, true); }, o});
        v.push_back({"relay" + t, "received, edited and sent on", [shm] { relay(shm, false); }, o});
        v.push_back({"relay_cross" + t, "received, edited and sent on over the other transport", [shm] { relay(shm, true); }, o});
#elif PROP == 24
        for (int c = 0; c < 3; ++c) {
            static const char* cn[] = {"_channels", "_pointers", "_names"};
            v.push_back({"kinds" + t + cn[c], "one or two channels of every kind, readiness patterns, poll outcomes", [shm, c] { poller(shm, c, 1 + mc::choose(2, "channels"), c == 2 ? 3 : 11); }, o});
            if (c == 2) v.push_back({"lists" + t, "three channels, any order, several sub-channels", [shm] { poller(shm, 2, 3, mc::thorough() ? 2 : 1); }, o});
        }
        v.push_back({"kinds" + t, "single channel of every kind by name", [shm] { poller(shm, 2, 1, 11); }, o});
        v.push_back({"traffic" + t, "readiness follows traffic, all sequences of transfers", [shm] { traffic(shm); }, o});
#endif
    }
#elif PROP == 22
    o.delays = true;
    o.preemptions_thorough = 4;
    o.max_steps = 60000;
    for (int shm = 0; shm < 2; ++shm) {
        std::string t = shm ? "_shm" : "_zmq";
        mc::Opts one;
        one.in_main = true;
        one.preemptions = 0;
        one.sched_atomics = false;
        one.weight = 3;
        v.push_back({"faults" + t, "every sequence of outcomes of the transport's calls x operation x timeout", [shm] { faults(shm, mc::thorough() ? 9 : 7); }, one});
        v.push_back({"pressure" + t, "three messages through queues of one, sender and receiver threads", [shm] { blocking(shm, 4, false, false); }, o});
        v.push_back({"pressure_parts" + t, "same with two parts", [shm] { blocking(shm, 4, false, true); }, o});
        v.push_back({"timed" + t, "sending and receiving with time-outs, slow receiver", [shm] { timed(shm, 4); }, o});
        v.push_back({"interrupt" + t, "both interrupted at any moment", [shm] { blocking(shm, 3, true, false); }, o});
        v.push_back({"interrupt_parts" + t, "both interrupted at any moment, two parts", [shm] { blocking(shm, 3, true, true); }, o});
    }
#endif
    return mc::run(argc, argv, std::move(v));
}
