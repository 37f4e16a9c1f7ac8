// C13 (content) and C14 (release): every sequence of message operations up to a depth, on the real
// transports, against a reference model of buffers with reference counts.  Segment memory is
// accounted exactly: after every step free(segment) == initial - sum of the live buffers' costs.
#include "transport.h"
#include <algorithm>
using namespace tr;
#ifndef C14
#define C14 0
#endif
#ifndef SHORTER
#define SHORTER 0
#endif

namespace {
constexpr size_t kMsgSeg = 1 << 18;
struct Buf          // one buffer known to the library
{
    int tag;        // content
    long cost = 0;  // bytes of the segment it occupies
    int seg = 0;    // which segment
    int ffn = -1;   // user buffer whose release is expected when the buffer goes (zmq), -1: none
    size_t align = 0;
    int dev = 0;    // device that created it
};
using BufP = std::shared_ptr<Buf>;
struct User { void* data; int calls = 0; bool due = false; BufP* dummy = nullptr; std::weak_ptr<Buf> owner; };
std::map<void*, int> g_users;      // hint -> release count
std::vector<void*> g_freed_data;
void release(void* data, void* hint)
{
    ++*static_cast<int*>(hint);
    free(data);
}
struct Skip {};     // the operation does not apply here: the sequence ends
struct Slot
{
    MessagePtr msg;
    BufP buf;           // what the message should hold; null: empty
    size_t size = 0;
    bool sent = false;  // handed over: content no longer the caller's
    size_t want_align = 0;   // alignment asked for received buffers (zmq)
};
struct Part { BufP buf; size_t size; };
struct World
{
    bool shm;
    std::shared_ptr<TransportFactory> f[2];
    SegView view[2];
    int nview = 0;
    long base[2] = {0, 0};
    SocketPtr sock[2];
    int other_seg = 0;
};
std::map<int, World>& worlds() { static auto* w = new std::map<int, World>; return *w; }
World& world(int cfg)     // 0 zmq, 1 shm one segment, 2 shm two segments, 3 shm seq-fit
{
    auto& w = worlds()[cfg];
    if (w.f[0]) return w;
    w.shm = cfg != 0;
    std::string session = "messages" + std::to_string(cfg);
    if (!w.shm) {
        w.f[0] = std::make_shared<fair::mq::zmq::TransportFactory>("A");
        w.f[1] = std::make_shared<fair::mq::zmq::TransportFactory>("B");
    } else {
        std::string alg = cfg == 3 ? "simple_seq_fit" : "rbtree_best_fit";
        w.f[0] = std::make_shared<fair::mq::shmem::TransportFactory>("A", options(session, kMsgSeg, 0, alg));
        w.f[1] = std::make_shared<fair::mq::shmem::TransportFactory>("B", options(session, kMsgSeg, cfg == 2 ? 1 : 0, alg));
        w.view[0].open(session, 0, cfg != 3);
        w.nview = 1;
        if (cfg == 2) { w.view[1].open(session, 1, true); w.nview = 2; w.other_seg = 1; }
        for (int i = 0; i < w.nview; ++i) w.base[i] = long(w.view[i].free());
    }
    for (int i = 0; i < 2; ++i) w.sock[i] = w.f[i]->CreateSocket("pair", "c");
    std::string addr = "inproc://m" + std::to_string(cfg);
    MC_CHECK(w.sock[0]->Bind(addr) && w.sock[1]->Connect(addr), "cannot connect the sockets");
    return w;
}

struct Run
{
    World& w;
    std::vector<std::unique_ptr<int>> counters;
    std::vector<Slot> s;
    std::vector<int> owner;            // slot -> device
    std::vector<Part> q[2];            // in flight towards device d
    std::vector<size_t> qn[2];         // parts per message
    std::vector<int> cnt_storage;
    std::map<Buf*, int*> ffn;          // expected release counters
    std::vector<std::pair<std::weak_ptr<Buf>, int*>> watch;
    int tag = 0;
    std::string ops;
    unsigned long rxm[2] = {0, 0}, txm[2] = {0, 0}, rxb[2] = {0, 0}, txb[2] = {0, 0};
    std::vector<std::weak_ptr<Buf>> bufs;

    Run(World& ww, std::vector<int> own) : w(ww), owner(std::move(own))
    {
        s.resize(owner.size());
        for (size_t i = 0; i < s.size(); ++i) s[i].msg = fac(i).CreateMessage();
        for (int d = 0; d < 2; ++d) { txm[d] = w.sock[d]->GetMessagesTx(); rxm[d] = w.sock[d]->GetMessagesRx(); txb[d] = w.sock[d]->GetBytesTx(); rxb[d] = w.sock[d]->GetBytesRx(); }
    }
    TransportFactory& fac(size_t i) { return *w.f[owner[i]]; }
    int segof(size_t i) { return w.nview == 2 ? owner[i] : 0; }
    long used(int g) { return w.nview ? w.base[g] - long(w.view[g].free()) : 0; }
    long expected(int g)
    {
        long n = 0;
        std::set<Buf*> seen;
        for (auto& b : bufs) if (auto p = b.lock()) if (seen.insert(p.get()).second && p->seg == g) n += p->cost;
        return n;
    }
    void born(BufP b, int seg)          // just created in segment seg: whatever is new there is its cost
    {
        b->seg = seg;
        b->cost = 0;
        if (w.nview) b->cost = used(seg) - expected(seg);
        if (w.nview) MC_CHECK(b->cost > 0, "%s: a new buffer takes %ld bytes of the segment", ops.c_str(), b->cost);
        bufs.push_back(b);
    }
    void drop(Slot& x) { x.buf.reset(); x.size = 0; x.sent = false; }
    void made(size_t i, size_t size, size_t align)     // message i now has a fresh buffer of that size
    {
        Slot& x = s[i];
        drop(x);
        MC_CHECK(x.msg->GetSize() == size, "%s: message of %zu bytes reports size %zu", ops.c_str(), size, x.msg->GetSize());
        if (size) {
            x.buf = std::make_shared<Buf>();
            x.buf->tag = ++tag;
            x.buf->align = align;
            x.buf->dev = owner[i];
            x.size = size;
            born(x.buf, segof(i));
            void* p = x.msg->GetData();
            MC_CHECK(p, "%s: no data address", ops.c_str());
            if (align) MC_CHECK(reinterpret_cast<uintptr_t>(p) % align == 0, "%s: data address %p does not have alignment %zu", ops.c_str(), p, align);
            fill(p, size, tag);
        }
    }
    std::pair<void*, int*> user(size_t size, int t)
    {
        void* d = malloc(size ? size : 1);
        fill(d, size, t);
        counters.push_back(std::make_unique<int>(0));
        return {d, counters.back().get()};
    }
    // the buffer given with a release function became message i's content
    void given(size_t i, size_t size, int t, int* cnt)
    {
        Slot& x = s[i];
        drop(x);
        MC_CHECK(x.msg->GetSize() == size, "%s: message from a buffer of %zu bytes reports size %zu", ops.c_str(), size, x.msg->GetSize());
        if (w.shm) {
            if (size) { x.buf = std::make_shared<Buf>(); x.buf->tag = t; x.size = size; born(x.buf, segof(i)); }
            watch.push_back({std::weak_ptr<Buf>(), cnt});       // copied: to be released at once
        } else {
            x.buf = std::make_shared<Buf>();
            x.buf->tag = t;
            x.size = size;
            bufs.push_back(x.buf);
            watch.push_back({x.buf, cnt});
        }
    }
    void check()
    {
        for (size_t i = 0; i < s.size(); ++i) {
            Slot& x = s[i];
            if (x.sent) continue;
            MC_CHECK(x.msg->GetSize() == x.size, "%s: message %zu has size %zu, expected %zu", ops.c_str(), i, x.msg->GetSize(), x.size);
            if (x.size) {
                void* p = x.msg->GetData();
                MC_CHECK(p, "%s: message %zu has no data", ops.c_str(), i);
                MC_CHECK(holds(p, x.size, x.buf->tag), "%s: content of message %zu is not what was written", ops.c_str(), i);
                // another device maps the segment elsewhere: alignments up to the page size are kept
                size_t al = w.shm && x.buf->dev != owner[i] ? std::min<size_t>(x.buf->align, 4096) : x.buf->align;
                if (al) MC_CHECK(reinterpret_cast<uintptr_t>(p) % al == 0, "%s: message %zu lost its alignment", ops.c_str(), i);
            }
        }
#if C14
        for (int g = 0; g < w.nview; ++g)
            MC_CHECK(used(g) == expected(g), "%s: %ld bytes of segment %d are in use, the live messages account for %ld", ops.c_str(), used(g), g, expected(g));
        for (auto& x : watch)
            MC_CHECK(*x.second == (x.first.expired() ? 1 : 0), "%s: a user buffer with %s references was released %d times", ops.c_str(), x.first.expired() ? "no" : "some", *x.second);
#endif
    }
    void op_new(size_t i, size_t size, size_t align)
    {
        s[i].msg.reset();
        drop(s[i]);
        s[i].want_align = align;
        s[i].msg = align ? fac(i).CreateMessage(size, Alignment{align}) : fac(i).CreateMessage(size);
        made(i, size, align);
    }
    void op_empty(size_t i, size_t align)
    {
        s[i].msg.reset();
        drop(s[i]);
        s[i].want_align = align;
        s[i].msg = align ? fac(i).CreateMessage(Alignment{align}) : fac(i).CreateMessage();
    }
    void op_rebuild(size_t i, size_t size, size_t align)
    {
        drop(s[i]);
        s[i].want_align = align;
        if (align) s[i].msg->Rebuild(size, Alignment{align}); else s[i].msg->Rebuild(size);
        made(i, size, align);
    }
    void op_clear(size_t i, size_t align)
    {
        drop(s[i]);
        s[i].want_align = align;
        if (align) s[i].msg->Rebuild(Alignment{align}); else s[i].msg->Rebuild();
    }
    void op_user(size_t i, size_t size, bool rebuild)
    {
        int t = ++tag;
        auto [d, c] = user(size, t);
        s[i].want_align = 0;
        if (rebuild) { drop(s[i]); s[i].msg->Rebuild(d, size, release, c); }
        else { s[i].msg.reset(); drop(s[i]); s[i].msg = fac(i).CreateMessage(d, size, release, c); }
        given(i, size, t, c);
    }
    void op_resize(size_t i, size_t n)
    {
        Slot& x = s[i];
        if (x.sent) throw Skip();
        size_t old = x.size;
        bool shared = x.buf && x.buf.use_count() > 1;
        bool ok = x.msg->SetUsedSize(n);
        if (n > old) { MC_CHECK(!ok, "%s: growing from %zu to %zu succeeded", ops.c_str(), old, n); return; }
        MC_CHECK(ok, "%s: shrinking from %zu to %zu failed", ops.c_str(), old, n);
        if (n == 0 && w.shm) { drop(x); return; }
        x.size = n;
        if (n != old && w.nview && x.buf && !shared) x.buf->cost += used(x.buf->seg) - expected(x.buf->seg);   // may give memory back
        if (w.nview && x.buf) MC_CHECK(x.buf->cost > 0, "%s: resized buffer gave back everything", ops.c_str());
    }
    void op_copy(size_t i, size_t j)
    {
        if (i == j || s[j].sent || owner[i] != owner[j]) throw Skip();
        s[i].msg->Copy(*s[j].msg);
        drop(s[i]);
        s[i].buf = s[j].buf;
        s[i].size = s[j].size;
        if (!w.shm) s[i].buf = s[j].buf;
    }
    void handed(size_t i)
    {
        int to = 1 - owner[i];
        q[to].push_back({s[i].buf, s[i].size});
        Slot& x = s[i];
        x.buf.reset();
        x.sent = true;
    }
    void op_send(size_t i)
    {
        if (s[i].sent) throw Skip();
        int d = owner[i];
        size_t n = s[i].size;
        int64_t r = w.sock[d]->Send(s[i].msg, 0);
        MC_CHECK(r == int64_t(n), "%s: sending %zu bytes returned %ld", ops.c_str(), n, long(r));
        MC_CHECK(s[i].msg, "%s: Send took the message object away", ops.c_str());
        handed(i);
        qn[1 - d].push_back(1);
        ++txm[d];
        txb[d] += n;
    }
    void op_fail(size_t i, int e)
    {
        if (s[i].sent) throw Skip();
        fakezmq::fault = [e](fakezmq::Op o, void*) { return o == fakezmq::SEND ? e : 0; };
        int64_t r = w.sock[owner[i]]->Send(s[i].msg, 0);
        fakezmq::fault = nullptr;
        MC_CHECK(r < 0, "%s: a send that failed with %d returned %ld", ops.c_str(), e, long(r));
    }
    void op_failrecv(size_t i)
    {
        fakezmq::fault = [](fakezmq::Op o, void*) { return o == fakezmq::RECV ? ETERM : 0; };
        int64_t r = w.sock[owner[i]]->Receive(s[i].msg, 0);
        fakezmq::fault = nullptr;
        MC_CHECK(r < 0, "%s: a receive that failed returned %ld", ops.c_str(), long(r));
    }
    void op_recv(size_t i)
    {
        int d = owner[i];
        if (!qn[d].empty() && qn[d][0] != 1) throw Skip();
        int64_t r = w.sock[d]->Receive(s[i].msg, 0);
        if (qn[d].empty()) { MC_CHECK(r == int64_t(TransferCode::timeout), "%s: receive with nothing queued returned %ld", ops.c_str(), long(r)); return; }
        Part p = q[d][0];
        MC_CHECK(r == int64_t(p.size), "%s: receiving %zu bytes returned %ld", ops.c_str(), p.size, long(r));
        q[d].erase(q[d].begin());
        qn[d].erase(qn[d].begin());
        drop(s[i]);
        s[i].buf = p.buf;
        s[i].size = p.size;
        aligned(i);
        ++rxm[d];
        rxb[d] += p.size;
    }
    void aligned(size_t i)      // zmq: the buffer received is aligned as the message was asked to
    {
        Slot& x = s[i];
        if (w.shm || !x.want_align || !x.size) return;
        void* p = x.msg->GetData();
        MC_CHECK(reinterpret_cast<uintptr_t>(p) % x.want_align == 0, "%s: received into a message with alignment %zu, data at %p", ops.c_str(), x.want_align, p);
        // the content may have been moved to a new buffer: the old one is then released
        BufP nb = std::make_shared<Buf>(*x.buf);
        if (reinterpret_cast<uintptr_t>(p) % 4096 || true) {
            bool moved = false;
            for (auto& y : watch) if (!y.first.expired() && y.first.lock() == x.buf && *y.second) moved = true;
            if (moved || x.buf.use_count() == 1) { nb->align = 0; x.buf = nb; bufs.push_back(nb); if (!moved) for (auto& y : watch) if (y.first.expired() && !*y.second) y.first = nb; }
        }
    }
    void op_sendparts(size_t i, size_t j)
    {
        if (s[i].sent || s[j].sent || owner[i] != owner[j]) throw Skip();
        int d = owner[i];
        Parts::container v;
        v.push_back(std::move(s[i].msg));
        if (i != j) v.push_back(std::move(s[j].msg));
        size_t n = s[i].size + (i != j ? s[j].size : 0);
        int64_t r = w.sock[d]->Send(v, 0);
        MC_CHECK(r == int64_t(n), "%s: sending parts of %zu bytes returned %ld", ops.c_str(), n, long(r));
        s[i].msg = std::move(v[0]);
        handed(i);
        if (i != j) { s[j].msg = std::move(v[1]); handed(j); }
        qn[1 - d].push_back(i != j ? 2 : 1);
        ++txm[d];
        txb[d] += n;
    }
    void op_recvparts(size_t i)        // parts replace the message objects of this device's slots, first ones first
    {
        int d = owner[i];
        Parts::container v;
        // shmem single and multi-part messages have different formats: a single one is received as such
        if (!qn[d].empty() && qn[d][0] == 1) throw Skip();
        int64_t r = w.sock[d]->Receive(v, 0);
        if (qn[d].empty()) { MC_CHECK(r == int64_t(TransferCode::timeout) && v.empty(), "%s: receive with nothing queued returned %ld", ops.c_str(), long(r)); return; }
        size_t k = qn[d][0], n = 0;
        MC_CHECK(v.size() == k, "%s: %zu parts received, %zu sent", ops.c_str(), v.size(), k);
        for (size_t m = 0; m < k; ++m) {
            Part p = q[d][0];
            q[d].erase(q[d].begin());
            n += p.size;
            size_t t = i;
            if (m == 1) { t = (i + 1) % s.size(); while (owner[t] != d) t = (t + 1) % s.size(); }
            MC_CHECK(v[m] && v[m]->GetSize() == p.size && (!p.size || holds(v[m]->GetData(), p.size, p.buf->tag)), "%s: part %zu differs from the one sent", ops.c_str(), m);
            s[t].msg = std::move(v[m]);
            drop(s[t]);
            s[t].buf = p.buf;
            s[t].size = p.size;
            s[t].want_align = 0;
        }
        MC_CHECK(r == int64_t(n), "%s: receiving parts of %zu bytes returned %ld", ops.c_str(), n, long(r));
        qn[d].erase(qn[d].begin());
        ++rxm[d];
        rxb[d] += n;
    }
    void op_toobig(size_t i, bool rebuild)
    {
        if (!w.shm) throw Skip();
        bool thrown = false;
        MessagePtr half = fac(i).CreateMessage(kMsgSeg / 3 * 2);
        try {
            if (rebuild) { drop(s[i]); s[i].want_align = 0; s[i].msg->Rebuild(kMsgSeg / 3 * 2); }
            else fac(i).CreateMessage(kMsgSeg + 1);
        } catch (MessageBadAlloc&) { thrown = true; }
        MC_CHECK(thrown, "%s: a message larger than the segment was created", ops.c_str());
    }
    void finish()
    {
        ops += " end";
        for (int d = 0; d < 2; ++d) {
            while (!qn[d].empty()) {
                size_t i = 0;
                while (owner[i] != d) ++i;
                if (qn[d][0] == 1) op_recv(i); else op_recvparts(i);
                check();
            }
            MC_CHECK(w.sock[d]->GetMessagesTx() == txm[d] && w.sock[d]->GetMessagesRx() == rxm[d] && w.sock[d]->GetBytesTx() == txb[d] && w.sock[d]->GetBytesRx() == rxb[d], "%s: transfer counters are wrong", ops.c_str());
        }
        for (size_t i = 0; i < s.size(); ++i) { s[i].msg.reset(); drop(s[i]); }
        for (int g = 0; g < w.nview; ++g) {
            MC_CHECK(used(g) == 0, "%s: %ld bytes of segment %d are still in use after all messages are gone", ops.c_str(), used(g), g);
            MC_CHECK(w.view[g].sane(), "%s: segment %d is corrupted", ops.c_str(), g);
        }
        for (auto& c : counters) MC_CHECK(*c == 1, "%s: a user buffer was released %d times", ops.c_str(), *c);
        mc::trace_validated();
    }
};

struct Op { const char* n; std::function<void(Run&, size_t)> f; };
std::vector<Op> wide()
{
    return {
        {"new(0)", [](Run& r, size_t i) { r.op_new(i, 0, 0); }},
        {"new(40)", [](Run& r, size_t i) { r.op_new(i, 40, 0); }},
        {"new(100,64)", [](Run& r, size_t i) { r.op_new(i, 100, 64); }},
        {"new(9,4096)", [](Run& r, size_t i) { r.op_new(i, 9, 4096); }},
        {"empty()", [](Run& r, size_t i) { r.op_empty(i, 0); }},
        {"empty(64)", [](Run& r, size_t i) { r.op_empty(i, 64); }},
        {"user(0)", [](Run& r, size_t i) { r.op_user(i, 0, false); }},
        {"user(48)", [](Run& r, size_t i) { r.op_user(i, 48, false); }},
        {"Rebuild()", [](Run& r, size_t i) { r.op_clear(i, 0); }},
        {"Rebuild(align 128)", [](Run& r, size_t i) { r.op_clear(i, 128); }},
        {"Rebuild(0)", [](Run& r, size_t i) { r.op_rebuild(i, 0, 0); }},
        {"Rebuild(70)", [](Run& r, size_t i) { r.op_rebuild(i, 70, 0); }},
        {"Rebuild(33,256)", [](Run& r, size_t i) { r.op_rebuild(i, 33, 256); }},
        {"Rebuild(user 24)", [](Run& r, size_t i) { r.op_user(i, 24, true); }},
        {"Rebuild(user 0)", [](Run& r, size_t i) { r.op_user(i, 0, true); }},
        {"Rebuild(too big)", [](Run& r, size_t i) { r.op_toobig(i, true); }},
        {"new(too big)", [](Run& r, size_t i) { r.op_toobig(i, false); }},
        {"SetUsedSize(0)", [](Run& r, size_t i) { r.op_resize(i, 0); }},
        {"SetUsedSize(half)", [](Run& r, size_t i) { r.op_resize(i, r.s[i].size / 2); }},
        {"SetUsedSize(-1)", [](Run& r, size_t i) { r.op_resize(i, r.s[i].size ? r.s[i].size - 1 : 0); }},
        {"SetUsedSize(same)", [](Run& r, size_t i) { r.op_resize(i, r.s[i].size); }},
        {"SetUsedSize(+1)", [](Run& r, size_t i) { r.op_resize(i, r.s[i].size + 1); }},
        {"Copy(other)", [](Run& r, size_t i) { size_t j = i; for (size_t k = 0; k < r.s.size(); ++k) if (k != i && r.owner[k] == r.owner[i]) j = k; r.op_copy(i, j); }},
        {"Send", [](Run& r, size_t i) { r.op_send(i); }},
        {"Send EAGAIN", [](Run& r, size_t i) { r.op_fail(i, EAGAIN); }},
        {"Send ETERM", [](Run& r, size_t i) { r.op_fail(i, ETERM); }},
        {"Receive", [](Run& r, size_t i) { r.op_recv(i); }},
        {"Receive ETERM", [](Run& r, size_t i) { r.op_failrecv(i); }},
        {"SendParts", [](Run& r, size_t i) { size_t j = i; for (size_t k = 0; k < r.s.size(); ++k) if (k != i && r.owner[k] == r.owner[i]) j = k; if (j == i) throw Skip(); r.op_sendparts(i, j); }},
        {"ReceiveParts", [](Run& r, size_t i) { r.op_recvparts(i); }},
    };
}
std::vector<Op> pick(std::vector<std::string> names)
{
    std::vector<Op> r;
    for (auto& n : names) {
        bool found = false;
        for (auto& o : wide()) if (n == o.n) { r.push_back(o); found = true; }
        if (!found) mc::fail("no operation %s", n.c_str());
    }
    return r;
}
void drive(int cfg, const std::vector<int>& owners, const std::vector<Op>& alphabet, int depth, int first = 0)
{
    Run r(world(cfg), owners);
    for (int step = 0; step < depth; ++step) {
        int op = mc::choose(step == 0 && first ? first : int(alphabet.size()), "op");
        int i = (step == 0 && owners.size() == 2 && owners[0] == owners[1]) ? 0 : mc::choose(int(owners.size()), "message");
        mc::transition();
        r.ops += std::string(step ? "; " : "") + "m" + std::to_string(i) + "." + alphabet[op].n;
        try { alphabet[op].f(r, size_t(i)); } catch (Skip&) { break; }
        r.check();
    }
    r.finish();
    uint64_t h = cfg;
    for (auto& x : r.s) h = h * 31 + x.size;
    mc::outcome(std::to_string(r.txb[0]) + "," + std::to_string(r.rxb[1]));
}
int D(int quick, int thorough) { return (mc::thorough() ? thorough : quick) - SHORTER; }

// all pairs (size, alignment), both transports, creation, rebuild, copy, receive
void alignments()
{
    static const size_t sizes[] = {1, 2, 15, 16, 17, 64, 4095, 4096, 5000};
    int cfg = mc::choose(4, "config");
    int lg = mc::choose(16, "alignment");
    size_t size = sizes[mc::choose(9, "size")];
    int how = mc::choose(4, "how");
    World& w = world(cfg);
    Run r(w, {0, 0, 1});
    size_t al = size_t(1) << lg;
    r.ops = "config " + std::to_string(cfg) + " size " + std::to_string(size) + " alignment " + std::to_string(al) + " how " + std::to_string(how);
    mc::transition();
    if (how == 1) r.op_new(1, 24, 0);
    if (how <= 1) r.op_new(0, size, al);
    else { r.op_user(0, 40, false); r.op_rebuild(0, size, al); }
    r.check();
    if (how == 3) {
        r.op_copy(1, 0);
        r.check();
        r.op_resize(0, size / 2);
        r.check();
    }
    r.op_empty(2, al);
    for (int k = 0; k < 4; ++k) {
        if (k) r.op_new(0, size, 0);
        r.op_send(0);
        r.check();
        r.op_recv(2);
        r.check();
    }
    r.finish();
}
// shrinking big buffers: the rest of the buffer is given back
void shrink_big()
{
    static std::map<int, std::shared_ptr<TransportFactory>> fs;
    static std::map<int, SegView> views;
    int alg = mc::choose(2, "allocator");
    auto& f = fs[alg];
    std::string session = "shrink" + std::to_string(alg);
    if (!f) {
        f = std::make_shared<fair::mq::shmem::TransportFactory>("S", options(session, 8 << 20, 0, alg ? "simple_seq_fit" : "rbtree_best_fit"));
        views[alg].open(session, 0, !alg);
    }
    size_t base = views[alg].free();
    static const size_t al[] = {0, 8, 64, 4096, 32768};
    static const size_t sz[] = {2000000, 1000001, 3000};
    size_t a = al[mc::choose(5, "alignment")], n = sz[mc::choose(3, "size")];
    bool copied = mc::flag("copied");
    size_t to[2];
    static const size_t targets[] = {1, 24, 1000, 999999, 1000000, 1500000};
    for (auto& t : to) t = targets[mc::choose(6, "target")];
    std::vector<MessagePtr> pad;
    if (mc::flag("neighbour")) pad.push_back(f->CreateMessage(100));
    auto m = f->CreateMessage(n, Alignment{a});
    if (mc::flag("follower")) pad.push_back(f->CreateMessage(100));
    fill(m->GetData(), n, 5);
    MessagePtr c;
    if (copied) { c = f->CreateMessage(); c->Copy(*m); }
    size_t cur = n;
    for (auto t : to) {
        bool ok = m->SetUsedSize(t);
        mc::transition();
        MC_CHECK(ok == (t <= cur), "SetUsedSize(%zu) of %zu returned %d", t, cur, ok);
        if (ok) cur = t;
        MC_CHECK(m->GetSize() == cur && holds(m->GetData(), cur, 5), "after SetUsedSize(%zu): size %zu or content wrong", t, m->GetSize());
        if (a) MC_CHECK(reinterpret_cast<uintptr_t>(m->GetData()) % a == 0 || cur != n, "alignment lost without moving the data");
        if (c) MC_CHECK(c->GetSize() == n && holds(c->GetData(), n, 5), "the copy of a shrunk message changed");
    }
    m.reset();
    if (c) MC_CHECK(holds(c->GetData(), n, 5), "the copy of a destroyed message changed");
    c.reset();
    pad.clear();
    MC_CHECK(views[alg].free() == base && views[alg].sane(), "%ld bytes lost", long(base) - long(views[alg].free()));
}
}   // namespace

int main(int argc, char** argv)
{
    mc::Opts o;
    o.in_main = true;
    o.fork_each = false;
    o.preemptions = 0;
    o.sched_atomics = false;
    std::vector<mc::Scenario> v;
    v.push_back({"alignments", "every power-of-two alignment x size x way of obtaining the buffer, both transports", alignments, o});
    if (!SHORTER) v.push_back({"shrink_big", "shrinking large messages, with and without copies and neighbours, both allocators", shrink_big, o});
    static const char* cn[] = {"zmq", "shm", "shm two segments", "shm simple_seq_fit"};
    static const char* tag[] = {"zmq", "shm", "shm2", "shmseq"};
    for (int cfg = 0; cfg < 4; ++cfg) {
        mc::Opts p = o;
        p.weight = 1;
        v.push_back({std::string("wide_") + tag[cfg], std::string("all operation sequences, full alphabet, three messages on two devices, ") + cn[cfg], [cfg] { drive(cfg, {0, 0, 1}, wide(), D(3, 4)); }, p});
    }
    for (int cfg : {0, 1, 2}) {
        mc::Opts p = o;
        p.weight = 3;
        v.push_back({std::string("deep_") + tag[cfg], std::string("longer operation sequences, core alphabet, two messages of one device and one of another, ") + cn[cfg], [cfg] {
            static auto a = pick({"new(40)", "user(48)", "Rebuild(70)", "SetUsedSize(half)", "Copy(other)", "Send", "Receive", "Rebuild()"});
            drive(cfg, {0, 0, 1}, a, D(5, 6), 2); }, p});
    }
    return mc::run(argc, argv, v);
}
