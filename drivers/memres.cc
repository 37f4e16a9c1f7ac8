// C26: every sequence of container and memory-resource operations up to a depth, on the real
// ChannelResource / getMessage over the real transports, against a model of who owns what.
#include "transport.h"
#include <fairmq/MemoryResourceTools.h>
#include <optional>
#include <string>
#include <vector>
using namespace tr;
#ifndef SHORTER
#define SHORTER 0
#endif

namespace {
constexpr size_t kMemSeg = 1 << 18;
struct Skip {};
struct World
{
    std::shared_ptr<TransportFactory> f[2];    // zmq, shmem
    SegView view;
    size_t base = 0;
};
World& world()
{
    static auto* w = new World;
    if (w->f[0]) return *w;
    w->f[0] = std::make_shared<fair::mq::zmq::TransportFactory>("A");
    auto* o = options("memres", kMemSeg);
    o->values["bad-alloc-max-attempts"] = 1;
    o->values["bad-alloc-attempt-interval"] = 1;
    w->f[1] = std::make_shared<fair::mq::shmem::TransportFactory>("B", o);
    w->view.open("memres", 0, true);
    w->base = w->view.free();
    return *w;
}
struct alignas(64) Wide { uint32_t v[16]; };
inline uint32_t val(uint32_t x) { return x; }
inline uint32_t val(char x) { return uint32_t((unsigned char)x); }
inline uint32_t val(const Wide& x) { return x.v[0]; }
template<class T> T mk(uint32_t v)
{
    if constexpr (std::is_same_v<T, Wide>) { Wide w; for (auto& e : w.v) e = v; return w; }
    else return T(v);
}

// a resource of the user's that happens to wrap a channel resource: other type, other identity
struct Heap : pmr::memory_resource
{
    long live = 0;
    void* do_allocate(size_t n, size_t a) override { ++live; return ::operator new(n, std::align_val_t(std::max<size_t>(a, 16))); }
    void do_deallocate(void* p, size_t, size_t a) override { --live; ::operator delete(p, std::align_val_t(std::max<size_t>(a, 16))); }
    bool do_is_equal(const pmr::memory_resource& o) const noexcept override { return this == &o; }
};

template<class C>
struct Run
{
    using T = typename C::value_type;
    struct Box { std::optional<C> c; int res = 2; std::vector<uint32_t> m; };
    struct Raw { void* p; size_t n, al; int res; int tag; };
    struct Msg { MessagePtr m; int res; std::vector<uint32_t> want; size_t cap = 0; void* at; };
    World& w = world();
    Heap heap;
    ChannelResource* r[2];
    Box b[2];
    std::vector<Raw> raws;
    std::vector<Msg> msgs;
    std::vector<MessagePtr> hog;
    std::string ops;
    uint32_t next = 1;

    Run() { for (int i = 0; i < 2; ++i) r[i] = w.f[i]->GetMemoryResource(); }
    pmr::memory_resource* res(int i) { return i == 2 ? static_cast<pmr::memory_resource*>(&heap) : r[i]; }
    static bool external(const C& c)
    {
        auto* p = reinterpret_cast<const char*>(c.data());
        auto* o = reinterpret_cast<const char*>(&c);
        return c.capacity() > 0 && p && !(p >= o && p < o + sizeof(C));
    }
    bool full() const { return !hog.empty(); }
    static bool bad(std::exception& e) { return dynamic_cast<MessageBadAlloc*>(&e) || dynamic_cast<std::bad_alloc*>(&e); }
    // runs f; an allocation may fail only while the segment is full, and then changes nothing
    template<class F> bool attempt(bool in_shm, F f)
    {
        try { f(); return true; }
        catch (std::exception& e) { MC_CHECK(bad(e), "%s: exception %s", ops.c_str(), e.what()); MC_CHECK(in_shm && full(), "%s: allocation failed though memory is available", ops.c_str()); }
        return false;
    }
    void make(size_t i, int re) { b[i].c.reset(); b[i].c.emplace(typename C::allocator_type(res(re))); b[i].res = re; b[i].m.clear(); }
    Box& have(size_t i) { if (!b[i].c) throw Skip(); return b[i]; }
    void push(size_t i, int n)
    {
        Box& x = have(i);
        for (int k = 0; k < n; ++k) {
            uint32_t v = val(mk<T>(next++ & 0x7f));
            if (!attempt(x.res == 1, [&] { x.c->push_back(mk<T>(v)); })) break;
            x.m.push_back(v);
        }
    }
    void reserve(size_t i, size_t n) { Box& x = have(i); attempt(x.res == 1, [&] { x.c->reserve(n); }); }
    void shrink(size_t i) { Box& x = have(i); attempt(x.res == 1, [&] { x.c->shrink_to_fit(); }); }
    void clear(size_t i) { Box& x = have(i); x.c->clear(); x.m.clear(); }
    void destroy(size_t i) { have(i); b[i].c.reset(); b[i].m.clear(); }
    void moveinto(size_t i)        // construct the other one from this one
    {
        Box& x = have(i); Box& y = b[1 - i];
        y.c.reset();
        y.c.emplace(std::move(*x.c));
        y.res = x.res;
        y.m = std::move(x.m); x.m.clear();
        x.c->clear();
    }
    void moveassign(size_t i)      // keeps the target's resource: copies between resources
    {
        Box& x = have(i); Box& y = have(1 - i);
        if (attempt(y.res == 1, [&] { *y.c = std::move(*x.c); })) { y.m = x.m; } else { y.m.clear(); y.c->clear(); }
        x.c->clear(); x.m.clear();
    }
    void message(size_t i, int target)      // target 2: none given
    {
        Box& x = have(i);
        bool own = target == 2 || target == x.res;
        if (x.res == 2 && target == 2) {
            bool threw = false;
            try { getMessage(std::move(*x.c)); } catch (std::runtime_error&) { threw = true; }
            MC_CHECK(threw, "%s: a message from a foreign container without a target", ops.c_str());
            b[i].c.reset(); b[i].m.clear();
            return;
        }
        bool ext = external(*x.c);
        void* p = x.c->data();
        size_t cap = (x.c->capacity() + 1) * sizeof(T);
        size_t before[2] = {r[0]->getNumberOfMessages(), r[1]->getNumberOfMessages()};
        int tr = own ? x.res : target;
        MessagePtr m;
        MemoryResource* t = target == 2 ? nullptr : r[target];
        bool ok = attempt(tr == 1 && !(own && ext), [&] { m = getMessage(std::move(*x.c), t); });
        MC_CHECK(!ok || m, "%s: no message", ops.c_str());
        if (ok) {
            MC_CHECK(m->GetType() == w.f[tr]->GetType(), "%s: message of the wrong transport", ops.c_str());
            MC_CHECK(m->GetSize() == x.m.size() * sizeof(T), "%s: message of %zu bytes from %zu bytes of data", ops.c_str(), m->GetSize(), x.m.size() * sizeof(T));
            if (own && ext && !x.m.empty()) MC_CHECK(m->GetData() == p, "%s: the container's data moved", ops.c_str());
            for (int k = 0; k < 2; ++k) MC_CHECK(r[k]->getNumberOfMessages() + (ext && x.res == k) == before[k], "%s: %zu outstanding allocations after, %zu before", ops.c_str(), r[k]->getNumberOfMessages(), before[k]);
            void* at = m->GetData();
            msgs.push_back({std::move(m), tr, x.m, own ? cap : 0, at});
        }
        x.m.clear();
        if (x.c->size() || external(*x.c)) MC_CHECK(false, "%s: the container still has storage after it was turned into a message", ops.c_str());
    }
    void dropmsg() { if (msgs.empty()) throw Skip(); msgs.erase(msgs.begin()); }
    void adopt(int how)            // hand the last message to the resource and get it back
    {
        if (msgs.empty() || !msgs.back().m->GetSize()) throw Skip();
        Msg x = std::move(msgs.back());
        msgs.pop_back();
        void* at = x.m->GetData();
        size_t n = r[x.res]->getNumberOfMessages(), size = x.m->GetSize();
        Message* raw = x.m.get();
        void* p = r[x.res]->setMessage(std::move(x.m));
        MC_CHECK(p == at, "%s: adopted message has another address", ops.c_str());
        MC_CHECK(r[x.res]->getNumberOfMessages() == n + 1, "%s: adopted message not counted", ops.c_str());
        if (how == 0) {
            x.m = r[x.res]->getMessage(p);
            MC_CHECK(x.m.get() == raw, "%s: another message came back", ops.c_str());
            msgs.push_back(std::move(x));
        } else {
            r[x.res]->deallocate(p, size, alignof(T));
        }
        MC_CHECK(r[x.res]->getNumberOfMessages() == n, "%s: the message left something behind", ops.c_str());
        MC_CHECK(!r[x.res]->getMessage(p) && r[x.res]->getNumberOfMessages() == n, "%s: a message for an address that has none", ops.c_str());
    }
    void alloc(int re, size_t n, size_t al)
    {
        if (raws.size() > 2) throw Skip();
        void* p = nullptr;
        if (!attempt(re == 1, [&] { p = r[re]->allocate(n, al); })) return;
        MC_CHECK(n == 0 || p, "%s: no memory but no exception", ops.c_str());
        MC_CHECK(reinterpret_cast<uintptr_t>(p) % al == 0, "%s: %p is not aligned to %zu", ops.c_str(), p, al);
        int tag = int(next++);
        fill(p, n, tag);
        raws.push_back({p, n, al, re, tag});
    }
    void dealloc()
    {
        if (raws.empty()) throw Skip();
        auto x = raws.front();
        raws.erase(raws.begin());
        r[x.res]->deallocate(x.p, x.n, x.al);
    }
    void take()                    // a raw allocation becomes a message
    {
        if (raws.empty() || !raws.back().n) throw Skip();
        auto x = raws.back();
        raws.pop_back();
        auto m = r[x.res]->getMessage(x.p);
        MC_CHECK(m && m->GetData() == x.p && m->GetSize() == x.n && holds(x.p, x.n, x.tag), "%s: the message of an allocation differs from it", ops.c_str());
    }
    void hogs()
    {
        if (full()) { hog.clear(); return; }
        for (size_t n = kMemSeg; n >= 8; n /= 2) for (;;) { try { hog.push_back(w.f[1]->CreateMessage(n)); } catch (MessageBadAlloc&) { break; } }
    }
    void check()
    {
        size_t n[2] = {0, 0};
        size_t lo = 0, hi = 0;
        for (auto& x : b) {
            if (!x.c) continue;
            MC_CHECK(x.c->size() == x.m.size(), "%s: container of %zu instead of %zu", ops.c_str(), x.c->size(), x.m.size());
            for (size_t k = 0; k < x.m.size(); ++k) MC_CHECK(val((*x.c)[k]) == x.m[k], "%s: element %zu of a container changed", ops.c_str(), k);
            if (!external(*x.c)) continue;
            MC_CHECK(reinterpret_cast<uintptr_t>(x.c->data()) % alignof(T) == 0, "%s: container data not aligned", ops.c_str());
            if (x.res < 2) ++n[x.res];
            if (x.res == 1) { lo += x.c->capacity() * sizeof(T); hi += x.c->capacity() * sizeof(T) + 400; }
        }
        for (auto& x : raws) {
            ++n[x.res];
            MC_CHECK(holds(x.p, x.n, x.tag), "%s: an allocated block changed", ops.c_str());
            if (x.res == 1) { lo += x.n; hi += x.n + x.al * 2 + 300; }
        }
        for (auto& x : msgs) {
            MC_CHECK(x.m->GetSize() == x.want.size() * sizeof(T) && x.m->GetData() == x.at, "%s: a message changed", ops.c_str());
            auto* d = static_cast<T*>(x.m->GetData());
            for (size_t k = 0; k < x.want.size(); ++k) MC_CHECK(val(d[k]) == x.want[k], "%s: byte %zu of a message changed", ops.c_str(), k);
            if (x.res == 1) { lo += x.want.size() * sizeof(T); hi += std::max(x.cap, x.want.size() * sizeof(T)) + 400; }
        }
        for (int k = 0; k < 2; ++k) MC_CHECK(r[k]->getNumberOfMessages() == n[k], "%s: the %s resource counts %zu allocations, %zu are outstanding", ops.c_str(), k ? "shmem" : "zmq", r[k]->getNumberOfMessages(), n[k]);
        if (!full()) {
            size_t used = w.base - w.view.free();
            MC_CHECK(used >= lo && used <= hi, "%s: %zu bytes of the segment used, expected %zu to %zu", ops.c_str(), used, lo, hi);
        }
    }
    void finish()
    {
        for (auto& x : b) x.c.reset();
        while (!raws.empty()) dealloc();
        msgs.clear();
        hog.clear();
        for (int k = 0; k < 2; ++k) MC_CHECK(r[k]->getNumberOfMessages() == 0, "%s: %zu allocations left", ops.c_str(), r[k]->getNumberOfMessages());
        MC_CHECK(heap.live == 0, "%s: %ld allocations of the other resource left", ops.c_str(), heap.live);
        MC_CHECK(w.view.free() == w.base && w.view.sane(), "%s: %ld bytes of the segment lost", ops.c_str(), long(w.base) - long(w.view.free()));
    }
};
template<class C> struct Op { const char* n; int slots; std::function<void(Run<C>&, size_t)> f; };
template<class C> std::vector<Op<C>> ops()
{
    using R = Run<C>;
    return {
        {"make(zmq)", 2, [](R& r, size_t i) { r.make(i, 0); }},
        {"make(shm)", 2, [](R& r, size_t i) { r.make(i, 1); }},
        {"make(heap)", 2, [](R& r, size_t i) { r.make(i, 2); }},
        {"alloc(shm,24)", 1, [](R& r, size_t) { r.alloc(1, 24, 8); }},
        {"alloc(zmq,24)", 1, [](R& r, size_t) { r.alloc(0, 24, 8); }},
        {"alloc(shm,100,64)", 1, [](R& r, size_t) { r.alloc(1, 100, 64); }},
        {"alloc(zmq,100,64)", 1, [](R& r, size_t) { r.alloc(0, 100, 64); }},
        {"hog", 1, [](R& r, size_t) { r.hogs(); }},
        {"push(1)", 2, [](R& r, size_t i) { r.push(i, 1); }},
        {"push(20)", 2, [](R& r, size_t i) { r.push(i, 20); }},
        {"reserve(30)", 2, [](R& r, size_t i) { r.reserve(i, 30); }},
        {"shrink", 2, [](R& r, size_t i) { r.shrink(i); }},
        {"clear", 2, [](R& r, size_t i) { r.clear(i); }},
        {"destroy", 2, [](R& r, size_t i) { r.destroy(i); }},
        {"move", 2, [](R& r, size_t i) { r.moveinto(i); }},
        {"assign", 2, [](R& r, size_t i) { r.moveassign(i); }},
        {"message", 2, [](R& r, size_t i) { r.message(i, 2); }},
        {"message(zmq)", 2, [](R& r, size_t i) { r.message(i, 0); }},
        {"message(shm)", 2, [](R& r, size_t i) { r.message(i, 1); }},
        {"drop", 1, [](R& r, size_t) { r.dropmsg(); }},
        {"adopt", 1, [](R& r, size_t) { r.adopt(0); }},
        {"adopt+deallocate", 1, [](R& r, size_t) { r.adopt(1); }},
        {"deallocate", 1, [](R& r, size_t) { r.dealloc(); }},
        {"take", 1, [](R& r, size_t) { r.take(); }},
    };
}
// the first steps put containers with some content into the slots
template<class C> void drive(int depth, bool core)
{
    Run<C> r;
    static const auto a = ops<C>();
    static const std::vector<int> few = {7, 8, 9, 13, 14, 15, 16, 17, 18, 19, 20, 21};
    int r0 = mc::choose(3, "resource 0"), r1 = core ? mc::choose(3, "resource 1") : 3;
    int n0 = mc::choose(3, "content 0");
    r.ops = "start";
    r.make(0, r0);
    if (n0 == 1) r.push(0, 5); else if (n0 == 2) r.reserve(0, 40);
    r.ops += " m0:" + std::to_string(r0) + "/" + std::to_string(n0);
    if (r1 < 3) { r.make(1, r1); r.push(1, 3); r.ops += " m1:" + std::to_string(r1); }
    for (int step = 0; step < depth; ++step) {
        int k = core ? few[mc::choose(int(few.size()), "op")] : mc::choose(int(a.size()), "op");
        int i = a[k].slots == 2 ? mc::choose(2, "slot") : 0;
        mc::transition();
        r.ops += "; " + std::string(a[k].n) + (a[k].slots == 2 ? std::to_string(i) : "");
        try { a[k].f(r, size_t(i)); } catch (Skip&) { break; }
        r.check();
    }
    mc::outcome(std::to_string(r.msgs.size()) + "," + std::to_string(r.raws.size()));
    r.finish();
}
// allocations of nothing: distinct, counted, releasable
void nothing()
{
    Run<std::pmr::vector<uint32_t>> r;
    int re = mc::choose(2, "transport");
    int n = 1 + mc::choose(3, "how many");
    int withvec = mc::choose(2, "with an empty container");
    if (withvec) r.make(0, re);
    for (int i = 0; i < n; ++i) { r.ops += " alloc(0)"; r.alloc(re, 0, size_t(1) << mc::choose(4, "alignment")); mc::transition(); r.check(); }
    for (auto& x : r.raws) for (auto& y : r.raws) if (&x != &y) MC_CHECK(x.p != y.p, "two outstanding allocations at the same address %p", x.p);
    if (withvec) { r.ops += " message"; r.message(0, 2); r.check(); }
    while (!r.raws.empty()) { r.dealloc(); mc::transition(); r.check(); }
    r.finish();
}
// the resource refuses to exist without a transport
void null()
{
    bool threw = false;
    try { ChannelResource c(nullptr); } catch (std::runtime_error&) { threw = true; }
    MC_CHECK(threw, "a resource without a transport");
}
int D(int quick, int thorough) { return (mc::thorough() ? thorough : quick) - SHORTER; }
}   // namespace

int main(int argc, char** argv)
{
    mc::Opts o;
    o.in_main = true;
    o.fork_each = false;
    o.preemptions = 0;
    o.sched_atomics = false;
    std::vector<mc::Scenario> v;
    v.push_back({"null", "a resource needs a transport", null, o});
    v.push_back({"nothing", "allocations of zero bytes", nothing, o});
    using V = std::pmr::vector<uint32_t>;
    using W = std::pmr::vector<Wide>;
    using S = std::pmr::string;
    auto add = [&](const char* n, const char* d, std::function<void()> f, int wt) { mc::Opts p = o; p.weight = wt; v.push_back({n, d, f, p}); };
    add("ints", "all operation sequences, full alphabet, containers of integers", [] { drive<V>(D(4, 5), false); }, 3);
    add("aligned", "all operation sequences, full alphabet, containers of over-aligned elements", [] { drive<W>(D(3, 4), false); }, 2);
    add("strings", "all operation sequences, full alphabet, strings with small-string optimization", [] { drive<S>(D(3, 4), false); }, 2);
    add("deep_ints", "longer operation sequences, core alphabet, two containers", [] { drive<V>(D(4, 5), true); }, 2);
    add("deep_strings", "longer operation sequences, core alphabet, two strings", [] { drive<S>(D(4, 5), true); }, 2);
    return mc::run(argc, argv, v);
}
