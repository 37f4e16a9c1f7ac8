// Shared by the drivers of the transports: real factories over the in-process stand-ins.
#pragma once
#include "fakeshm.h"
#include "fakezmq.h"
#include "mc.h"
#include <cstring>
#include <fairmq/ProgOptions.h>
#include <fairmq/shmem/TransportFactory.h>
#include <fairmq/zeromq/TransportFactory.h>
#include <algorithm>
#include <malloc.h>
#include <map>
#include <memory>
#include <set>
#include <thread>

namespace tr {
using namespace fair::mq;
using Bytes = std::vector<unsigned char>;

inline ProgOptions* options(const std::string& session, size_t segsize, uint16_t segid = 0, const std::string& alg = "rbtree_best_fit")
{
    auto* o = new ProgOptions;
    o->values["session"] = session;
    o->values["shm-segment-size"] = segsize;
    o->values["shm-segment-id"] = segid;
    o->values["shm-allocation"] = alg;
    o->values["shm-monitor"] = false;
    return o;
}
// free bytes of a managed segment, seen through an own mapping
struct SegView
{
    std::unique_ptr<shmem::RBTreeBestFitSegment> a;
    std::unique_ptr<shmem::SimpleSeqFitSegment> b;
    void open(const std::string& session, int id, bool rb)
    {
        using namespace boost::interprocess;
        std::string n = shmem::MakeShmName(shmem::makeShmIdStr(shmem::makeShmIdUint64(session)), "m", id);
        if (rb) a = std::make_unique<shmem::RBTreeBestFitSegment>(open_only, n.c_str());
        else b = std::make_unique<shmem::SimpleSeqFitSegment>(open_only, n.c_str());
    }
    size_t free() const { return a ? a->get_free_memory() : b ? b->get_free_memory() : 0; }
    bool sane() { return a ? a->check_sanity() : b ? b->check_sanity() : true; }
};
inline void fill(void* p, size_t n, int tag)
{
    auto* c = static_cast<unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) c[i] = (unsigned char)(tag * 37 + i * 11 + (i >> 8) + 1);
}
inline bool holds(const void* p, size_t n, int tag)
{
    auto* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) if (c[i] != (unsigned char)(tag * 37 + i * 11 + (i >> 8) + 1)) return false;
    return true;
}
inline constexpr size_t kSeg = 1 << 17;
inline size_t g_seg = kSeg;
inline std::string g_session = "regions";
inline std::string shmid(const std::string& s) { return shmem::makeShmIdStr(shmem::makeShmIdUint64(s)); }
using Fac = std::shared_ptr<shmem::TransportFactory>;
inline Fac dev(const std::string& name, const std::string& session = g_session, uint16_t seg = 0)
{
    ProgOptions* o;
    { mc::Quiet q; o = options(session, g_seg, seg); }
    Fac f = std::make_shared<shmem::TransportFactory>(name, o);
    { mc::Quiet q; delete o; }
    return f;
}
inline void clean() { fakeshm::reset(); fakezmq::reset(); }
inline void gone(const std::string& when)
{
    mc::Quiet q;
    auto o = fakeshm::objects();
    MC_CHECK(o.empty(), "%s: shared object %s still exists", when.c_str(), o.begin()->c_str());
}
inline void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }

struct Acks
{
    struct E { char* p; size_t n; size_t hint; };
    std::vector<E> got;
    bool over = false;
    int slow = 0;
    void add(void* p, size_t n, void* h)
    {
        {
            mc::Quiet q;
            MC_CHECK(!over, "callback after the destruction of the region has completed");
            got.push_back({static_cast<char*>(p), n, reinterpret_cast<size_t>(h)});
        }
        if (slow) ms(slow);
    }
    size_t count(char* p, size_t hint) { size_t c = 0; for (auto& e : got) if (e.p == p && e.hint == hint) ++c; return c; }
};
inline UnmanagedRegionPtr region(Fac f, Acks& a, size_t size, bool bulk, RegionConfig cfg)
{
    if (bulk) return f->CreateUnmanagedRegion(size, RegionBulkCallback([&a](const std::vector<RegionBlock>& v) { for (auto& b : v) a.add(b.ptr, b.size, b.hint); }), cfg);
    return f->CreateUnmanagedRegion(size, RegionCallback([&a](void* p, size_t n, void* h) { a.add(p, n, h); }), cfg);
}

}   // namespace tr
