// C27: fair::mq::tools::Semaphore / SharedSemaphore under every schedule within the preemption bound.
#include "mc.h"
#include <fairmq/tools/Semaphore.h>
#include <memory>
#include <thread>
#include <vector>
using namespace fair::mq::tools;

namespace {
struct Track
{
    long signals = 0, admitted = 0, waiting = 0;
    long init = 0;
    void sig() { mc::Quiet q; ++signals; }
    void enter() { mc::Quiet q; ++waiting; }
    void in()
    {
        mc::Quiet q;
        --waiting;
        ++admitted;
        if (admitted > init + signals) mc::fail("over-admission: %ld waits completed with %ld initial + %ld signals started", admitted, init, signals);
    }
};

// waiters threads each doing wper waits, signalers each doing sper signals
template<typename Sem>
void pure(int init, int waiters, int wper, int signalers, int sper)
{
    Sem s(init);
    Track t;
    t.init = init;
    std::vector<std::thread> th;
    for (int i = 0; i < waiters; ++i) th.emplace_back([&] { for (int k = 0; k < wper; ++k) { t.enter(); s.Wait(); t.in(); } });
    for (int i = 0; i < signalers; ++i) th.emplace_back([&] { for (int k = 0; k < sper; ++k) { t.sig(); s.Signal(); } });
    for (auto& x : th) x.join();
    long want = init + long(signalers) * sper - long(waiters) * wper;
    MC_CHECK(long(s.GetCount()) == want, "count is %ld, expected %ld", long(s.GetCount()), want);
    mc::outcome(std::to_string(s.GetCount()));
}

// semaphore as a lock for n holders
template<typename Sem>
void critical(int n, int threads, int rounds)
{
    Sem s(n);
    int inside = 0, maxin = 0;
    std::vector<std::thread> th;
    for (int i = 0; i < threads; ++i)
        th.emplace_back([&] {
            for (int k = 0; k < rounds; ++k) {
                s.Wait();
                { mc::Quiet q; if (++inside > n) mc::fail("%d holders with a count of %d", inside, n); if (inside > maxin) maxin = inside; }
                mc::yield_point("inside");
                { mc::Quiet q; --inside; }
                s.Signal();
            }
        });
    for (auto& x : th) x.join();
    MC_CHECK(int(s.GetCount()) == n, "count is %d after all left, expected %d", int(s.GetCount()), n);
    mc::outcome(std::to_string(maxin));
}

// signals handed over through copies; the last copies die in any order
void shared_copies()
{
    auto a = std::make_unique<SharedSemaphore>(0);
    SharedSemaphore b(*a);
    SharedSemaphore c;
    c = b;
    std::thread w([cc = c]() mutable { cc.Wait(); cc.Signal(); });
    std::thread s([bb = b]() mutable { bb.Signal(); });
    a->Wait();
    a->Signal();
    a.reset();
    w.join();
    s.join();
    MC_CHECK(b.GetCount() == 1 && c.GetCount() == 1, "copies do not share one count: %zu %zu", b.GetCount(), c.GetCount());
    SharedSemaphore d(2);
    SharedSemaphore e(d);
    e.Wait();
    MC_CHECK(d.GetCount() == 1 && c.GetCount() == 1, "shared count wrong: %zu", d.GetCount());
    mc::outcome("ok");
}

// a reader of the count sees only values the history allows
void count_reader()
{
    Semaphore s(1);
    long seen[2];
    std::thread r([&] { seen[0] = long(s.GetCount()); seen[1] = long(s.GetCount()); });
    std::thread w([&] { s.Wait(); s.Wait(); });
    s.Signal();
    s.Signal();
    r.join();
    w.join();
    for (long v : seen) MC_CHECK(v >= 0 && v <= 3, "count %ld out of range", v);
    MC_CHECK(s.GetCount() == 1, "final count %zu", s.GetCount());
    mc::outcome(std::to_string(seen[0]) + std::to_string(seen[1]));
}

// sequential: every sequence of operations against a counter
void sequential()
{
    int n = mc::choose(4, "initial");
    Semaphore* s = nullptr;
    Semaphore s0;
    Semaphore s1(n);
    s = n == 3 ? &s0 : &s1;
    if (n == 3) n = 0;
    SharedSemaphore sh(n), sh2(sh);
    int c = n;
    std::string o;
    for (int i = 0; i < 8; ++i) {
        int op = mc::choose(3, "op");
        mc::transition();
        if (op == 0) break;
        if (op == 1) { s->Signal(); (i & 1 ? sh : sh2).Signal(); ++c; }
        else { if (c == 0) break; s->Wait(); (i & 1 ? sh2 : sh).Wait(); --c; }
        o += char('0' + op);
        MC_CHECK(int(s->GetCount()) == c, "count %zu, expected %d", s->GetCount(), c);
        MC_CHECK(int(sh.GetCount()) == c && int(sh2.GetCount()) == c, "shared count %zu/%zu, expected %d", sh.GetCount(), sh2.GetCount(), c);
    }
    mc::outcome(std::to_string(c));
}
}   // namespace

int main(int argc, char** argv)
{
    mc::Opts o;
    o.races = true;
    o.freecheck = true;
    o.spurious = 1;
    o.preemptions = 3;
    o.preemptions_thorough = 5;
    auto thr = o;
    thr.thorough_only = true;
    auto big = o;
    big.preemptions = 2;
    big.preemptions_thorough = 4;
    std::vector<mc::Scenario> s{
        {"seq", "all sequences of up to 8 operations against a counter", sequential, o},
        {"w2i1s2", "2 waiters doing 2 waits, 1 initial, 2 signallers", [] { pure<Semaphore>(1, 2, 1, 1, 2); }, o},
        {"w1x3", "1 waiter doing 3 waits, 2 signallers", [] { pure<Semaphore>(1, 1, 3, 2, 1); }, big},
        {"cs1", "as lock for 1 holder, 2 threads x 2", [] { critical<Semaphore>(1, 2, 2); }, o},
        {"cs2", "as lock for 2 holders, 3 threads", [] { critical<Semaphore>(2, 3, 1); }, big},
        {"cs1t3", "as lock for 1 holder, 3 threads", [] { critical<SharedSemaphore>(1, 3, 1); }, big},
        {"copies", "copies of a shared semaphore used and destroyed from several threads", shared_copies, big},
        {"count", "count read concurrently", count_reader, big},
        {"w2s1x2", "2 waiters, 1 thread signalling twice", [] { pure<Semaphore>(0, 2, 1, 1, 2); }, o},
        {"w2s2", "2 waiters, 2 signallers", [] { pure<Semaphore>(0, 2, 1, 2, 1); }, big},
        {"w3s1x3", "3 waiters, 1 thread signalling 3 times", [] { pure<Semaphore>(0, 3, 1, 1, 3); }, big},
        {"shared_w2s2", "shared semaphore, 2 waiters, 2 signallers", [] { pure<SharedSemaphore>(0, 2, 1, 2, 1); }, big},
        {"w3s3", "3 waiters, 3 signallers", [] { pure<Semaphore>(0, 3, 1, 3, 1); }, thr},
    };
    return mc::run(argc, argv, s);
}
