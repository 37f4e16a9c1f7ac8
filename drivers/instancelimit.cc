// C29: fair::mq::tools::InstanceLimiter
#include "lin.h"
#include "mc.h"
#include <fairmq/tools/InstanceLimit.h>
#include <memory>
#include <ostream>
#include <thread>
using namespace fair::mq::tools;

namespace {
template<int K>
struct TagN { friend std::ostream& operator<<(std::ostream& os, const TagN&) { return os << "tag" << K; } };
template<int K, int Max>
struct Limited : InstanceLimiter<TagN<K>, Max>
{
    explicit Limited(bool boom = false) { if (boom) throw std::logic_error("constructor of the derived class failed"); }
};

// every sequence of create/destroy over some slots of two independent types
template<int K, int Max>
void sequential()
{
    constexpr int SLOTS = Max + 1;
    std::unique_ptr<Limited<K, Max>> a[SLOTS];
    std::unique_ptr<Limited<K + 1, 1>> other;
    int n = 0;
    const int depth = mc::thorough() ? 10 : 7;
    std::string o;
    for (int i = 0; i < depth; ++i) {
        int op = mc::choose(SLOTS + 2, "op");
        mc::transition();
        o += char('0' + op);
        if (op < SLOTS) {
            if (a[op]) { a[op].reset(); --n; }
            else {
                bool ok = true;
                std::string what;
                try { a[op] = std::make_unique<Limited<K, Max>>(); } catch (std::runtime_error& e) { ok = false; what = e.what(); }
                MC_CHECK(ok == (n < Max), "%s: construction with %d of %d instances: %s", o.c_str(), n, Max, ok ? "succeeded" : "failed");
                if (ok) ++n;
                else MC_CHECK(what.find("tag") != std::string::npos, "error message does not name the type: %s", what.c_str());
            }
        } else if (op == SLOTS) {
            bool limit = false, boom = false;
            try { Limited<K, Max> x(true); } catch (std::logic_error&) { boom = true; } catch (std::runtime_error&) { limit = true; }
            MC_CHECK(limit == (n >= Max) && boom == (n < Max), "%s: failing construction with %d of %d: limit error %d", o.c_str(), n, Max, limit);
        } else {
            if (other) other.reset(); else { bool ok = true; try { other = std::make_unique<Limited<K + 1, 1>>(); } catch (std::runtime_error&) { ok = false; } MC_CHECK(ok, "%s: another type's instances were counted", o.c_str()); }
        }
        uint64_t h = other ? 1 : 0;
        for (auto& p : a) { h = h * 2 + (p ? 1 : 0); if (p) MC_CHECK(p->GetCount() == n, "%s: reported count %d, expected %d", o.c_str(), p->GetCount(), n); }
        mc::state(h * 64 + Max);
    }
    mc::outcome(std::to_string(n));
}

struct Model { int n = 0; };
template<int K, int Max>
void concurrent(std::vector<std::string> prog)
{
    History<Model> h;
    int alive = 0;
    std::vector<std::thread> th;
    auto runp = [&](const std::string& p) {
        std::unique_ptr<Limited<K, Max>> x[2];
        for (char c : p) {
            int s = c & 1;                       // 'a'/'b' slots
            int i;
            if (!x[s]) {
                { mc::Quiet q; i = h.call("construct"); }
                bool ok = true;
                try { x[s] = std::make_unique<Limited<K, Max>>(); } catch (std::runtime_error&) { ok = false; }
                mc::Quiet q;
                if (ok && ++alive > Max) mc::fail("%d instances alive, limit %d", alive, Max);
                mc::outcome(ok ? "+" : "x");
                h.ret(i, [ok](Model& m) { if (ok != (m.n < Max)) return false; if (ok) ++m.n; return true; }, ok ? "ok" : "refused");
            } else {
                { mc::Quiet q; --alive; i = h.call("destroy"); }
                x[s].reset();
                mc::Quiet q;
                h.ret(i, [](Model& m) { --m.n; return true; });
            }
        }
        for (auto& y : x) if (y) { { mc::Quiet q; --alive; } int i; { mc::Quiet q; i = h.call("destroy"); } y.reset(); mc::Quiet q; h.ret(i, [](Model& m) { --m.n; return true; }); }
    };
    for (auto& p : prog) th.emplace_back(runp, p);
    for (auto& t : th) t.join();
    h.check();
    // afterwards exactly Max fit again
    std::unique_ptr<Limited<K, Max>> y[Max + 1];
    int ok = 0;
    for (auto& p : y) try { p = std::make_unique<Limited<K, Max>>(); ++ok; } catch (std::runtime_error&) {}
    MC_CHECK(ok == Max, "after everything was destroyed %d instances fit, limit %d", ok, Max);
}
}   // namespace

int main(int argc, char** argv)
{
    mc::Opts o;
    o.races = true;
    o.freecheck = true;
    o.sched_refcounts = true;
    o.preemptions = 3;
    o.preemptions_thorough = 6;
    o.fork_each = false;
    std::vector<mc::Scenario> s{
        {"t2m1", "2 threads, limit 1, create/destroy/create", [] { concurrent<10, 1>({"aaa", "aa"}); }, o},
        {"t2m2", "2 threads, limit 2, two slots each", [] { concurrent<20, 2>({"aba", "ab"}); }, o},
        {"t3m1", "3 threads, limit 1", [] { concurrent<30, 1>({"a", "a", "a"}); }, o},
        {"t3m2", "3 threads, limit 2", [] { concurrent<40, 2>({"aa", "a", "a"}); }, o},
        {"seq1", "all sequences, limit 1", [] { sequential<50, 1>(); }, o},
        {"seq2", "all sequences, limit 2", [] { sequential<52, 2>(); }, o},
        {"seq3", "all sequences, limit 3", [] { sequential<54, 3>(); }, o},
    };
    return mc::run(argc, argv, s);
}
