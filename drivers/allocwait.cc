// C37: creating messages in a full segment: attempts, their interval, interruption, and what remains of
// a failed creation, for every combination of settings, in virtual time that passes only by waiting.
#include "transport.h"
#include <chrono>
using namespace tr;

namespace {
constexpr size_t kBlock = 30000;
long now_ms() { return long(mc::now_ns() / 1000000); }
struct Setting { int thr; int max; bool has_max; int interval; };  // thr: -1 not given
int attempts(const Setting& s)                                      // as documented for the options
{
    if (s.thr == 0) return -1;
    if (!s.has_max) return 1;
    return s.max < 0 ? -1 : std::max(s.max, 1);
}
Fac device(const std::string& name, const Setting& s, bool seqfit)
{
    std::unique_ptr<ProgOptions> o;
    {
        mc::Quiet q;
        o.reset(options("full", kSeg, 0, seqfit ? "simple_seq_fit" : "rbtree_best_fit"));
        if (s.thr >= 0) o->values["shm-throw-bad-alloc"] = bool(s.thr);
        if (s.has_max) o->values["bad-alloc-max-attempts"] = s.max;
        if (s.interval) o->values["bad-alloc-attempt-interval"] = s.interval;
    }
    Fac f = std::make_shared<shmem::TransportFactory>(name, o.get());
    { mc::Quiet q; o.reset(); }
    return f;
}
const Setting kDefault{-1, 0, false, 0};
std::vector<MessagePtr> fill_up(Fac& f)
{
    std::vector<MessagePtr> v;
    for (int i = 0; i < 4; ++i) v.push_back(f->CreateMessage(kBlock));
    bool thrown = false;
    try { f->CreateMessage(kBlock / 3 * 2); } catch (MessageBadAlloc&) { thrown = true; }
    MC_CHECK(thrown, "the segment is not full");
    return v;
}
// one creation; memory is released or the transport interrupted meanwhile
void waits(bool two)
{
    clean();
    mc::set_tick(0);
    {
        bool seqfit = mc::flag("seq-fit");
        Setting s{mc::choose(3, "throw") - 1, 0, false, 0};
        int m = mc::choose(6, "max");
        if (m) { s.has_max = true; s.max = m - 2; }                 // -1, 0, 1, 2, 3
        static const int iv[] = {0, 20, 110};
        s.interval = iv[mc::choose(3, "interval")];
        long interval = s.interval ? s.interval : 50;
        int want = attempts(s);
        Fac F = device("F", kDefault, seqfit);
        Fac A = device("A", s, seqfit);
        SegView view;
        { mc::Quiet q; view.open("full", 0, !seqfit); }
        size_t base = view.free();
        auto held = fill_up(F);
        size_t full = view.free();
        int how = mc::choose(5, "how");
        MessagePtr msg;
        int released = 0;
        char* user = static_cast<char*>(malloc(kBlock));
        fill(user, kBlock, 3);
        if (how == 3) { msg = A->CreateMessage(64); full = view.free(); }
        size_t size = how == 1 || how == 3 ? kBlock / 3 * 2 : kBlock;
        // what happens meanwhile: nothing, memory is released, the transport is interrupted
        int event = mc::choose(want < 0 ? 2 : 3, "event");
        if (want < 0) ++event;                                     // only an event ends the wait
        long at = 1 + long(mc::choose(4, "when")) * interval * 7 / 10;
        if (event == 0) at = 0;
        std::thread other;
        if (event) other = std::thread([&] {
            ms(int(at));
            if (event == 1) held.pop_back(); else A->Interrupt();
        });
        if (event && at == 1 && two) ms(2);                        // it has happened before
        long t0 = now_ms(), t = 0;
        bool thrown = false;
        try {
            switch (how) {
                case 0: msg = A->CreateMessage(size); break;
                case 1: msg = A->CreateMessage(size, Alignment{256}); break;
                case 2: msg = A->CreateMessage(user, size, [](void* d, void* h) { free(d); ++*static_cast<int*>(h); }, &released); break;
                case 3: msg->Rebuild(size); break;
                case 4: msg = A->CreateMessage(kSeg + 1); break;    // can never succeed
            }
        } catch (MessageBadAlloc&) { thrown = true; }
        t = now_ms() - t0;
        mc::transition();
        std::string d = "throw " + std::to_string(s.thr) + ", attempts " + (s.has_max ? std::to_string(s.max) : "-") + ", interval " + std::to_string(s.interval) + ", creation " + std::to_string(how)
                      + (event == 0 ? "" : event == 1 ? ", released after " : ", interrupted after ") + (event ? std::to_string(at) : "");
        if (other.joinable()) other.join();
        long ev = event && at == 1 && two ? 0 : at;                // since the begin of the creation
        if (how == 4) MC_CHECK(thrown && t == 0, "%s: creating a message larger than the segment %s after %ld ms", d.c_str(), thrown ? "failed" : "succeeded", t);
        else if (event == 1 && (want < 0 || ev < (want - 1) * interval || ev == 0)) {
            MC_CHECK(!thrown, "%s: failed after %ld ms although there was memory in time", d.c_str(), t);
            MC_CHECK(t >= ev && t <= ev + interval, "%s: succeeded after %ld ms", d.c_str(), t);
        } else if (event == 2 && (want < 0 || ev < (want - 1) * interval)) {
            MC_CHECK(thrown, "%s: succeeded without memory", d.c_str());
            MC_CHECK(t >= ev && t <= ev + interval, "%s: interrupted after %ld ms, failed after %ld ms", d.c_str(), ev, t);
        } else {
            MC_CHECK(thrown, "%s: succeeded after %ld ms", d.c_str(), t);
            MC_CHECK(t == (want - 1) * interval, "%s: failed after %ld ms, expected after %ld", d.c_str(), t, (want - 1) * interval);
        }
        if (thrown) {
            if (event == 1 && held.size() == 4) held.pop_back();
            MC_CHECK(how == 3 ? msg && msg->GetSize() == 0 : !msg, "%s: something was created", d.c_str());
            size_t free = view.free();
            auto h = held.size();
            held.clear();
            MC_CHECK(view.free() == base, "%s: %ld bytes lost by a failed creation (%zu, %zu)", d.c_str(), long(base) - long(view.free()), free, h);
            if (how == 2 && !released) ::free(user);
            A->Resume();
            // the transport and the message go on working
            if (how == 3) msg->Rebuild(size); else msg = A->CreateMessage(size);
        } else {
            MC_CHECK(how != 2 || released == 1, "%s: user buffer released %d times", d.c_str(), released);
            if (how == 2) MC_CHECK(holds(msg->GetData(), size, 3), "%s: content wrong", d.c_str());
        }
        if (how != 2) ::free(user);
        MC_CHECK(msg && msg->GetSize() == size, "%s: message of %zu bytes", d.c_str(), msg ? msg->GetSize() : 0);
        fill(msg->GetData(), size, 9);
        MC_CHECK(holds(msg->GetData(), size, 9), "content");
        msg.reset();
        held.clear();
        MC_CHECK(view.free() == base, "%s: %ld bytes were not returned", d.c_str(), long(base) - long(view.free()));
        { mc::Quiet q; MC_CHECK(view.sane(), "segment corrupted"); view.a.reset(); view.b.reset(); }
        mc::trace_validated();
        mc::outcome(std::to_string(thrown) + "," + std::to_string(t));
    }
    gone("after the last device left");
}
// several wait for memory that suffices for some of them
void rivals(int n, int blocks)
{
    clean();
    mc::set_tick(0);
    {
        Setting s{-1, 3, true, 20};
        Fac F = device("F", kDefault, false);
        Fac A = device("A", s, false), B = device("B", s, false);
        SegView view;
        { mc::Quiet q; view.open("full", 0, true); }
        size_t base = view.free();
        auto held = fill_up(F);
        int got = 0, failed = 0;
        std::vector<MessagePtr> m(static_cast<size_t>(n));
        std::vector<std::thread> t;
        for (int i = 0; i < n; ++i) t.emplace_back([&, i] {
            bool ok = true;
            try { m[size_t(i)] = (i ? B : A)->CreateMessage(kBlock); } catch (MessageBadAlloc&) { ok = false; }
            if (ok) fill(m[size_t(i)]->GetData(), kBlock, i + 1);
            mc::Quiet q;
            ++(ok ? got : failed);
        });
        for (int i = 0; i < blocks; ++i) { ms(15); held.pop_back(); }
        for (auto& x : t) x.join();
        MC_CHECK(got == std::min(n, blocks) && failed == n - got, "%d of %d creations succeeded with memory for %d", got, n, blocks);
        for (int i = 0; i < n; ++i) if (m[size_t(i)]) MC_CHECK(holds(m[size_t(i)]->GetData(), kBlock, i + 1), "content of message %d changed", i);
        m.clear();
        held.clear();
        MC_CHECK(view.free() == base, "%ld bytes were not returned", long(base) - long(view.free()));
        { mc::Quiet q; view.a.reset(); }
        mc::outcome(std::to_string(got));
    }
    gone("after the last device left");
}
}   // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Scenario> v;
    mc::Opts o;
    o.preemptions = 0;
    o.preemptions_thorough = 1;
    o.delays = true;
    o.sched_atomics = false;
    o.max_steps = 200000;
    o.max_time_jumps = 4000;
    o.early_timeouts = false;
    mc::Opts c = o;
    c.preemptions = 2;
    c.preemptions_thorough = 3;
    o.weight = 3;
    v.push_back({"waits", "all settings, creations, events and their times", [] { waits(true); }, o});
    v.push_back({"rivals", "two creations, memory for one", [] { rivals(2, 1); }, c});
    v.push_back({"rivals_all", "three creations, memory for two", [] { rivals(3, 2); }, c});
    return mc::run(argc, argv, v);
}
