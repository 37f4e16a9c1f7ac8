// C03: fair::mq::StateQueue, linearizability against a FIFO with a sticky error, and no lost wake-up.
#include "lin.h"
#include "mc.h"
#include <deque>
#include <fairmq/StateQueue.h>
#include <functional>
#include <memory>
#include <thread>
using namespace fair::mq;
using namespace std::chrono_literals;

namespace {
struct Model
{
    std::deque<State> q;
    bool cond = false;
};
using H = History<Model>;
const State A = State::InitializingDevice, B = State::Initialized, C = State::Bound, ERR = State::Error;

struct Env
{
    StateQueue q;
    H h;
    bool cond = false;            // only touched through the queue (under its lock)
    std::vector<std::thread> th;

    static std::string nm(State s) { return GetStateName(s); }

    void push(State s)
    {
        int i;
        { mc::Quiet z; i = h.call("push " + nm(s)); }
        q.Push(s);
        { mc::Quiet z; h.ret(i, [s](Model& m) { m.q.push_back(s); return true; }); }
    }
    void pushsig(State s)
    {
        int i;
        { mc::Quiet z; i = h.call("push+signal " + nm(s)); }
        q.Push(s, [this] { cond = true; });
        { mc::Quiet z; h.ret(i, [s](Model& m) { m.q.push_back(s); m.cond = true; return true; }); }
    }
    void notify()
    {
        int i;
        { mc::Quiet z; i = h.call("notify"); }
        q.Notify([this] { cond = true; });
        { mc::Quiet z; h.ret(i, [](Model& m) { m.cond = true; return true; }); }
    }
    void clear()
    {
        int i;
        { mc::Quiet z; i = h.call("clear"); }
        q.Clear();
        { mc::Quiet z; h.ret(i, [](Model& m) { m.q.clear(); return true; }); }
    }
    void next()
    {
        int i;
        { mc::Quiet z; i = h.call("next"); }
        State s = State::Undefined;
        bool err = false;
        try { s = q.WaitForNext(); } catch (DeviceErrorState&) { err = true; }
        done(i, true, s, err, 0);
    }
    // kind 0: a state must be there; 1: timed; 2: state or cond; 3: cond
    void done(int i, bool got, State s, bool err, int kind)
    {
        mc::Quiet z;
        std::string r = err ? "error" : got ? nm(s) : "none";
        mc::outcome(r);
        h.ret(i, [=](Model& m) {
            if (kind == 3 && !m.cond) return false;
            if (kind == 2 && !m.cond && m.q.empty()) return false;
            if (err) return !m.q.empty() && m.q.front() == ERR;
            if (!got) return m.q.empty() && kind != 0;
            if (m.q.empty() || m.q.front() == ERR || m.q.front() != s) return false;
            m.q.pop_front();
            return true;
        }, r);
    }
    void timed(std::chrono::milliseconds d)
    {
        int i;
        int64_t t0 = mc::now_ns();
        { mc::Quiet z; i = h.call("timed next"); }
        std::pair<bool, State> p{true, State::Undefined};
        bool err = false;
        try { p = q.WaitForNext(d); } catch (DeviceErrorState&) { err = true; }
        if (!p.first) MC_CHECK(mc::now_ns() - t0 >= d.count() * 1000000, "timed wait gave up early");
        done(i, p.first, p.second, err, 1);
    }
    void nextOrCustom()
    {
        int i;
        { mc::Quiet z; i = h.call("next or condition"); }
        std::pair<bool, State> p{true, State::Undefined};
        bool err = false;
        try { p = q.WaitForNextOrCustom([this] { return cond; }); } catch (DeviceErrorState&) { err = true; }
        done(i, p.first, p.second, err, 2);
    }
    void custom()
    {
        int i;
        { mc::Quiet z; i = h.call("condition"); }
        std::pair<bool, State> p{true, State::Undefined};
        bool err = false;
        try { p = q.WaitForCustom([this] { return cond; }); } catch (DeviceErrorState&) { err = true; }
        done(i, p.first, p.second, err, 3);
    }
    void go(std::function<void()> f) { th.emplace_back(std::move(f)); }
    void finish()
    {
        for (auto& t : th) t.join();
        h.check();
    }
};

// every sequence of non-blocking operations against the model
void sequential()
{
    Env e;
    Model m;
    std::string o;
    for (int i = 0; i < (mc::thorough() ? 7 : 6); ++i) {
        int op = mc::choose(10, "op");
        mc::transition();
        o += char('a' + op);
        auto front_err = [&] { return !m.q.empty() && m.q.front() == ERR; };
        auto chk = [&](const std::function<std::pair<bool, State>()>& f) {
            bool err = false;
            std::pair<bool, State> p;
            try { p = f(); } catch (DeviceErrorState&) { err = true; }
            MC_CHECK(err == front_err(), "%s: error %d, expected %d", o.c_str(), err, front_err());
            if (err) return;
            MC_CHECK(p.first == !m.q.empty(), "%s: got state: %d, expected %d", o.c_str(), p.first, !m.q.empty());
            if (p.first) { MC_CHECK(p.second == m.q.front(), "%s: wrong state", o.c_str()); m.q.pop_front(); }
        };
        switch (op) {
            case 0: e.q.Push(A); m.q.push_back(A); break;
            case 1: e.q.Push(B, [&] { e.cond = true; }); m.q.push_back(B); m.cond = true; break;
            case 2: e.q.Push(ERR); m.q.push_back(ERR); break;
            case 3: e.q.Clear(); m.q.clear(); break;
            case 4: e.q.Notify([&] { e.cond = true; }); m.cond = true; break;
            case 5: e.q.Locked([&] { e.cond = false; }); m.cond = false; break;
            case 6: if (m.q.empty()) mc::abandon(); chk([&] { return std::make_pair(true, e.q.WaitForNext()); }); break;
            case 7: { int64_t t0 = mc::now_ns(); bool em = m.q.empty(); chk([&] { return e.q.WaitForNext(20ms); }); MC_CHECK(!em || mc::now_ns() - t0 >= 20000000, "timed wait gave up early"); MC_CHECK(em || mc::now_ns() - t0 < 1000000, "timed wait waited although a state was queued"); break; }
            case 8: {
                if (m.q.empty() && !m.cond) mc::abandon();
                std::function<bool()> pred = [&] { return e.cond; };
                chk([&] { return e.q.WaitForNextOrCustom(pred); });
                MC_CHECK(bool(pred), "%s: waiting took away the caller's condition", o.c_str());
                break;
            }
            case 9: {
                if (!m.cond) mc::abandon();
                std::function<bool()> pred = [&] { return e.cond; };
                chk([&] { return e.q.WaitForCustom(pred); });
                MC_CHECK(bool(pred), "%s: waiting took away the caller's condition", o.c_str());
                break;
            }
        }
        MC_CHECK(e.cond == m.cond, "condition");
    }
    mc::outcome(std::to_string(m.q.size()) + (m.cond ? "c" : ""));
}

// waits for a given state, with earlier ones in front of it
void wait_for_state()
{
    Env e;
    int order = mc::choose(3, "order");
    std::thread t([&] {
        bool err = false;
        try { e.q.WaitForState(C); } catch (DeviceErrorState&) { err = true; }
        MC_CHECK(err == (order == 2), "wait for state ended with error=%d", err);
    });
    if (order == 0) { e.q.Push(A); e.q.Push(C); e.q.Push(B); }
    if (order == 1) { e.q.Push(C); }
    if (order == 2) { e.q.Push(A); e.q.Push(ERR); e.q.Push(C); }
    t.join();
    if (order == 0) { auto p = e.q.WaitForNext(1ms); MC_CHECK(p.first && p.second == B, "state after the awaited one was lost"); }
    mc::outcome(std::to_string(order));
}
// waits for a state or a condition, condition given as std::function
void wait_for_state_or_custom()
{
    Env e;
    int order = mc::choose(4, "order");
    std::thread t([&] {
        std::function<bool()> pred = [&] { return e.cond; };
        bool err = false;
        try { e.q.WaitForStateOrCustom(C, pred); } catch (DeviceErrorState&) { err = true; }
        MC_CHECK(err == (order == 3), "error=%d", err);
        MC_CHECK(bool(pred), "waiting took away the caller's condition");
    });
    if (order == 0) { e.q.Push(A); e.q.Push(C); }
    if (order == 1) { e.q.Push(A); e.q.Notify([&] { e.cond = true; }); }
    if (order == 2) { e.q.Push(A); e.q.Push(B, [&] { e.cond = true; }); }
    if (order == 3) { e.q.Push(A); e.q.Push(ERR); }
    t.join();
    mc::outcome(std::to_string(order));
}
}   // namespace

int main(int argc, char** argv)
{
    mc::Opts o;
    o.races = true;
    o.freecheck = true;
    o.spurious = 1;
    o.preemptions = 3;
    o.preemptions_thorough = 4;
    auto p2 = o;
    p2.preemptions = 2;
    p2.preemptions_thorough = 3;
    mc::Opts seq = o;
    seq.weight = 1.5;
    std::vector<mc::Scenario> s{
        {"one", "1 producer of 3 states, 1 consumer", [] { Env e; e.go([&] { for (int i = 0; i < 3; ++i) e.next(); }); e.push(A); e.push(B); e.push(C); e.finish(); }, o},
        {"two_producers", "2 producers, 1 consumer", [] { Env e; e.go([&] { for (int i = 0; i < 3; ++i) e.next(); }); e.go([&] { e.push(A); e.push(B); }); e.push(C); e.finish(); }, p2},
        {"two_consumers", "1 producer, 2 consumers", [] { Env e; e.go([&] { e.next(); }); e.go([&] { e.next(); }); e.push(A); e.push(B); e.finish(); }, o},
        {"two_two", "2 producers, 2 consumers", [] { Env e; e.go([&] { e.next(); }); e.go([&] { e.next(); }); e.go([&] { e.push(A); }); e.push(B); e.finish(); }, p2},
        {"error_two", "error pushed while 2 consumers wait", [] { Env e; e.go([&] { e.next(); }); e.go([&] { e.next(); }); e.push(ERR); e.finish(); }, o},
        {"error_mixed", "error pushed with one consumer of each kind waiting", [] { Env e; e.go([&] { e.next(); }); e.go([&] { e.nextOrCustom(); }); e.push(ERR); e.finish(); }, p2},
        {"timed", "timed consumer against a producer", [] { Env e; e.go([&] { e.timed(5ms); e.timed(5ms); }); e.push(A); e.push(B); e.finish(); }, o},
        {"timed_two", "timed and untimed consumer", [] { Env e; e.go([&] { e.timed(5ms); }); e.go([&] { e.next(); }); e.push(A); e.push(B); e.finish(); }, p2},
        {"custom_next", "one waiter for a state, one for the condition; state pushed, then notified", [] { Env e; e.go([&] { e.next(); }); e.go([&] { e.custom(); }); e.push(A); e.notify(); e.push(B); e.finish(); }, p2},
        {"custom_next2", "one waiter for a state, one for the condition; notified, then state pushed", [] { Env e; e.go([&] { e.next(); }); e.go([&] { e.custom(); }); e.notify(); e.pushsig(A); e.push(B); e.finish(); }, p2},
        {"or_custom", "waiter for state or condition, against notify", [] { Env e; e.go([&] { e.nextOrCustom(); }); e.go([&] { e.nextOrCustom(); }); e.notify(); e.push(A); e.finish(); }, p2},
        {"or_custom_sig", "waiter for state or condition, against push with signal", [] { Env e; e.go([&] { e.nextOrCustom(); }); e.pushsig(A); e.finish(); }, o},
        {"clear", "clear against push and timed consumer", [] { Env e; e.go([&] { e.timed(5ms); }); e.go([&] { e.clear(); }); e.push(A); e.push(B); e.finish(); }, p2},
        {"state", "wait for a particular state", wait_for_state, o},
        {"state_or_custom", "wait for a particular state or a condition", wait_for_state_or_custom, o},
        {"seq", "all sequences of up to 6 operations against a FIFO with a sticky error", sequential, seq},
    };
    return mc::run(argc, argv, s);
}
