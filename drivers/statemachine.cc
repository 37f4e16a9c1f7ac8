// C01/C02: fair::mq::StateMachine
#include "lin.h"
#include "mc.h"
#include <fairmq/StateMachine.h>
#include <fairmq/States.h>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace fair::mq;
using T = Transition;
using S = State;

namespace {
constexpr T ALL[] = {T::Auto, T::InitDevice, T::CompleteInit, T::Bind, T::Connect, T::InitTask, T::Run, T::Stop, T::ResetTask, T::ResetDevice, T::End, T::ErrorFound};
const S STATES[] = {S::Undefined, S::Ok, S::Error, S::Idle, S::InitializingDevice, S::Initialized, S::Binding, S::Bound, S::Connecting, S::DeviceReady, S::InitializingTask, S::Ready, S::Running, S::ResettingTask, S::ResettingDevice, S::Exiting};

// the documented diagram (docs/Device.md, fairmq/docs/images/device_states.svg)
struct Arrow { S from; T t; S to; };
const Arrow DIAGRAM[] = {
    {S::Idle, T::InitDevice, S::InitializingDevice}, {S::Idle, T::End, S::Exiting},
    {S::InitializingDevice, T::CompleteInit, S::Initialized},
    {S::Initialized, T::Bind, S::Binding}, {S::Initialized, T::ResetDevice, S::ResettingDevice},
    {S::Binding, T::Auto, S::Bound},
    {S::Bound, T::Connect, S::Connecting}, {S::Bound, T::ResetDevice, S::ResettingDevice},
    {S::Connecting, T::Auto, S::DeviceReady},
    {S::DeviceReady, T::InitTask, S::InitializingTask}, {S::DeviceReady, T::ResetDevice, S::ResettingDevice},
    {S::InitializingTask, T::Auto, S::Ready},
    {S::Ready, T::Run, S::Running}, {S::Ready, T::ResetTask, S::ResettingTask},
    {S::Running, T::Stop, S::Ready},
    {S::ResettingTask, T::Auto, S::DeviceReady},
    {S::ResettingDevice, T::Auto, S::Idle},
};
bool arrow(S from, T t, S& to)
{
    if (from == S::Error) return false;
    if (t == T::ErrorFound) { to = S::Error; return true; }
    for (auto& a : DIAGRAM) if (a.from == from && a.t == t) { to = a.to; return true; }
    return false;
}
struct Model
{
    S target = S::Idle;           // last accepted
    S cur = S::Idle;              // entered
    bool pending = false;
    bool request(T t)
    {
        S to;
        if (pending && t != T::ErrorFound) return false;
        if (!arrow(target, t, to)) return false;
        target = to;
        pending = true;
        return true;
    }
    bool take(S s)
    {
        if (!pending || target != s) return false;
        pending = false;
        cur = s;
        return true;
    }
};
struct Stop {};

#ifdef C01
// One thread: requests are made before the machine runs and from inside its callbacks.
struct Seq
{
    StateMachine sm;
    Model m;
    std::string log;
    int nTrans = 0, nChange = 0;
    T lastTrans = T::Auto;
    bool bystring = false, stopping = false;
    [[noreturn]] void stop() { stopping = true; throw Stop(); }

    bool attempt(T t)
    {
        Model before = m;
        bool want = m.request(t);
        int nt = nTrans, nc = nChange;
        log += " " + GetTransitionName(t);
        bool got = bystring ? sm.ChangeState(GetTransitionName(t)) : sm.ChangeState(t);
        mc::transition();
        MC_CHECK(got == want, "after%s in state %s (pending %d): request returned %d, the diagram says %d", log.c_str(), GetStateName(before.cur).c_str(), int(before.pending), int(got), int(want));
        MC_CHECK(sm.NewStatePending() == m.pending, "after%s: pending is %d", log.c_str(), int(sm.NewStatePending()));
        MC_CHECK(sm.GetCurrentState() == m.cur, "after%s: state is %s", log.c_str(), sm.GetCurrentStateName().c_str());
        MC_CHECK(sm.GetCurrentStateName() == GetStateName(m.cur), "state name %s", sm.GetCurrentStateName().c_str());
        MC_CHECK(nTrans == nt + int(want), "after%s: %d transition callbacks for a request that returned %d", log.c_str(), nTrans - nt, int(got));
        MC_CHECK(!want || lastTrans == t, "after%s: transition callback got %s", log.c_str(), GetTransitionName(lastTrans).c_str());
        MC_CHECK(nChange == nc, "after%s: state callbacks inside a request", log.c_str());
        mc::state(uint64_t(m.cur) * 64 + uint64_t(m.target) * 2 + m.pending);
        return want;
    }
    bool applicable(T t) { Model c = m; return c.request(t); }

    // step(place): makes requests; true: stop here
    void run(const std::function<void(int)>& step)
    {
        sm.Start();
        sm.SubscribeToNewTransition("t", [&](T t) { ++nTrans; lastTrans = t; });
        sm.PrepareState([&](S s) {
            MC_CHECK(m.take(s), "after%s: entered %s, expected %s", log.c_str(), GetStateName(s).c_str(), GetStateName(m.target).c_str());
            log += " ->" + GetStateName(s);
            MC_CHECK(sm.GetCurrentState() == s && !sm.NewStatePending(), "after%s: state %s pending %d", log.c_str(), sm.GetCurrentStateName().c_str(), int(sm.NewStatePending()));
            step(0);
        });
        sm.SubscribeToStateChange("s", [&](S s) {
            ++nChange;
            if (stopping) { MC_CHECK(s == S::Error, "after an exception: subscriber told %s", GetStateName(s).c_str()); return; }
            MC_CHECK(s == m.cur, "after%s: subscriber told %s", log.c_str(), GetStateName(s).c_str());
            if (s != S::Error) step(1);
        });
        sm.HandleStates([&](S s) {
            MC_CHECK(s == m.cur, "after%s: handler told %s", log.c_str(), GetStateName(s).c_str());
            step(2);
        });
        step(3);
        try {
            sm.ProcessWork();
        } catch (Stop&) {
            m.cur = m.target = S::Error;
            MC_CHECK(sm.GetCurrentState() == S::Error, "after an exception: %s", sm.GetCurrentStateName().c_str());
            m.pending = sm.NewStatePending();
        } catch (StateMachine::ErrorStateException&) {
            MC_CHECK(m.cur == S::Error, "after%s: error reported", log.c_str());
        }
        if (m.cur == S::Error) for (T t : ALL) attempt(t);
        else if (m.cur == S::Exiting) { for (T t : ALL) if (t != T::ErrorFound) attempt(t); }
        mc::outcome(GetStateName(m.cur));
    }
};
const std::vector<T> PATHS[] = {
    {}, {T::InitDevice}, {T::InitDevice, T::CompleteInit}, {T::InitDevice, T::CompleteInit, T::Bind},
    {T::InitDevice, T::CompleteInit, T::Bind, T::Auto}, {T::InitDevice, T::CompleteInit, T::Bind, T::Auto, T::Connect},
    {T::InitDevice, T::CompleteInit, T::Bind, T::Auto, T::Connect, T::Auto},
    {T::InitDevice, T::CompleteInit, T::Bind, T::Auto, T::Connect, T::Auto, T::InitTask},
    {T::InitDevice, T::CompleteInit, T::Bind, T::Auto, T::Connect, T::Auto, T::InitTask, T::Auto},
    {T::InitDevice, T::CompleteInit, T::Bind, T::Auto, T::Connect, T::Auto, T::InitTask, T::Auto, T::Run},
    {T::InitDevice, T::CompleteInit, T::Bind, T::Auto, T::Connect, T::Auto, T::InitTask, T::Auto, T::ResetTask},
    {T::InitDevice, T::CompleteInit, T::ResetDevice}, {T::End}, {T::ErrorFound},
};
// from each reachable state: every sequence of requests, each made in any callback
void sequences(int depth, bool places)
{
    Seq q;
    auto& path = PATHS[mc::choose(int(std::size(PATHS)), "path")];
    size_t p = 0;
    int left = depth;
    q.bystring = places && mc::flag("string");
    q.run([&](int place) {
        if (p < path.size()) {
            if ((place == 2 || place == 3) && !q.m.pending) MC_CHECK(q.attempt(path[p++]), "path");
            return;
        }
        if (left == 0) { if (place == 2 && !q.m.pending) q.stop(); if (place == 3 && !q.m.pending) { --left; q.attempt(T::End); } return; }
        if (!places && place != 2 && place != 3) return;
        int max = places ? 2 : depth;
        for (int i = 0; i < max && left > 0; ++i) {
            int c = mc::choose(places ? 13 : 12, "t");
            if (c == 12) break;      // nothing more here
            --left;
            q.attempt(ALL[c]);
        }
        if (!q.m.pending && (place == 2 || place == 3)) { left = 0; if (place == 2) q.stop(); q.attempt(T::End); }
    });
}
// every walk along the diagram; in each state all requests the diagram does not have are made first
void walks(int len)
{
    Seq q;
    int left = len;
    q.run([&](int place) {
        if (place == 0 || place == 1) return;
        if (q.m.cur == S::Error || q.m.cur == S::Exiting) { for (T t : ALL) if (t != T::ErrorFound) q.attempt(t); return; }
        std::vector<T> ok;
        for (T t : ALL) { if (q.applicable(t)) { if (t != T::ErrorFound) ok.push_back(t); } else q.attempt(t); }
        if (left == 0) ok = {T::ErrorFound};
        T t = ok[mc::choose(int(ok.size()), "t")];
        if (left) --left;
        q.attempt(t);
        if (t != T::ErrorFound) for (T u : ALL) if (u != T::ErrorFound) q.attempt(u);   // all refused while pending
    });
}
void names()
{
    std::set<std::string> seen;
    for (S s : STATES) {
        auto n = GetStateName(s);
        MC_CHECK(seen.insert(n).second, "state name %s is not unique", n.c_str());
        MC_CHECK(GetState(n) == s, "state name %s", n.c_str());
        std::ostringstream o;
        o << s;
        MC_CHECK(o.str() == n, "printed state name %s", o.str().c_str());
        mc::transition();
    }
    seen.clear();
    for (T t : ALL) {
        auto n = GetTransitionName(t);
        MC_CHECK(seen.insert(n).second, "transition name %s is not unique", n.c_str());
        MC_CHECK(GetTransition(n) == t, "transition name %s", n.c_str());
        std::ostringstream o;
        o << t;
        MC_CHECK(o.str() == n, "printed transition name %s", o.str().c_str());
        mc::transition();
    }
    // everything close to a name: dropped, doubled and changed characters
    auto unknown = [&](auto f, const std::set<std::string>& known, const std::string& x) {
        if (known.count(x)) return;
        mc::transition();
        bool threw = false;
        try { f(x); } catch (std::exception&) { threw = true; }
        MC_CHECK(threw, "the name '%s' is accepted", x.c_str());
    };
    std::set<std::string> ks, kt;
    for (S s : STATES) ks.insert(GetStateName(s));
    for (T t : ALL) kt.insert(GetTransitionName(t));
    auto mutate = [&](auto f, const std::set<std::string>& known) {
        unknown(f, known, "");
        for (auto& n : known) {
            for (size_t i = 0; i <= n.size(); ++i) {
                if (i < n.size()) unknown(f, known, n.substr(0, i) + n.substr(i + 1));
                unknown(f, known, n.substr(0, i));
                for (char c : {' ', '_', 'A', 'a', '\0'}) {
                    unknown(f, known, n.substr(0, i) + c + n.substr(i));
                    if (i < n.size()) unknown(f, known, n.substr(0, i) + c + n.substr(i + 1));
                }
            }
            std::string l = n;
            for (auto& c : l) c = char(tolower(c));
            unknown(f, known, l);
        }
    };
    mutate([](const std::string& x) { GetState(x); }, ks);
    mutate([](const std::string& x) { GetTransition(x); }, kt);
    StateMachine sm;
    sm.Start();
    bool threw = false;
    try { sm.ChangeState("INIT_DEVICE"); } catch (std::exception&) { threw = true; }
    MC_CHECK(threw && sm.GetCurrentState() == S::Idle && !sm.NewStatePending(), "unknown transition name changed something");
}
#else
using H = History<Model>;
struct Env
{
    StateMachine sm;
    H h;
    std::vector<S> prep, sub, sub2, hand;
    std::vector<T> accepted;
    int nTrue = 0;
    int take = -1;
    std::vector<std::thread> th;
    std::function<void(S)> onHandler, onPrep, onSub;
    bool thrown = false;

    Env()
    {
        sm.Start();
        sm.SubscribeToNewTransition("t", [this](T t) { mc::Quiet q; accepted.push_back(t); });
        sm.PrepareState([this](S s) {
            {
                mc::Quiet q;
                prep.push_back(s);
                h.ret(take, [s](Model& m) { return m.take(s); }, GetStateName(s));
                take = -1;
            }
            if (onPrep) onPrep(s);
        });
        sm.SubscribeToStateChange("s", [this](S s) { { mc::Quiet q; sub.push_back(s); } if (onSub) onSub(s); });
        sm.SubscribeToStateChange("7", [this](S s) { mc::Quiet q; sub2.push_back(s); });
        sm.HandleStates([this](S s) {
            { mc::Quiet q; hand.push_back(s); }
            if (onHandler) onHandler(s);
            mc::Quiet q;
            if (s != S::Error && s != S::Exiting) take = h.call("take");
        });
    }
    bool req(T t)
    {
        int i;
        { mc::Quiet q; i = h.call(GetTransitionName(t)); }
        bool r = sm.ChangeState(t);
        {
            mc::Quiet q;
            nTrue += r;
            h.ret(i, [t, r](Model& m) { return m.request(t) == r; }, r ? "true" : "false");
        }
        return r;
    }
    void drive()
    {
        { mc::Quiet q; take = h.call("take"); }
        bool err = false;
        try { sm.ProcessWork(); } catch (Stop&) { thrown = true; } catch (StateMachine::ErrorStateException&) { err = true; }
        mc::Quiet q;
        S s = sm.GetCurrentState();
        MC_CHECK(err == (!thrown && s == S::Error), "the run ended in %s with error=%d", GetStateName(s).c_str(), int(err));
        MC_CHECK(s == S::Error || (s == S::Exiting && !thrown), "the run ended in state %s", GetStateName(s).c_str());
        if (take >= 0) {      // an exception: the machine is in the error state
            MC_CHECK(false, "state machine run ended while waiting");
        }
    }
    std::string str(const std::vector<S>& v) { std::string r; for (auto s : v) r += " " + GetStateName(s); return r; }
    void finish()
    {
        for (auto& t : th) t.join();
        mc::Quiet q;
        // visits: the accepted requests in order, minus at most the one an error overtook
        std::vector<S> want;
        Model m;
        MC_CHECK(int(accepted.size()) - int(thrown && !(prep.size() && prep.back() == S::Error) ) <= nTrue + int(thrown) && int(accepted.size()) >= nTrue, "%zu transitions notified, %d requests returned true", accepted.size(), nTrue);
        std::vector<S> s0 = {S::Idle};
        s0.insert(s0.end(), prep.begin(), prep.end());
        if (!thrown) {
            MC_CHECK(prep == hand, "state preparation:%s, handler:%s", str(prep).c_str(), str(hand).c_str());
            MC_CHECK(sub == s0 && sub2 == s0, "visited:%s, subscribers:%s /%s", str(s0).c_str(), str(sub).c_str(), str(sub2).c_str());
        } else {
            auto cnt = [&](std::vector<S>& v) { int n = 0; for (auto s : v) n += s == S::Error; return n; };
            MC_CHECK(cnt(sub) == 1 && cnt(sub2) == 1, "subscribers learned of the error %d/%d times:%s", cnt(sub), cnt(sub2), str(sub).c_str());
        }
        // model replay of the accepted sequence
        for (T t : accepted) {
            S to;
            MC_CHECK(arrow(m.target, t, to), "accepted transitions do not form a path");
            m.target = to;
            want.push_back(to);
        }
        if (thrown) { while (!want.empty() && want.size() > prep.size()) want.pop_back(); }
        else if (!prep.empty() && prep.back() == S::Exiting) { if (want.back() == S::Error) want.pop_back(); }   // nothing runs any more
        else if (!want.empty() && want.back() == S::Error && want.size() == prep.size() + 1) want.erase(want.end() - 2);
        MC_CHECK(want == prep || (thrown && prep.size() && want.size() && prep.back() == S::Error), "accepted transitions lead to%s, visited%s", str(want).c_str(), str(prep).c_str());
        if (!thrown) h.check();
        std::string o = str(prep);
        mc::outcome(o + (thrown ? "!" : ""));
        mc::trace_validated();
    }
};
T pick(std::initializer_list<T> l) { return *(l.begin() + mc::choose(int(l.size()), "t")); }

// requesters against the driving thread
void requests(std::vector<std::vector<T>> alt1, std::vector<std::vector<T>> alt2, bool startEarly)
{
    auto seq1 = alt1[mc::choose(int(alt1.size()), "seq1")], seq2 = alt2[mc::choose(int(alt2.size()), "seq2")];
    Env e;
    if (startEarly) e.th.emplace_back([&] { e.drive(); });
    std::thread r1([&] { for (T t : seq1) e.req(t); }), r2([&] { for (T t : seq2) e.req(t); });
    if (!startEarly) e.th.emplace_back([&] { e.drive(); });
    r1.join();
    r2.join();
    S s = e.sm.GetCurrentState();
    MC_CHECK(s != S::Ok && s != S::Undefined, "state %s", GetStateName(s).c_str());
    e.req(T::ErrorFound);
    e.finish();
}
// the handler waits for the next request
void pendingwait(int how)
{
    Env e;
    int waits = 0;
    e.onHandler = [&](S s) {
        if (s == S::Error || s == S::Exiting) return;
        if (how == 0) e.sm.WaitForPendingState();
        else if (how == 1) { while (!e.sm.WaitForPendingStateFor(100)) { MC_CHECK(++waits < 40, "handler not woken"); } }
        else {
            int64_t t0 = mc::now_ns();
            bool r = e.sm.WaitForPendingStateFor(50);
            MC_CHECK(r || mc::now_ns() - t0 >= 50000000, "timed out early");
            if (!r) return;
        }
        MC_CHECK(e.sm.NewStatePending(), "woken without a pending state");
    };
    e.th.emplace_back([&] { e.drive(); });
    std::thread r1([&] { e.req(T::InitDevice); e.req(T::CompleteInit); }), r2([&] { e.req(pick({T::ErrorFound, T::CompleteInit, T::Bind})); });
    r1.join();
    r2.join();
    e.req(T::ErrorFound);
    e.finish();
}
// waiters outside the machine while nothing consumes the pending state
void outsidewait()
{
    Env e;
    std::thread w1([&] { e.sm.WaitForPendingState(); MC_CHECK(e.sm.NewStatePending(), "not pending"); });
    std::thread w2([&] {
        int64_t t0 = mc::now_ns();
        bool r = e.sm.WaitForPendingStateFor(20);
        MC_CHECK(r ? e.sm.NewStatePending() : mc::now_ns() - t0 >= 20000000, "timed wait returned %d", int(r));
        mc::outcome(r ? "woken" : "timeout");
    });
    MC_CHECK(e.req(pick({T::InitDevice, T::ErrorFound})), "refused");
    w1.join();
    w2.join();
    e.th.emplace_back([&] { e.drive(); });
    e.req(T::ErrorFound);
    e.finish();
}
// an exception leaves a callback while others make requests
void exceptions(bool reenter)
{
    int where = mc::choose(3, "where");
    Env e;
    auto boom = [&](S s) { if (s == S::InitializingDevice) throw Stop(); };
    if (where == 0) e.onHandler = boom; else if (where == 1) e.onPrep = boom;
    bool tried = false;
    e.onSub = [&](S s) {
        if (where == 2) boom(s);
        if (s == S::Error) {
            // the machine is in the error state: nothing is accepted
            MC_CHECK(e.sm.GetCurrentState() == S::Error, "told about the error state while in %s", e.sm.GetCurrentStateName().c_str());
            if (reenter) { tried = true; for (T t : {T::CompleteInit, T::End, T::ErrorFound}) { bool r = e.sm.ChangeState(t); MC_CHECK(!r, "%s accepted in the error state", GetTransitionName(t).c_str()); } }
        }
    };
    e.th.emplace_back([&] { e.drive(); });
    std::thread r1([&] { e.req(T::InitDevice); e.req(pick({T::CompleteInit, T::ErrorFound})); });
    std::thread r2([&] {
        for (int i = 0; i < 2; ++i) {
            bool err = e.sm.GetCurrentState() == S::Error;
            bool r = e.sm.ChangeState(T::CompleteInit);
            mc::Quiet q;
            e.nTrue += r;
            MC_CHECK(!(err && r), "transition accepted after the error state was reached");
        }
    });
    r1.join();
    r2.join();
    for (auto& t : e.th) t.join();
    e.th.clear();
    MC_CHECK(e.sm.GetCurrentState() == S::Error, "state %s after an exception", e.sm.GetCurrentStateName().c_str());
    for (T t : ALL) { bool r = e.sm.ChangeState(t); MC_CHECK(!r, "%s accepted in the error state", GetTransitionName(t).c_str()); }
    if (reenter) MC_CHECK(tried, "subscriber not told about the error");
    e.finish();
}
// subscriptions come and go while states change
void subscriptions()
{
    Env e;
    int n = 0, after = 0;
    bool gone = false;
    e.th.emplace_back([&] { e.drive(); });
    std::thread u([&] {
        e.sm.SubscribeToStateChange("u", [&](S) { mc::Quiet q; ++n; after += gone; });
        e.sm.SubscribeToNewTransition("v", [&](T) { mc::Quiet q; ++n; });
        e.sm.UnsubscribeFromStateChange("u");
        e.sm.UnsubscribeFromNewTransition("v");
        e.sm.UnsubscribeFromNewTransition("nobody");
    });
    std::thread r([&] { e.req(T::InitDevice); e.req(T::CompleteInit); });
    u.join();
    r.join();
    int k = n;
    (void)k;
    e.req(T::ErrorFound);
    e.finish();
}
// a whole life, with requests issued by the subscribers (the way plugins do it)
void life()
{
    Env e;
    int idle = 0;
    auto next = [&](S s) {
        switch (s) {
            case S::Idle: e.req(idle++ ? T::End : T::InitDevice); break;
            case S::InitializingDevice: e.req(T::CompleteInit); break;
            case S::Initialized: e.req(T::ResetDevice); break;
            case S::ResettingDevice: e.req(T::Auto); break;
            default: break;
        }
    };
    e.onSub = next;
    e.th.emplace_back([&] { e.drive(); });
    std::thread w([&] { T t = pick({T::End, T::ErrorFound}); for (int i = 0; i < 2; ++i) e.req(t); });
    w.join();
    e.req(T::ErrorFound);
    e.finish();
}
#endif
}   // namespace

int main(int argc, char** argv)
{
    std::vector<mc::Scenario> v;
    auto O = [](int p, int pt, double w = 1) { mc::Opts o; o.preemptions = p; o.preemptions_thorough = pt; o.weight = w; o.races = true; o.freecheck = true; return o; };
    using V = std::vector<std::vector<T>>;
    (void)O;
#ifdef C01
    mc::Opts m;
    m.in_main = true;
    v.push_back({"names", "all names, and everything one edit away from a name", names, m});
    v.push_back({"walks", "all walks of 24 (34) steps through the diagram, every other request tried in each state", [] { walks(mc::thorough() ? 34 : 24); }, m});
    v.push_back({"places", "all sequences of up to 2 requests from each reachable state, made from any callback, by value or name", [] { sequences(mc::thorough() ? 3 : 2, true); }, m});
    v.push_back({"sequences", "all sequences of up to 3 requests from each reachable state", [] { sequences(mc::thorough() ? 4 : 3, false); }, m});
#else
    v.push_back({"outside-wait", "waiters outside the machine", outsidewait, O(2, 4)});
    v.push_back({"pending-wait-timed", "handler waits with timeout in a loop", [] { pendingwait(1); }, O(1, 3)});
    v.push_back({"pending-wait-once", "handler waits with timeout once", [] { pendingwait(2); }, O(1, 3)});
    v.push_back({"requests", "two requesters", [] { requests(V{{T::InitDevice}}, V{{T::InitDevice}, {T::End}, {T::ErrorFound}, {T::ErrorFound, T::End}}, true); }, O(2, 3)});
    v.push_back({"requests-2", "two requesters, the driving thread starts late", [] { requests(V{{T::InitDevice, T::CompleteInit}}, V{{T::End}, {T::CompleteInit, T::Bind}, {T::ErrorFound}, {T::CompleteInit, T::InitDevice}}, false); }, O(1, 3)});
    v.push_back({"exceptions", "an exception leaves a callback", [] { exceptions(false); }, O(1, 3)});
    v.push_back({"exceptions-reenter", "an exception leaves a callback, requests from the subscriber", [] { exceptions(true); }, O(1, 2)});
    v.push_back({"life", "requests made by subscribers", life, O(1, 3)});
    v.push_back({"subscriptions", "subscriptions come and go", subscriptions, O(1, 2)});
    v.push_back({"pending-wait", "handler waits without timeout", [] { pendingwait(0); }, O(2, 3)});
#endif
    return mc::run(argc, argv, v);
}
