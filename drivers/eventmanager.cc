// C04: fair::mq::EventManager
#include "mc.h"
#include <fairmq/EventManager.h>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>
using namespace fair::mq;

namespace {
struct E1 : Event<int> {};
struct E2 : Event<std::string> {};
struct E3 : Event<int> {};

// ---- signatures: 0 E1<int> 1 E1<string> 2 E2<string> 3 E3<int> 4 PropertyChangeAsString<string> 5 E2<string,int> 6 E1<>
constexpr int NSIG = 7;
struct Call { int cb, sig; std::string key, arg; };

struct Bus
{
    EventManager em;
    std::vector<Call> calls;
    std::vector<int> ncalls;           // per callback id, total
    std::function<void(int)> hook;     // called from inside callbacks

    void rec(int cb, int sig, const std::string& k, const std::string& a)
    {
        {
            mc::Quiet q;
            calls.push_back({cb, sig, k, a});
        }
        if (hook) hook(cb);
    }
    void sub(const std::string& who, int sig, int cb)
    {
        switch (sig) {
            case 0: em.Subscribe<E1, int>(who, std::function<void(int, int)>([=](int k, int a) { rec(cb, 0, std::to_string(k), std::to_string(a)); })); break;
            case 1: em.Subscribe<E1, std::string>(who, std::function<void(int, std::string)>([=](int k, std::string a) { rec(cb, 1, std::to_string(k), a); })); break;
            case 2: em.Subscribe<E2, std::string>(who, std::function<void(std::string, std::string)>([=](std::string k, std::string a) { rec(cb, 2, k, a); })); break;
            case 3: em.Subscribe<E3, int>(who, std::function<void(int, int)>([=](int k, int a) { rec(cb, 3, std::to_string(k), std::to_string(a)); })); break;
            case 4: em.Subscribe<PropertyChangeAsString, std::string>(who, std::function<void(std::string, std::string)>([=](std::string k, std::string a) { rec(cb, 4, k, a); })); break;
            case 5: em.Subscribe<E2, std::string, int>(who, std::function<void(std::string, std::string, int)>([=](std::string k, std::string a, int b) { rec(cb, 5, k, a + std::to_string(b)); })); break;
            case 6: em.Subscribe<E1>(who, std::function<void(int)>([=](int k) { rec(cb, 6, std::to_string(k), ""); })); break;
        }
    }
    bool unsub(const std::string& who, int sig)
    {
        try {
            switch (sig) {
                case 0: em.Unsubscribe<E1, int>(who); break;
                case 1: em.Unsubscribe<E1, std::string>(who); break;
                case 2: em.Unsubscribe<E2, std::string>(who); break;
                case 3: em.Unsubscribe<E3, int>(who); break;
                case 4: em.Unsubscribe<PropertyChangeAsString, std::string>(who); break;
                case 5: em.Unsubscribe<E2, std::string, int>(who); break;
                case 6: em.Unsubscribe<E1>(who); break;
            }
        } catch (std::exception&) { return false; }
        return true;
    }
    void emit(int sig, int v, std::string& key, std::string& arg)
    {
        std::string s = "a long enough string argument " + std::to_string(v);
        key = std::to_string(v);
        arg = s;
        switch (sig) {
            case 0: arg = std::to_string(v * 3); em.Emit<E1, int>(v, v * 3); break;
            case 1: em.Emit<E1, std::string>(v, s); break;
            case 2: em.Emit<E2, std::string>(key, s); break;
            case 3: arg = std::to_string(v * 3); em.Emit<E3, int>(v, v * 3); break;
            case 4: em.Emit<PropertyChangeAsString, std::string>(key, s); break;
            case 5: arg = s + std::to_string(v * 3); em.Emit<E2, std::string, int>(key, s, v * 3); break;
            case 6: arg = ""; em.Emit<E1>(v); break;
        }
    }
};
const char* WHO[] = {"alice", "bob", ""};

// every sequence of subscribe/unsubscribe, all events emitted after each step
void sequential(int nsub, std::vector<int> sigs, int depth)
{
    Bus b;
    std::map<std::pair<int, int>, int> m;      // (who, sig) -> callback
    int next = 0, v = 0;
    std::string ops;
    auto emitall = [&] {
        for (int sig : sigs) {
            std::string k, a;
            b.calls.clear();
            b.emit(sig, ++v, k, a);
            std::map<int, int> want;
            for (auto& x : m) if (x.first.second == sig) want[x.second] = 1;
            for (auto& c : b.calls) {
                MC_CHECK(want.count(c.cb), "%s: callback %d called for signature %d although not subscribed", ops.c_str(), c.cb, sig);
                MC_CHECK(--want[c.cb] == 0, "%s: callback %d called more than once", ops.c_str(), c.cb);
                MC_CHECK(c.key == k && c.arg == a && c.sig == sig, "%s: callback got (%s,%s), emitted (%s,%s)", ops.c_str(), c.key.c_str(), c.arg.c_str(), k.c_str(), a.c_str());
            }
            for (auto& x : want) MC_CHECK(x.second == 0, "%s: callback %d not called", ops.c_str(), x.first);
        }
    };
    int n = int(sigs.size());
    for (int i = 0; i < depth; ++i) {
        int op = mc::choose(nsub * n * 2 + 1, "op");
        mc::transition();
        if (op == nsub * n * 2) { ops += " emit"; emitall(); continue; }
        int who = op % nsub, sig = sigs[(op / nsub) % n];
        bool un = op / nsub / n;
        ops += std::string(un ? " unsub " : " sub ") + WHO[who] + "/" + std::to_string(sig);
        if (un) {
            bool had = m.erase({who, sig});
            bool ok = b.unsub(WHO[who], sig);
            MC_CHECK(!had || ok, "%s: unsubscribe failed", ops.c_str());
        } else {
            int cb = next++;
            b.sub(WHO[who], sig, cb);
            m[{who, sig}] = cb;
        }
        // the last step decides whether earlier ones are observed through an emission in between
        if (i + 1 == depth) emitall();
        uint64_t h = 0;
        for (auto& x : m) h |= 1ull << (x.first.first * 8 + x.first.second);
        mc::state(h);
    }
    emitall();
    mc::outcome(std::to_string(m.size()));
}

// subscribing, unsubscribing and emitting from within a callback
void reentrant()
{
    Bus b;
    int what = mc::choose(6, "what");
    int sig = mc::choose(NSIG, "sig");
    bool done = false;
    b.sub("alice", sig, 1);
    b.sub("bob", sig, 2);
    b.hook = [&](int cb) {
        if (done || cb != 1) return;
        done = true;
        std::string k, a;
        switch (what) {
            case 0: b.unsub("alice", sig); break;
            case 1: b.unsub("bob", sig); break;
            case 2: b.sub("carol", sig, 3); break;
            case 3: b.sub("alice", sig, 3); break;
            case 4: b.emit(sig, 77, k, a); break;
            case 5: b.sub("carol", (sig + 1) % NSIG, 3); b.emit((sig + 1) % NSIG, 5, k, a); break;
        }
    };
    std::string k, a;
    b.emit(sig, 1, k, a);
    int n[4] = {0, 0, 0, 0};
    for (auto& c : b.calls) n[c.cb]++;
    MC_CHECK(n[1] == (what == 4 ? 2 : 1), "first callback called %d times", n[1]);
    if (what != 1) MC_CHECK(n[2] == (what == 4 ? 2 : 1), "second callback called %d times", n[2]);
    if (what == 5) MC_CHECK(n[3] == 1, "nested emission reached %d", n[3]);
    b.calls.clear();
    b.emit(sig, 2, k, a);
    for (int& x : n) x = 0;
    for (auto& c : b.calls) { n[c.cb]++; MC_CHECK(c.key == k && c.arg == a, "arguments wrong"); }
    MC_CHECK(n[1] == (what == 0 || what == 3 ? 0 : 1), "first callback called %d times in the second emission", n[1]);
    MC_CHECK(n[2] == (what == 1 ? 0 : 1), "second callback called %d times in the second emission", n[2]);
    MC_CHECK(n[3] == (what == 2 || what == 3 ? 1 : 0), "new callback called %d times in the second emission", n[3]);
    mc::outcome(std::to_string(what));
}

// ---- concurrent: intervals of subscriptions and emissions
struct Iv { long b = -1, e = -1; };
struct Conc : Bus
{
    long t = 0;
    std::map<int, Iv> on, off;                 // per callback: subscribe call, unsubscribe/replace call
    std::map<int, int> sigof;
    struct Em { int sig, v; Iv iv; };
    std::vector<Em> ems;
    std::map<std::pair<std::string, int>, int> last;

    void S(const std::string& who, int sig, int cb)
    {
        int old = -1;
        { mc::Quiet q; on[cb].b = t++; sigof[cb] = sig; auto it = last.find({who, sig}); if (it != last.end()) { old = it->second; off[old].b = t; } last[{who, sig}] = cb; }
        sub(who, sig, cb);
        { mc::Quiet q; on[cb].e = t++; if (old >= 0) off[old].e = t; }
    }
    void U(const std::string& who, int sig)
    {
        int old = -1;
        { mc::Quiet q; auto it = last.find({who, sig}); if (it != last.end()) { old = it->second; off[old].b = t++; last.erase(it); } }
        bool ok = unsub(who, sig);
        mc::Quiet q;
        if (old >= 0) off[old].e = t++;
        if (old >= 0 && on[old].e >= 0 && on[old].e < off[old].b && !ok) mc::fail("unsubscribe of a subscribed party failed");
    }
    void M(int sig, int v)
    {
        size_t i;
        { mc::Quiet q; i = ems.size(); ems.push_back({sig, v, {t++, -1}}); }
        std::string k, a;
        emit(sig, v, k, a);
        mc::Quiet q;
        ems[i].iv.e = t++;
    }
    void check()
    {
        mc::Quiet q;
        std::string o;
        for (auto& e : ems)
            for (auto& c : on) {
                int n = 0;
                for (auto& x : calls) if (x.cb == c.first && x.key == std::to_string(e.v)) ++n;
                if (sigof[c.first] != e.sig) { if (n) mc::fail("callback %d called for another event", c.first); continue; }
                o += char('0' + n);
                bool must = c.second.e < e.iv.b, mustnot = c.second.b > e.iv.e;
                auto f = off.find(c.first);
                if (f != off.end()) { if (f->second.b < e.iv.e) must = false; if (f->second.e >= 0 && f->second.e < e.iv.b) mustnot = true; }
                if (n > 1) mc::fail("callback %d called %d times for one emission", c.first, n);
                if (must && n != 1) mc::fail("callback %d, subscribed before the emission of %d, was not called", c.first, e.v);
                if (mustnot && n != 0) mc::fail("callback %d called for emission %d after it was unsubscribed", c.first, e.v);
            }
        mc::outcome(o);
    }
};
void threads(Conc& c, std::vector<std::function<void()>> f)
{
    std::vector<std::thread> th;
    for (auto& x : f) th.emplace_back(x);
    for (auto& x : th) x.join();
    // afterwards: exactly the remaining subscriptions are served
    c.M(0, 900);
    c.M(1, 901);
    c.check();
}
// the same subscriber subscribes (and unsubscribes) from several threads: at most one callback stays, none leaks
void same(bool unsub, bool pre)
{
    Bus b;
    if (pre) b.sub("alice", 0, 1);
    std::vector<std::thread> th;
    th.emplace_back([&] { b.sub("alice", 0, 2); });
    th.emplace_back([&] { if (unsub) b.unsub("alice", 0); else b.sub("alice", 0, 3); });
    for (auto& x : th) x.join();
    int n[4] = {0, 0, 0, 0};
    std::string k, a;
    b.emit(0, 5, k, a);
    for (auto& c : b.calls) n[c.cb]++;
    MC_CHECK(n[1] == 0, "replaced callback called");
    MC_CHECK(n[2] + n[3] <= 1 && (unsub || n[2] + n[3] == 1), "after concurrent subscriptions of one subscriber %d callbacks are called", n[2] + n[3]);
    mc::outcome(std::to_string(n[2]) + std::to_string(n[3]));
    b.unsub("alice", 0);
    b.calls.clear();
    b.emit(0, 6, k, a);
    MC_CHECK(b.calls.empty(), "a callback stays connected after the unsubscription");
}
}   // namespace

int main(int argc, char** argv)
{
    mc::Opts o;
    o.races = true;
    o.freecheck = true;
    o.preemptions = 3;
    o.preemptions_thorough = 4;
    o.sched_atomics = true;
    mc::Opts q = o;
    q.preemptions = 0;
    q.preemptions_thorough = 0;
    q.races = false;
    q.in_main = true;
    std::vector<mc::Scenario> s{
        {"sub_sub", "two first subscriptions to one event at the same time", [] { Conc c; threads(c, {[&] { c.S("alice", 0, 1); }, [&] { c.S("bob", 0, 2); }}); }, o},
        {"sub_sub_types", "first subscriptions to different argument types, and an emission", [] { Conc c; threads(c, {[&] { c.S("alice", 0, 1); }, [&] { c.S("alice", 1, 2); }, [&] { c.M(0, 5); }}); }, o},
        {"sub_emit", "subscribe against emit", [] { Conc c; c.S("bob", 0, 7); threads(c, {[&] { c.S("alice", 0, 1); }, [&] { c.M(0, 5); c.M(0, 6); }}); }, o},
        {"unsub_emit", "unsubscribe against emit", [] { Conc c; c.S("bob", 0, 7); c.S("alice", 0, 1); threads(c, {[&] { c.U("alice", 0); }, [&] { c.M(0, 5); c.M(0, 6); }}); }, o},
        {"resub_emit", "re-subscription against emit", [] { Conc c; c.S("bob", 0, 7); c.S("alice", 0, 1); threads(c, {[&] { c.S("alice", 0, 2); }, [&] { c.M(0, 5); }}); }, o},
        {"emit_emit", "two emissions at the same time", [] { Conc c; c.S("bob", 0, 7); c.S("alice", 0, 1); threads(c, {[&] { c.M(0, 4); }, [&] { c.M(0, 5); }}); }, o},
        {"unsub_unsub", "two parties leave while a third subscribes", [] { Conc c; c.S("bob", 0, 7); c.S("alice", 0, 1); threads(c, {[&] { c.U("alice", 0); }, [&] { c.U("bob", 0); }, [&] { c.S("carol", 0, 3); }}); }, o},
        {"unsub_sub", "one party leaves and comes back while another emits", [] { Conc c; c.S("alice", 0, 1); threads(c, {[&] { c.U("alice", 0); c.S("alice", 0, 2); }, [&] { c.M(0, 5); }}); }, o},
        {"same_sub", "one subscriber subscribes from two threads", [] { same(false, false); }, o},
        {"same_resub", "one subscriber replaces its callback from two threads", [] { same(false, true); }, o},
        {"same_unsub", "one subscriber replaces and removes its callback from two threads", [] { same(true, true); }, o},
        {"reentrant", "subscribe/unsubscribe/emit from inside a callback", reentrant, q},
        {"seq7", "all sequences over 2 subscribers and 7 signatures", [] { sequential(2, {0, 1, 2, 3, 4, 5, 6}, mc::thorough() ? 4 : 3); }, q},
        {"seq2", "all sequences over 2 subscribers and 2 signatures of one event", [] { sequential(2, {0, 1}, mc::thorough() ? 7 : 5); }, q},
        {"seq1", "all sequences over 3 subscribers (one with empty name) and 1 signature", [] { sequential(3, {2}, mc::thorough() ? 7 : 5); }, q},
    };
    return mc::run(argc, argv, s);
}
