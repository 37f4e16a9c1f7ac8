// How the stand-in for libzmq (fakezmq.cc) is bound to the real library: every sequence of socket operations
// up to a depth is run on the one that is linked (the same scenarios are built with both) and compared with
// one prediction.  Where libzmq leaves something open (which of several peers is served next, how soon room
// in a queue is noticed) any of the possible results is accepted.
#include "mc.h"
#include <cerrno>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <zmq.h>
#ifndef REAL
#include "fakezmq.h"
#endif
using std::string;
using std::vector;
namespace {
using Msg = vector<string>;
struct Pipe { int from, to; std::deque<Msg> q; int cap; };
struct Sock
{
    void* s = nullptr;
    int type = 0;
    Msg sending;                     // parts of an unfinished message
    Msg receiving; size_t pos = 0;   // rest of a message of which parts were taken
    int tried = -1;
};
struct Net
{
    void* ctx;
    vector<Sock> socks;
    vector<Pipe> pipes;
    string log;
    bool down = false;
    int hwm;
    explicit Net(int h) : hwm(h)
    {
#ifndef REAL
        fakezmq::reset();
#endif
        ctx = zmq_ctx_new();
    }
    ~Net()
    {
        for (auto& s : socks) if (s.s) zmq_close(s.s);
        zmq_ctx_term(ctx);
    }
    int add(int type)
    {
        Sock k;
        k.s = zmq_socket(ctx, type);
        MC_CHECK(k.s, "socket");
        k.type = type;
        int z = 0;
        zmq_setsockopt(k.s, ZMQ_SNDHWM, &hwm, sizeof hwm);
        zmq_setsockopt(k.s, ZMQ_RCVHWM, &hwm, sizeof hwm);
        zmq_setsockopt(k.s, ZMQ_LINGER, &z, sizeof z);
        if (type == ZMQ_SUB) zmq_setsockopt(k.s, ZMQ_SUBSCRIBE, "", 0);
        socks.push_back(std::move(k));
        return int(socks.size()) - 1;
    }
    void pair(int a, int b)          // both directions
    {
        pipes.push_back({a, b, {}, 2 * hwm});
        pipes.push_back({b, a, {}, 2 * hwm});
    }
    void bind(int a, const char* at) { MC_CHECK(zmq_bind(socks[a].s, at) == 0, "bind: %s", zmq_strerror(errno)); }
    void connect(int a, const char* at) { MC_CHECK(zmq_connect(socks[a].s, at) == 0, "connect: %s", zmq_strerror(errno)); }
    void settle() { for (int r = 0; r < 3; ++r) for (auto& s : socks) if (s.s) { int e = 0; size_t n = sizeof e; zmq_getsockopt(s.s, ZMQ_EVENTS, &e, &n); } }

    static bool cansend(int t) { return t != ZMQ_PULL && t != ZMQ_SUB; }
    static bool canrecv(int t) { return t != ZMQ_PUSH && t != ZMQ_PUB; }
    // 0 no, 1 yes, 2 either
    int room(const Pipe& p) const
    {
        int n = int(p.q.size()), lwm = (p.cap + 1) / 2;
        int partly = socks[p.to].receiving.empty() ? 0 : 1;     // may still count
        return n >= p.cap ? 0 : n + partly + lwm - 1 < p.cap ? 1 : 2;
    }
    int writable(int a) const
    {
        auto& s = socks[a];
        if (!cansend(s.type)) return 0;
        if (s.type == ZMQ_PUB || !s.sending.empty()) return 1;
        int best = 0;
        for (auto& p : pipes) if (p.from == a) { int r = room(p); if (r == 1) return 1; if (r) best = r; }
        return best;
    }
    int readable(int a) const
    {
        auto& s = socks[a];
        if (s.pos < s.receiving.size()) return 1;
        if (!canrecv(s.type)) return 0;
        for (auto& p : pipes) if (p.to == a && !p.q.empty()) return 1;
        return 0;
    }
    void send(int a, const string& data, bool more)
    {
        settle();
        auto& s = socks[a];
        zmq_msg_t m;
        zmq_msg_init_size(&m, data.size());
        if (!data.empty()) memcpy(zmq_msg_data(&m), data.data(), data.size());
        int rc = zmq_msg_send(&m, s.s, ZMQ_DONTWAIT | (more ? ZMQ_SNDMORE : 0)), e = errno;
        log += " s" + std::to_string(a) + (more ? "+" : "") + "=" + (rc < 0 ? zmq_strerror(e) : "ok");
        if (rc < 0) {
            MC_CHECK(zmq_msg_size(&m) == data.size() && (data.empty() || memcmp(zmq_msg_data(&m), data.data(), data.size()) == 0), "%s: the message changed", log.c_str());
            zmq_msg_close(&m);
        } else {
            MC_CHECK(size_t(rc) == data.size() && zmq_msg_size(&m) == 0, "%s: returned %d for %zu bytes, %zu left in the message", log.c_str(), rc, data.size(), zmq_msg_size(&m));
            zmq_msg_close(&m);
        }
        if (down) { MC_CHECK(rc < 0 && e == ETERM, "%s: send after the end: %d %s", log.c_str(), rc, zmq_strerror(e)); return; }
        if (!cansend(s.type)) { MC_CHECK(rc < 0 && e == ENOTSUP, "%s: %d %s", log.c_str(), rc, zmq_strerror(e)); return; }
        int w = writable(a);
        if (rc < 0) { MC_CHECK(e == EAGAIN && w != 1, "%s: send failed: %s", log.c_str(), zmq_strerror(e)); return; }
        MC_CHECK(w != 0, "%s: a send succeeded though there is no room", log.c_str());
        s.sending.push_back(data);
        if (more) return;
        Msg full = std::move(s.sending);
        s.sending.clear();
        if (s.type == ZMQ_PUB) { for (auto& p : pipes) if (p.from == a) { if (room(p) == 1) p.q.push_back(full); else if (room(p) == 2) mc::abandon(); } return; }
        vector<Pipe*> c;
        for (auto& p : pipes) if (p.from == a && room(p) != 0) c.push_back(&p);
        if (c.size() == 1) { c[0]->q.push_back(full); return; }
        // several peers: look which one became readable
        settle();
        Pipe* got = nullptr;
        for (auto* p : c) {
            // content tells messages apart; receivers with messages queued keep them in order, so just remember that one of them has it
            if (p->q.empty() && events(p->to) & ZMQ_POLLIN) got = p;
        }
        if (!got) { floating.push_back({full, c}); return; }
        got->q.push_back(full);
    }
    struct Floating { Msg m; vector<Pipe*> where; };
    vector<Floating> floating;       // messages one of several peers has
    int events(int a) { int e = 0; size_t n = sizeof e; MC_CHECK(zmq_getsockopt(socks[a].s, ZMQ_EVENTS, &e, &n) == 0, "%s: events", log.c_str()); return e; }
    void recv(int a, bool msg)
    {
        settle();
        auto& s = socks[a];
        string data;
        int rc, e;
        if (msg) {
            zmq_msg_t m;
            zmq_msg_init(&m);
            rc = zmq_msg_recv(&m, s.s, ZMQ_DONTWAIT); e = errno;
            if (rc >= 0) data.assign(static_cast<char*>(zmq_msg_data(&m)), zmq_msg_size(&m));
            zmq_msg_close(&m);
        } else {
            char buf[64];
            rc = zmq_recv(s.s, buf, sizeof buf, ZMQ_DONTWAIT); e = errno;
            if (rc >= 0) data.assign(buf, std::min(size_t(rc), sizeof buf));
        }
        log += " r" + std::to_string(a) + "=" + (rc < 0 ? zmq_strerror(e) : "'" + data + "'");
        if (down) { MC_CHECK(rc < 0 && e == ETERM, "%s: receive after the end: %d %s", log.c_str(), rc, zmq_strerror(e)); return; }
        if (!canrecv(s.type)) { MC_CHECK(rc < 0 && e == ENOTSUP, "%s: %d %s", log.c_str(), rc, zmq_strerror(e)); return; }
        if (rc < 0) { MC_CHECK(e == EAGAIN && !readable(a), "%s: receive failed: %s", log.c_str(), zmq_strerror(e)); return; }
        MC_CHECK(size_t(rc) == data.size(), "%s: %d bytes", log.c_str(), rc);
        if (s.pos >= s.receiving.size()) {
            bool found = false;
            for (auto& p : pipes) if (p.to == a && !p.q.empty() && p.q.front()[0] == data) { s.receiving = p.q.front(); p.q.pop_front(); found = true; break; }
            if (!found) for (size_t i = 0; i < floating.size() && !found; ++i)
                if (floating[i].m[0] == data) for (auto* p : floating[i].where) if (p->to == a) { s.receiving = floating[i].m; floating.erase(floating.begin() + long(i)); found = true; break; }
            MC_CHECK(found, "%s: nobody sent that", log.c_str());
            s.pos = 0;
        }
        MC_CHECK(s.receiving[s.pos] == data, "%s: expected '%s'", log.c_str(), s.receiving[s.pos].c_str());
        ++s.pos;
        int more = 0; size_t n = sizeof more;
        zmq_getsockopt(s.s, ZMQ_RCVMORE, &more, &n);
        MC_CHECK(bool(more) == (s.pos < s.receiving.size()), "%s: more: %d", log.c_str(), more);
        if (!more) { s.receiving.clear(); s.pos = 0; }
    }
    void poll()
    {
        settle();
        vector<zmq_pollitem_t> it;
        for (auto& s : socks) if (s.s) it.push_back({s.s, 0, ZMQ_POLLIN | ZMQ_POLLOUT, 0});
        if (it.empty()) return;
        int rc = zmq_poll(it.data(), int(it.size()), 0), e = errno;
        log += " p";
        if (down) { MC_CHECK(rc < 0 && e == ETERM, "%s: poll after the end: %d %s", log.c_str(), rc, zmq_strerror(e)); return; }
        MC_CHECK(rc >= 0, "%s: poll: %s", log.c_str(), zmq_strerror(e));
        size_t k = 0;
        int ready = 0;
        for (size_t a = 0; a < socks.size(); ++a) if (socks[a].s) {
            short r = it[k++].revents;
            if (r) ++ready;
            int ro = readable(int(a)), wo = writable(int(a));
            if (socks[a].type == ZMQ_REQ || socks[a].type == ZMQ_REP) wo = 2;
            if (socks[a].s && !floating.empty()) ro = ro ? ro : 2;
            if (!floating.empty()) wo = wo ? 2 : 0;
            MC_CHECK(ro == 2 || bool(r & ZMQ_POLLIN) == bool(ro), "%s: socket %zu readable: %d", log.c_str(), a, r);
            MC_CHECK(wo == 2 || bool(r & ZMQ_POLLOUT) == bool(wo), "%s: socket %zu writable: %d", log.c_str(), a, r);
        }
        MC_CHECK(rc == ready, "%s: poll returned %d for %d ready sockets", log.c_str(), rc, ready);
    }
    void shutdown() { zmq_ctx_shutdown(ctx); down = true; log += " end"; }
};
void body(const vector<int>& types, const vector<std::pair<int, int>>& links, int hwm, int depth)
{
    Net n(hwm);
    for (int t : types) n.add(t);
    bool connectfirst = types[0] != ZMQ_PAIR && mc::flag("connect first");      // (the stand-in takes that for a socket monitor)
    // the first of a link binds
    vector<bool> bound(types.size());
    if (connectfirst) for (auto& l : links) n.connect(l.second, ("inproc://e" + std::to_string(l.first)).c_str());
    for (auto& l : links) if (!bound[size_t(l.first)]) { n.bind(l.first, ("inproc://e" + std::to_string(l.first)).c_str()); bound[size_t(l.first)] = true; }
    if (!connectfirst) for (auto& l : links) n.connect(l.second, ("inproc://e" + std::to_string(l.first)).c_str());
    for (auto& l : links) n.pair(l.first, l.second);
    for (int i = 0; i < 3; ++i) n.settle();
    bool ordered = false;       // req/rep: alternate
    for (int t : types) if (t == ZMQ_REQ) ordered = true;
    int k = 0, turn = 0;
    for (int step = 0; step < depth; ++step) {
        int ns = int(types.size());
        if (ordered) {
            // request, reply, ...: turn 0 req sends, 1 rep receives, 2 rep sends, 3 req receives; with polls anywhere
            int c = mc::choose(4, "op");
            int a = turn == 0 || turn == 3 ? 1 : 0;
            if (c == 3) { n.poll(); continue; }
            bool sends = turn == 0 || turn == 2;
            bool more = c == 1;
            if (sends) { n.send(a, "m" + std::to_string(k++), more); if (!more) turn = (turn + 1) % 4; }
            else { n.recv(a, c != 1); if (n.socks[size_t(a)].receiving.empty()) turn = (turn + 1) % 4; }
            mc::transition();
            continue;
        }
        int c = mc::choose(ns * 3 + 2, "op");
        if (c == ns * 3) n.poll();
        else if (c == ns * 3 + 1) { n.shutdown(); for (int a = 0; a < ns; ++a) if (n.socks[size_t(a)].s) { n.send(a, "x", false); n.recv(a, true); } n.poll(); break; }
        else {
            int a = c / 3;
            switch (c % 3) {
                case 0: n.send(a, k % 2 ? "" : "m" + std::to_string(k), false); ++k; break;
                case 1: n.send(a, "p" + std::to_string(k++), true); break;
                case 2: n.recv(a, step % 2); break;
            }
        }
        mc::transition();
    }
    mc::outcome(n.down ? "end" : "open");
    mc::trace_validated();
}
}
int main(int argc, char** argv)
{
    vector<mc::Scenario> v;
    mc::Opts o;
    o.preemptions = 0;
#ifdef REAL
    const char* w = "every sequence of socket operations, the real libzmq";
#else
    const char* w = "every sequence of socket operations, the stand-in for libzmq";
#endif
    auto add = [&](const char* n, vector<int> t, vector<std::pair<int, int>> l, int hwm, int depth) { v.push_back({n, w, [=] { body(t, l, hwm, depth + (mc::thorough() ? 1 : 0)); }, o}); };
    add("push_pull", {ZMQ_PUSH, ZMQ_PULL}, {{0, 1}}, 1, 5);
    add("push_pull_2", {ZMQ_PUSH, ZMQ_PULL}, {{0, 1}}, 2, 5);
    add("pair", {ZMQ_PAIR, ZMQ_PAIR}, {{0, 1}}, 1, 5);
    add("fan_in", {ZMQ_PULL, ZMQ_PUSH, ZMQ_PUSH}, {{0, 1}, {0, 2}}, 1, 4);
    add("fan_out", {ZMQ_PUSH, ZMQ_PULL, ZMQ_PULL}, {{0, 1}, {0, 2}}, 1, 4);
    add("pub_sub", {ZMQ_PUB, ZMQ_SUB, ZMQ_SUB}, {{0, 1}, {0, 2}}, 4, 4);
    add("req_rep", {ZMQ_REP, ZMQ_REQ}, {{0, 1}}, 1, 7);
    return mc::run(argc, argv, v);
}
