#include "fakezmq.h"
#include "mc.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>

namespace fakezmq {
std::function<int(Op, void*)> fault;
std::function<int(const std::string&)> bindfault;
std::function<int(Op, void*)> midfault;
std::function<std::pair<bool, bool>(void*)> readiness;
int last_flags = 0;
std::vector<Attach> attaches;
long blocked_nowait = 0, shortmsgs = 0, polls = 0;
namespace {
struct Ctx { bool terminated = false; int sockets = 0; };
struct Frame
{
    zmq_msg_t m;
    Frame() { zmq_msg_init(&m); }
    ~Frame() { zmq_msg_close(&m); }
    Frame(const Frame&) = delete;
};
using Multi = std::vector<std::unique_ptr<Frame>>;
struct Sock;
struct Pipe { Sock* from; Sock* to; std::deque<Multi> q; };
struct Sock
{
    Ctx* ctx = nullptr;
    int type = 0, sndhwm = 1000, rcvhwm = 1000, sndtimeo = -1, rcvtimeo = -1, linger = -1, sndbuf = -1, rcvbuf = -1;
    std::string identity;
    std::vector<std::shared_ptr<Pipe>> out, in;
    size_t rro = 0, rri = 0;
    std::vector<std::string> bound, connected;
    Multi sending, receiving;
    std::shared_ptr<Pipe> lastin, outpipe;
    size_t recvpos = 0;
    bool more = false;
    bool monitor = false;
    long serial = 0;
};
struct World
{
    std::mutex m;
    std::condition_variable cv;
    std::map<std::string, Sock*> bound;
    std::multimap<std::string, Sock*> pending;
    std::set<Sock*> socks;
    std::set<Ctx*> ctxs;
    long serials = 0;
};
World* w = nullptr;
World& W() { if (!w) w = new World; return *w; }
void link(Sock* a, Sock* b)
{
    auto p = std::make_shared<Pipe>(); p->from = a; p->to = b;
    auto r = std::make_shared<Pipe>(); r->from = b; r->to = a;
    a->out.push_back(p); b->in.push_back(p);
    b->out.push_back(r); a->in.push_back(r);
}
bool cansend(int t) { return t != ZMQ_PULL && t != ZMQ_SUB; }
bool canrecv(int t) { return t != ZMQ_PUSH && t != ZMQ_PUB; }
bool room(const Pipe& p)
{
    size_t cap = (p.from->sndhwm == 0 || p.to->rcvhwm == 0) ? size_t(-1) : size_t(p.from->sndhwm) + size_t(p.to->rcvhwm);
    return p.q.size() < cap;
}
bool writable(Sock* s)
{
    if (!cansend(s->type)) return false;
    if (s->type == ZMQ_PUB || s->type == ZMQ_XPUB) return true;
    if (s->type == ZMQ_REP) return s->lastin != nullptr;
    for (auto& p : s->out) if (room(*p)) return true;
    return false;
}
bool readable(Sock* s)
{
    if (s->recvpos < s->receiving.size()) return true;
    if (!canrecv(s->type)) return false;
    for (auto& p : s->in) if (!p->q.empty()) return true;
    return false;
}
// waits until ready() or the time-out; returns 0, EAGAIN, ETERM
int await(std::unique_lock<std::mutex>& l, Sock* s, int timeo, bool dontwait, const std::function<bool()>& ready)
{
    auto& x = W();
    if (s->ctx->terminated) return ETERM;
    if (ready()) return 0;
    if (dontwait) return EAGAIN;
#ifdef MC_SEQ
    mc::advance_ns(int64_t(timeo < 0 ? 1000 : timeo) * 1000000);
    return EAGAIN;
#else
    if (timeo < 0) {
        x.cv.wait(l, [&] { return s->ctx->terminated || ready(); });
        return s->ctx->terminated ? ETERM : 0;
    }
    auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(timeo);
    while (!ready() && !s->ctx->terminated)
        if (x.cv.wait_until(l, until) == std::cv_status::timeout) break;
    if (s->ctx->terminated) return ETERM;
    return ready() ? 0 : EAGAIN;
#endif
}
int err(int e) { errno = e; return -1; }
}   // namespace
void reset()
{
    mc::Quiet q;
    fault = nullptr;
    bindfault = nullptr;
    midfault = nullptr;
    readiness = nullptr;
    attaches.clear();
    blocked_nowait = shortmsgs = polls = 0;
    if (w) {
        for (auto* s : w->socks) delete s;
        for (auto* c : w->ctxs) delete c;
        delete w;
    }
    w = new World;
}
void lost() { mc::Quiet q; w = new World; }
size_t queued(void* s) { mc::Quiet q; size_t n = 0; for (auto& p : static_cast<Sock*>(s)->in) n += p->q.size(); return n; }
int open_sockets() { mc::Quiet q; int n = 0; for (auto* s : W().socks) if (!s->monitor) ++n; return n; }
std::string identity(void* s) { return static_cast<Sock*>(s)->identity; }
void* find(const std::string& id) { mc::Quiet q; for (auto* s : W().socks) if (s->identity == id) return s; return nullptr; }
void forget(void* v) { mc::Quiet q; auto* s = static_cast<Sock*>(v); s->sending.clear(); s->receiving.clear(); s->recvpos = 0; s->more = false; }
long serial(void* s) { return static_cast<Sock*>(s)->serial; }
int partial_out(void* s) { return int(static_cast<Sock*>(s)->sending.size()); }
int option(void* s, int opt) { int v = 0; size_t n = sizeof v; zmq_getsockopt(s, opt, &v, &n); return v; }
}   // namespace fakezmq
using namespace fakezmq;

extern "C" {
void* zmq_ctx_new() { auto* c = new Ctx; mc::Quiet q; W().ctxs.insert(c); return c; }
int zmq_ctx_set(void* c, int, int) { return c ? 0 : err(EFAULT); }
int zmq_ctx_shutdown(void* c)
{
    std::lock_guard<std::mutex> l(W().m);
    static_cast<Ctx*>(c)->terminated = true;
    W().cv.notify_all();
    return 0;
}
int zmq_ctx_term(void* c)
{
    auto* x = static_cast<Ctx*>(c);
    std::unique_lock<std::mutex> l(W().m);
    x->terminated = true;
    W().cv.notify_all();
#ifndef MC_SEQ
    W().cv.wait(l, [&] { return x->sockets == 0; });
#endif
    { mc::Quiet q; W().ctxs.erase(x); }
    delete x;
    return 0;
}
void* zmq_socket(void* c, int type)
{
    if (fault) { int e = fault(SOCKET, nullptr); if (e) { errno = e; return nullptr; } }
    auto* x = static_cast<Ctx*>(c);
    std::lock_guard<std::mutex> l(W().m);
    if (x->terminated) { errno = ETERM; return nullptr; }
    auto* s = new Sock;
    s->ctx = x; s->type = type;
    mc::Quiet q;
    s->serial = ++W().serials;
    W().socks.insert(s);
    ++x->sockets;
    return s;
}
int zmq_socket_monitor(void*, const char*, int) { return 0; }
int zmq_close(void* v)
{
    auto* s = static_cast<Sock*>(v);
    std::lock_guard<std::mutex> l(W().m);
    mc::Quiet q;
    auto& x = W();
    if (!x.socks.count(s)) mc::fail("zmq_close on a socket that is not open");
    for (auto it = x.bound.begin(); it != x.bound.end();) it = it->second == s ? x.bound.erase(it) : std::next(it);
    for (auto it = x.pending.begin(); it != x.pending.end();) it = it->second == s ? x.pending.erase(it) : std::next(it);
    for (auto& p : s->out) {
        auto& in = p->to->in;       // what was sent stays receivable (linger)
        if (p->q.empty()) in.erase(std::remove(in.begin(), in.end(), p), in.end());
        p->from = p->from == s ? p->from : p->from;
    }
    for (auto& p : s->in) {
        auto& out = p->from->out;
        out.erase(std::remove(out.begin(), out.end(), p), out.end());
    }
    for (auto* o : x.socks) {
        for (auto& p : o->in) if (p->from == s && p->q.empty()) { }
        if (o->lastin && o->lastin->from == s) o->lastin = nullptr;
    }
    // keep the Sock alive for undelivered pipes: only unregister it
    s->out.clear(); s->in.clear(); s->sending.clear(); s->receiving.clear();
    x.socks.erase(s);
    --s->ctx->sockets;
    x.cv.notify_all();
    bool referenced = false;
    for (auto* o : x.socks) for (auto& p : o->in) if (p->from == s) referenced = true;
    if (!referenced) delete s;
    return 0;
}
int zmq_setsockopt(void* v, int o, const void* d, size_t n)
{
    auto* s = static_cast<Sock*>(v);
    auto val = [&] { int i = 0; if (n == sizeof i) memcpy(&i, d, n); return i; };
    switch (o) {
        case ZMQ_SNDHWM: s->sndhwm = val(); return 0;
        case ZMQ_RCVHWM: s->rcvhwm = val(); return 0;
        case ZMQ_SNDTIMEO: s->sndtimeo = val(); return 0;
        case ZMQ_RCVTIMEO: s->rcvtimeo = val(); return 0;
        case ZMQ_LINGER: s->linger = val(); return 0;
        case ZMQ_SNDBUF: s->sndbuf = val(); return 0;
        case ZMQ_RCVBUF: s->rcvbuf = val(); return 0;
        case ZMQ_IDENTITY: s->identity.assign(static_cast<const char*>(d), n); return 0;
        case ZMQ_SUBSCRIBE: return 0;
        default: return err(EINVAL);
    }
}
int zmq_getsockopt(void* v, int o, void* d, size_t* n)
{
    auto* s = static_cast<Sock*>(v);
    int val = 0;
    switch (o) {
        case ZMQ_SNDHWM: val = s->sndhwm; break;
        case ZMQ_RCVHWM: val = s->rcvhwm; break;
        case ZMQ_SNDTIMEO: val = s->sndtimeo; break;
        case ZMQ_RCVTIMEO: val = s->rcvtimeo; break;
        case ZMQ_LINGER: val = s->linger; break;
        case ZMQ_SNDBUF: val = s->sndbuf; break;
        case ZMQ_RCVBUF: val = s->rcvbuf; break;
        case ZMQ_TYPE: val = s->type; break;
        case ZMQ_RCVMORE: val = s->more; break;
        case ZMQ_FD: val = -1; break;
        case ZMQ_EVENTS: { std::lock_guard<std::mutex> l(W().m); val = (readable(s) ? ZMQ_POLLIN : 0) | (writable(s) ? ZMQ_POLLOUT : 0); break; }
        default: return err(EINVAL);
    }
    if (*n < sizeof val) return err(EINVAL);
    memcpy(d, &val, sizeof val);
    *n = sizeof val;
    return 0;
}
static int attach(void* v, const char* addr, bool bind)
{
    auto* s = static_cast<Sock*>(v);
    std::string a = addr;
    if (a.rfind("inproc://", 0) == 0 && !bind && s->type == ZMQ_PAIR && !W().bound.count(a)) { s->monitor = true; return 0; }
    int e = 0;
    if (fault) e = fault(bind ? BIND : CONNECT, v);
    if (!e && bind && bindfault) e = bindfault(a);
    std::lock_guard<std::mutex> l(W().m);
    mc::Quiet q;
    auto& x = W();
    size_t c = a.find("://");
    if (!e && (c == std::string::npos || c + 3 == a.size())) e = EINVAL;
    if (!e) {
        std::string proto = a.substr(0, c);
        if (proto != "tcp" && proto != "ipc" && proto != "inproc") e = EPROTONOSUPPORT;
    }
    if (!e && s->ctx->terminated) e = ETERM;
    std::string key = a;
    if (key.rfind("tcp://", 0) == 0) {          // tcp: only the port identifies the endpoint here
        size_t p = key.rfind(':');
        std::string port = key.substr(p + 1);
        if (port.empty() || port.find_first_not_of("0123456789") != std::string::npos || std::stol(port) > 65535) e = e ? e : EINVAL;
        key = "tcp:" + port;
    }
    if (!e && bind && x.bound.count(key)) e = EADDRINUSE;
    attaches.push_back({v, bind, a, e, s->identity, s->serial});
    if (e) return err(e);
    if (bind) {
        x.bound[key] = s;
        auto r = x.pending.equal_range(key);
        for (auto i = r.first; i != r.second; ++i) link(i->second, s);
        x.pending.erase(key);
        s->bound.push_back(key);
    } else {
        auto i = x.bound.find(key);
        if (i != x.bound.end()) link(s, i->second);
        else x.pending.emplace(key, s);
        s->connected.push_back(key);
    }
    x.cv.notify_all();
    return 0;
}
int zmq_bind(void* v, const char* a) { return attach(v, a, true); }
int zmq_connect(void* v, const char* a) { return attach(v, a, false); }

int zmq_msg_send(zmq_msg_t* m, void* v, int flags)
{
    auto* s = static_cast<Sock*>(v);
    last_flags = flags;
    if (auto& f = s->sending.empty() ? fault : midfault) { int e = f(SEND, v); if (e) return err(e); }
    std::unique_lock<std::mutex> l(W().m);
    if (s->ctx->terminated) return err(ETERM);
    if (!cansend(s->type)) return err(ENOTSUP);
    bool pub = s->type == ZMQ_PUB || s->type == ZMQ_XPUB;
    if (s->sending.empty()) {
        if (s->type == ZMQ_REP && !s->lastin) return err(EFSM);
        int e = await(l, s, s->sndtimeo, flags & ZMQ_DONTWAIT, [s] { return writable(s); });
        if (e) return err(e);
        if (!pub && s->type != ZMQ_REP) {
            for (size_t k = 0; k < s->out.size(); ++k) {
                auto& p = s->out[(s->rro + k) % s->out.size()];
                if (room(*p)) { s->outpipe = p; s->rro = (s->rro + k + 1) % s->out.size(); break; }
            }
        }
    }
    size_t n = zmq_msg_size(m);
    {
        mc::Quiet q;
        auto f = std::make_unique<Frame>();
        zmq_msg_move(&f->m, m);
        s->sending.push_back(std::move(f));
        if (!(flags & ZMQ_SNDMORE)) {
            if (pub) {
                for (auto& p : s->out) if (room(*p)) {
                    Multi c;
                    for (auto& g : s->sending) { auto h = std::make_unique<Frame>(); zmq_msg_copy(&h->m, &g->m); c.push_back(std::move(h)); }
                    p->q.push_back(std::move(c));
                }
                s->sending.clear();
            } else {
                std::shared_ptr<Pipe> p = s->outpipe;
                if (s->type == ZMQ_REP) { p = nullptr; for (auto& o : s->out) if (o->to == s->lastin->from) p = o; s->lastin = nullptr; }
                if (p) p->q.push_back(std::move(s->sending));
                s->sending.clear();
            }
        }
    }
    W().cv.notify_all();
    return int(n);
}
static int next_frame(Sock* s, int flags, std::unique_lock<std::mutex>& l, std::unique_ptr<Frame>& f)
{
    if (s->ctx->terminated) return ETERM;
    if (s->recvpos >= s->receiving.size()) {
        if (s->monitor) return EAGAIN;
        if (!canrecv(s->type)) return ENOTSUP;
        int e = await(l, s, s->rcvtimeo, flags & ZMQ_DONTWAIT, [s] { return readable(s); });
        if (e) return e;
        mc::Quiet q;
        for (size_t k = 0; k < s->in.size(); ++k) {
            size_t i = (s->rri + k) % s->in.size();
            if (!s->in[i]->q.empty()) {
                s->receiving = std::move(s->in[i]->q.front());
                s->in[i]->q.pop_front();
                s->recvpos = 0;
                s->lastin = s->in[i];
                s->rri = (i + 1) % s->in.size();
                break;
            }
        }
    }
    f = std::move(s->receiving[s->recvpos++]);
    s->more = s->recvpos < s->receiving.size();
    if (!s->more) { mc::Quiet q; s->receiving.clear(); s->recvpos = 0; }
    W().cv.notify_all();
    return 0;
}
int zmq_msg_recv(zmq_msg_t* m, void* v, int flags)
{
    auto* s = static_cast<Sock*>(v);
    if (s->monitor) return err(EAGAIN);
    last_flags = flags;
    if (auto& f = s->recvpos >= s->receiving.size() ? fault : midfault) { int e = f(RECV, v); if (e) return err(e); }
    std::unique_ptr<Frame> f;
    {
        std::unique_lock<std::mutex> l(W().m);
        int e = next_frame(s, flags, l, f);
        if (e) return err(e);
    }
    zmq_msg_move(m, &f->m);      // closes what m held
    return int(zmq_msg_size(m));
}
int zmq_recv(void* v, void* buf, size_t len, int flags)
{
    auto* s = static_cast<Sock*>(v);
    last_flags = flags;
    if (auto& f = s->recvpos >= s->receiving.size() ? fault : midfault) { int e = f(RECV, v); if (e) return err(e); }
    std::unique_ptr<Frame> f;
    {
        std::unique_lock<std::mutex> l(W().m);
        int e = next_frame(s, flags, l, f);
        if (e) return err(e);
    }
    mc::Quiet q;
    size_t n = zmq_msg_size(&f->m);
    if (n > len) ++shortmsgs;
    memcpy(buf, zmq_msg_data(&f->m), std::min(n, len));
    return int(n);
}
int zmq_poll(zmq_pollitem_t* items, int n, long timeout)
{
    ++polls;
    if (fault) { int e = fault(POLL, n > 0 ? items[0].socket : nullptr); if (e) { if (e == ETERM && n > 0) items[0].revents = 0; return err(e); } }
    std::unique_lock<std::mutex> l(W().m);
    Sock* first = nullptr;
    for (int i = 0; i < n; ++i) if (items[i].socket) {
        first = static_cast<Sock*>(items[i].socket);
        mc::Quiet q;
        if (!W().socks.count(first)) return err(ENOTSOCK);
    }
    auto scan = [&] {
        int c = 0;
        for (int i = 0; i < n; ++i) {
            auto* s = static_cast<Sock*>(items[i].socket);
            short r = 0;
            auto rw = readiness ? readiness(s) : std::pair<bool, bool>(readable(s), writable(s));
            if ((items[i].events & ZMQ_POLLIN) && rw.first) r |= ZMQ_POLLIN;
            if ((items[i].events & ZMQ_POLLOUT) && rw.second) r |= ZMQ_POLLOUT;
            items[i].revents = r;
            if (r) ++c;
        }
        return c;
    };
    if (!first) {
#ifdef MC_SEQ
        mc::advance_ns(int64_t(timeout) * 1000000);
#else
        if (timeout != 0) W().cv.wait_for(l, std::chrono::milliseconds(timeout < 0 ? 100000 : timeout));
#endif
        return 0;
    }
    int e = await(l, first, int(timeout), timeout == 0, [&] { return scan() > 0; });
    if (e == ETERM) { items[0].revents = 0; return err(ETERM); }     // libzmq gets that far
    return scan();
}
}
