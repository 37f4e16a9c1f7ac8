// C31: fair::mq::tools::execute with simulated child processes.  execute() forks for real, but instead of
// executing anything the forked process hands its standard streams over (interposed execve); the harness
// then plays the child: its steps are taken at the reads, writes and waits of execute() in every possible
// order (also partially written and interrupted), under a virtual clock.
#include "mc.h"
#include <cerrno>
#include <csignal>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <poll.h>
#include <set>
#include <sstream>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fairmq/tools/Process.h>
using namespace std;
using fair::mq::tools::execute;

namespace {
struct Step { char kind; string data; long n = 0; };

struct Sim
{
    bool active = false;        // the next execve is ours
    bool coarse = false;        // the child goes on only when nobody else can (or whenever it can: eager)
    bool eager = false;
    int exec_errno = 0;         // what execve answers
    int fork_errno = 0;
    int interruptions = 0;      // system calls that may be interrupted by signals
    set<int> ignored;           // signals the child ignores
    vector<Step> steps;
    // running
    int sock[2] = {-1, -1};
    bool forked = false, started = false, ended = false, reaped = false, stopped = false;
    int pid = -1, status = 0, signalled = 0;
    int fd[3] = {-1, -1, -1};
    size_t pc = 0, done = 0;
    string got;                 // standard input received
    string wrote[2];            // what was written to stdout, stderr
    int64_t now = 0, ended_at = -1;
    string log, tampered;
};
Sim S;

template <class F> F next(const char* n) { static map<string, void*> c; auto& p = c[n]; if (!p) p = dlsym(RTLD_NEXT, n); return reinterpret_cast<F>(p); }

void finish(int status)
{
    S.ended = true;
    S.status = status;
    S.ended_at = S.now;
    for (int& f : S.fd) if (f >= 0) { syscall(SYS_close, f); f = -1; }
}
void receive()
{
    if (!S.forked || S.started || S.ended) return;
    char data[1];
    iovec io{data, 1};
    alignas(cmsghdr) char ctl[CMSG_SPACE(3 * sizeof(int))];
    msghdr m{};
    m.msg_iov = &io;
    m.msg_iovlen = 1;
    m.msg_control = ctl;
    m.msg_controllen = sizeof ctl;
    if (syscall(SYS_recvmsg, S.sock[0], &m, MSG_DONTWAIT) <= 0) return;
    for (cmsghdr* c = CMSG_FIRSTHDR(&m); c; c = CMSG_NXTHDR(&m, c))
        if (c->cmsg_type == SCM_RIGHTS) memcpy(S.fd, CMSG_DATA(c), 3 * sizeof(int));
    for (int f : S.fd) fcntl(f, F_SETFL, fcntl(f, F_GETFL) | O_NONBLOCK);
    S.started = true;
}
// can the child go on by itself?
bool can()
{
    receive();
    if (!S.started || S.ended) return false;
    if (S.pc >= S.steps.size()) return true;
    auto& s = S.steps[S.pc];
    auto ready = [](int fd, short ev) { pollfd p{fd, ev, 0}; return fd < 0 || (::poll(&p, 1, 0) > 0 && p.revents); };
    switch (s.kind) {
        case 'o': return ready(S.fd[1], POLLOUT);
        case 'e': return ready(S.fd[2], POLLOUT);
        case 'r': return long(S.got.size()) >= s.n || ready(S.fd[0], POLLIN);
        case 's': return S.now >= s.n;
        case 'w': return S.signalled > 0;
        default: return true;
    }
}
void step()
{
    mc::transition();
    if (S.pc >= S.steps.size()) { finish(0); return; }
    auto& s = S.steps[S.pc];
    switch (s.kind) {
        case 'o': case 'e': {
            int f = S.fd[s.kind == 'o' ? 1 : 2];
            ssize_t n = syscall(SYS_write, f, s.data.data() + S.done, s.data.size() - S.done);
            if (n < 0 && errno == EPIPE) { finish(SIGPIPE); return; }
            if (n < 0) return;
            S.wrote[s.kind == 'e'].append(s.data, S.done, size_t(n));
            S.done += size_t(n);
            if (S.done < s.data.size()) return;
            break;
        }
        case 'r': {
            char b[4096];
            while (long(S.got.size()) < s.n) {
                ssize_t n = syscall(SYS_read, S.fd[0], b, min(sizeof b, size_t(s.n) - S.got.size()));
                if (n < 0) return;
                if (n == 0) break;
                S.got.append(b, size_t(n));
            }
            break;
        }
        case 'I': case 'O': case 'E': { int& f = S.fd[s.kind == 'I' ? 0 : s.kind == 'O' ? 1 : 2]; if (f >= 0) syscall(SYS_close, f); f = -1; break; }
        case 'x': finish(int(s.n) << 8); return;
        case 'k': finish(int(s.n)); return;
        case 's': case 'w': break;
    }
    ++S.pc;
    S.done = 0;
}
// before a system call of execute(): the child may go on
void opportunity()
{
    if (!S.active) return;
    if (S.coarse) { if (S.eager) while (can()) step(); return; }
    while (can() && mc::flag("child")) step();
}
bool interrupted()
{
    if (!S.active || S.interruptions <= 0 || !S.started) return false;
    if (!mc::flag("interrupted")) return false;
    --S.interruptions;
    errno = EINTR;
    return true;
}
bool ours(int fd) { return S.active && S.forked && !(S.sock[0] == fd || S.sock[1] == fd); }
[[noreturn]] void stuck(const char* what)
{
    S.active = false;
    mc::fail("%s: waits forever in %s (child %s%s)", S.log.c_str(), what, S.ended ? "has ended" : "at step ", S.ended ? "" : to_string(S.pc).c_str());
}
}   // namespace

extern "C" {
int execve(const char* path, char* const argv[], char* const envp[])
{
    if (!S.active) return next<int (*)(const char*, char* const*, char* const*)>("execve")(path, argv, envp);
    if (S.exec_errno) { errno = S.exec_errno; return -1; }
    int fds[3] = {0, 1, 2};
    char data[1] = {1};
    iovec io{data, 1};
    alignas(cmsghdr) char ctl[CMSG_SPACE(sizeof fds)];
    msghdr m{};
    m.msg_iov = &io;
    m.msg_iovlen = 1;
    m.msg_control = ctl;
    m.msg_controllen = sizeof ctl;
    cmsghdr* c = CMSG_FIRSTHDR(&m);
    c->cmsg_level = SOL_SOCKET;
    c->cmsg_type = SCM_RIGHTS;
    c->cmsg_len = CMSG_LEN(sizeof fds);
    memcpy(CMSG_DATA(c), fds, sizeof fds);
    syscall(SYS_sendmsg, S.sock[1], &m, 0);
    _exit(0);
}
pid_t fork()
{
    auto real = next<pid_t (*)()>("fork");
    if (!S.active) return real();
    if (S.fork_errno) { errno = S.fork_errno; return -1; }
    pid_t p = real();
    if (p > 0) { S.forked = true; S.pid = p; }
    return p;
}
pid_t waitpid(pid_t pid, int* status, int options)
{
    if (!S.active) return next<pid_t (*)(pid_t, int*, int)>("waitpid")(pid, status, options);
    receive();
    if (!S.forked) { errno = ECHILD; return -1; }
    if (!S.started) { syscall(SYS_wait4, S.pid, nullptr, options, nullptr); S.reaped = true; if (status) *status = 1 << 8; return pid; }
    if (S.reaped) { errno = ECHILD; return -1; }
    opportunity();
    if (interrupted()) return -1;
    if (!S.ended && (options & WNOHANG)) return 0;
    while (!S.ended) {
        if (can()) step();
        else if (S.pc < S.steps.size() && S.steps[S.pc].kind == 's') S.now = S.steps[S.pc].n;
        else stuck("waitpid");
    }
    S.reaped = true;
    if (status) *status = S.status;
    return pid;
}
int kill(pid_t pid, int sig)
{
    if (!S.active) return next<int (*)(pid_t, int)>("kill")(pid, sig);
    if (!S.forked || pid != S.pid || S.reaped) { S.tampered = "signals processes that are not its child (any more)"; errno = ESRCH; return -1; }
    S.signalled = sig;
    if (sig && !S.ended && !S.ignored.count(sig)) { receive(); finish(sig); }
    return 0;
}
int clock_gettime(clockid_t id, timespec* t)
{
    if (!S.active) return int(syscall(SYS_clock_gettime, id, t));
    t->tv_sec = 1000 + S.now / 1000000000;
    t->tv_nsec = S.now % 1000000000;
    return 0;
}
int timerfd_create(int id, int flags)
{
    if (!S.active) return int(syscall(SYS_timerfd_create, id, flags));
    errno = ENOSYS;     // timers are then served by the timeout of epoll_wait
    return -1;
}
int epoll_wait(int ep, epoll_event* ev, int max, int timeout)
{
    auto real = next<int (*)(int, epoll_event*, int, int)>("epoll_wait");
    if (!S.active) return real(ep, ev, max, timeout);
    opportunity();
    if (interrupted()) return -1;
    int64_t deadline = timeout < 0 || timeout > 100000 ? -1 : S.now   /* asio: at most 5 minutes, if there are no timers */ + int64_t(timeout) * 1000000;
    for (;;) {
        int n = real(ep, ev, max, 0);
        if (n != 0 || timeout == 0) return n;
        // nothing to do for execute(): the child goes on, or time passes
        if (can() && (deadline < 0 || S.coarse || mc::flag("child before timer"))) { step(); continue; }
        int64_t wake = !S.ended && S.started && S.pc < S.steps.size() && S.steps[S.pc].kind == 's' && S.steps[S.pc].n > S.now ? S.steps[S.pc].n : -1;
        if (wake >= 0 && (deadline < 0 || wake < deadline)) { S.now = wake; continue; }
        if (deadline < 0) stuck("epoll_wait");
        S.now = deadline;
        return 0;
    }
}
ssize_t readv(int fd, const iovec* io, int n)
{
    if (ours(fd)) { opportunity(); if (interrupted()) return -1; }
    return syscall(SYS_readv, fd, io, n);
}
ssize_t read(int fd, void* p, size_t n)
{
    if (ours(fd) && S.started) { opportunity(); if (interrupted()) return -1; }
    return syscall(SYS_read, fd, p, n);
}
ssize_t writev(int fd, const iovec* io, int n)
{
    if (ours(fd) && S.started) { opportunity(); if (interrupted()) return -1; }
    return syscall(SYS_writev, fd, io, n);
}
ssize_t write(int fd, const void* p, size_t n)
{
    if (ours(fd) && S.started) { opportunity(); if (interrupted()) return -1; }
    return syscall(SYS_write, fd, p, n);
}
}   // extern "C"

namespace {
vector<string> lines(const string& s)
{
    vector<string> r;
    string l;
    istringstream i(s);
    while (getline(i, l)) r.push_back(l);
    return r;
}
string shorten(const string& s) { return s.size() <= 60 ? s : s.substr(0, 30) + "...(" + to_string(s.size()) + ")"; }
string show(const vector<string>& v)
{
    string r = "[";
    for (auto& x : v) r += (r.size() > 1 ? "|" : "") + shorten(x);
    return r.size() > 400 ? r.substr(0, 400) + "..." : r + "]";
}
struct Result { vector<string> out, err; int code; bool threw = false; };

Result parse(const string& console, int code, const string& prefix, const string& cmd, const string& what)
{
    Result r;
    r.code = code;
    MC_CHECK(console.empty() || console.back() == '\n', "%s: output cut off", what.c_str());
    for (auto l : lines(console)) {
        MC_CHECK(l.rfind(prefix, 0) == 0, "%s: line without the prefix: %s", what.c_str(), shorten(l).c_str());
        l = l.substr(prefix.size());
        if (l == cmd || l.rfind("fair::mq::tools::execute: ", 0) == 0 || l.rfind("error in boost::asio", 0) == 0) continue;
        if (l.rfind("error: ", 0) == 0) r.err.push_back(l.substr(7));
        else r.out.push_back(l);
    }
    return r;
}
// text split in lines as it was written
string describe(const vector<Step>& steps)
{
    string r;
    for (auto& s : steps) {
        r += r.empty() ? "" : ", ";
        auto text = [&] { string t; for (char c : s.data) t += c == '\n' ? string("\\n") : string(1, c); return shorten(t); };
        switch (s.kind) {
            case 'o': r += "writes '" + text() + "'"; break;
            case 'e': r += "writes '" + text() + "' to stderr"; break;
            case 'r': r += "reads " + to_string(s.n) + " bytes"; break;
            case 'I': r += "closes stdin"; break;
            case 'O': r += "closes stdout"; break;
            case 'E': r += "closes stderr"; break;
            case 's': r += "sleeps until " + to_string(s.n / 1000000) + " ms"; break;
            case 'w': r += "waits for a signal"; break;
            case 'x': r += "exits with " + to_string(s.n); break;
            case 'k': r += "is killed by signal " + to_string(s.n); break;
        }
    }
    return r.empty() ? "does nothing" : r;
}
Result run_sim(vector<Step> steps, const string& input = "", int sig = -1, const string& prefix = "")
{
    const string cmd = "/bin/true child";
    S.steps = move(steps);
    if (S.log.empty()) S.log = "child " + describe(S.steps) + (input.empty() ? "" : ", given " + to_string(input.size()) + " bytes") + (sig >= 0 ? ", signal " + to_string(sig) : "");
    if (socketpair(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0, S.sock)) mc::fail("harness: socketpair");
    ostringstream printed;
    auto* old = cout.rdbuf(printed.rdbuf());
    fair::mq::tools::execute_result e;
    bool threw = false;
    S.active = true;
    try { e = execute(cmd, prefix, input, sig); } catch (exception&) { threw = true; }
    S.active = false;
    cout.rdbuf(old);
    receive();
    while (syscall(SYS_wait4, -1, nullptr, WNOHANG, nullptr) > 0) {}
    if (S.pid > 0) syscall(SYS_wait4, S.pid, nullptr, 0, nullptr);
    for (int f : S.sock) ::close(f);
    for (int f : S.fd) if (f >= 0) ::close(f);
    MC_CHECK(S.tampered.empty(), "%s: %s", S.log.c_str(), S.tampered.c_str());
    if (threw) { Result r; r.threw = true; r.code = -1; return r; }
    if (!S.started && !S.ended) { Result r; r.code = e.exit_code; return r; }
    MC_CHECK(S.ended, "%s: returned although the process goes on", S.log.c_str());
    MC_CHECK(S.reaped, "%s: the process is left behind as a zombie", S.log.c_str());
    MC_CHECK(printed.str() == e.console_out, "%s: the printed and the returned output differ", S.log.c_str());
    return parse(e.console_out, e.exit_code, prefix, cmd, S.log);
}
void expect(const Result& r, const string& out, const string& err, int code)
{
    MC_CHECK(!r.threw, "%s: failed with an exception", S.log.c_str());
    auto o = lines(out), e = lines(err);
    MC_CHECK(r.out == o, "%s: standard output is reported as %s instead of %s", S.log.c_str(), show(r.out).c_str(), show(o).c_str());
    MC_CHECK(r.err == e, "%s: standard error is reported as %s instead of %s", S.log.c_str(), show(r.err).c_str(), show(e).c_str());
    if (code >= 0) MC_CHECK(r.code == code, "%s: exit code %d reported instead of %d", S.log.c_str(), r.code, code);
    else MC_CHECK(r.code != 0, "%s: reported as success", S.log.c_str());
    mc::outcome(to_string(r.code) + " " + to_string(o.size()) + " " + to_string(e.size()));
    mc::state(mc::hash_str(S.log));
}
void fresh() { S = Sim{}; }

// every text of a few characters, written in up to n pieces, to both streams
void pieces(int npieces, bool interruptions)
{
    fresh();
    S.interruptions = interruptions;
    static const vector<string> TEXT{"a", "a\n", "\n", "\na", "a\nb", "a\n\nb\n", "error: x\n"};
    vector<Step> st;
    string out, err;
    int n = mc::choose(npieces + 1, "pieces");
    for (int i = 0; i < n; ++i) {
        bool e = mc::flag("stderr");
        string t = TEXT[size_t(mc::choose(int(TEXT.size()) - 1, "text"))];
        for (char& c : t) if (c == 'a') c = char('a' + 2 * i); else if (c == 'b') c = char('b' + 2 * i);
        st.push_back({e ? 'e' : 'o', t});
        (e ? err : out) += t;
    }
    expect(run_sim(st, "", -1, mc::flag("prefix") ? "[P] " : ""), out, err, 0);
}
// sizes around the sizes of buffers
void sizes()
{
    fresh();
    S.coarse = true;
    S.eager = mc::flag("eager");
    static const vector<long> N{0, 1, 127, 128, 129, 510, 511, 512, 513, 514, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 70000, 200000};
    auto line = [](long n, char c) { string s; for (long i = 0; i < n; ++i) s += i % 50 == 49 ? char('0' + i / 50 % 10) : c; return s; };
    long a = N[size_t(mc::choose(int(N.size()), "first line"))], b = N[size_t(mc::choose(int(N.size()), "second line"))];
    bool e = mc::flag("stderr");
    bool nl = mc::flag("newline at the end");
    string t = line(a, 'x') + "\n" + line(b, 'y') + (nl ? "\n" : "");
    expect(run_sim({{e ? 'e' : 'o', t}, {e ? 'o' : 'e', "other\n"}}), e ? "other\n" : t, e ? t : "other\n", 0);
}
// text around the read size, in two writes with everything in between, short lines
void split()
{
    fresh();
    static const vector<long> N{511, 512, 513};
    long total = N[size_t(mc::choose(3, "size"))];
    int period = mc::flag("line length") ? 7 : 512;
    string t;
    for (long i = 0; i < total; ++i) t += i % period == period - 1 ? '\n' : char('a' + i % 26);
    static const vector<long> CUT{0, 1, 6, 7, 8, 255, 505, 510, 511};
    long c = CUT[size_t(mc::choose(int(CUT.size()), "cut"))];
    S.coarse = true;
    S.eager = mc::flag("eager");
    vector<Step> st;
    if (c) st.push_back({'o', t.substr(0, size_t(c))});
    st.push_back({'s', "", 1000000});
    st.push_back({'o', t.substr(size_t(c))});
    expect(run_sim(st), t, "", 0);
}
// streams closed early, in any order, before the process ends
void closing()
{
    fresh();
    vector<Step> st;
    string out, err;
    vector<char> todo{'O', 'E', 'I'};
    int n = mc::choose(4, "closed");
    bool o = true, e = true;
    for (int i = 0; i < n; ++i) {
        int k = mc::choose(int(todo.size()), "which");
        char c = todo[size_t(k)];
        todo.erase(todo.begin() + k);
        if (c == 'O') o = false;
        if (c == 'E') e = false;
        st.push_back({c, ""});
        if (mc::flag("writes")) {
            if (o) { st.push_back({'o', "out" + to_string(i) + "\n"}); out += "out" + to_string(i) + "\n"; }
            else if (e) { st.push_back({'e', "err" + to_string(i)}); err += "err" + to_string(i); }
        }
    }
    if (mc::flag("sleeps")) st.push_back({'s', "", 5000000000});
    int code = mc::choose(2, "code") * 3;
    st.push_back({'x', "", code});
    expect(run_sim(st), out, err, code);
}
// standard input: sizes, read at once, late, never; output before and after
void input()
{
    fresh();
    static const vector<long> N{1, 5, 512, 65535, 65536, 65537, 200000};
    long n = N[size_t(mc::choose(int(N.size()), "size"))];
    string in;
    for (long i = 0; i < n; ++i) in += i % 11 == 10 ? '\n' : char('a' + i % 23);
    S.coarse = n > 600;
    S.eager = S.coarse && mc::flag("eager");
    vector<Step> st;
    string out;
    bool all = true;
    static const int64_t T[] = {0, 500000000, 1500000000, 3000000000};
    int t = mc::choose(4, "starts reading");
    S.interruptions = n == 5 && t == 0 ? mc::choose(2, "interruptions") : 0;
    if (mc::flag("writes before")) { st.push_back({'o', "before"}); out += "before"; }
    if (t) st.push_back({'s', "", T[t]});
    switch (mc::choose(4, "reads")) {
        case 0: st.push_back({'r', "", n}); break;
        case 1: st.push_back({'r', "", (n + 1) / 2}); if (t) st.push_back({'s', "", T[t] + 1000000000}); st.push_back({'r', "", n}); break;
        case 2: all = false; break;                                     // ends without
        case 3: all = false; st.push_back({'r', "", n / 2}); st.push_back({'I', ""}); st.push_back({'s', "", 4000000000}); break;
    }
    if (mc::flag("writes after")) { st.push_back({'o', "\nafter\n"}); out += "\nafter\n"; }
    auto r = run_sim(st, in);
    expect(r, out, "", 0);
    if (all) MC_CHECK(S.got == in, "%s: received %zu bytes%s", S.log.c_str(), S.got.size(), S.got.size() == in.size() ? ", not the given ones" : "");
    else MC_CHECK(in.compare(0, S.got.size(), S.got) == 0, "%s: received something else", S.log.c_str());
}
// what the exit status becomes
void status()
{
    fresh();
    S.interruptions = 1;
    bool killed = mc::flag("killed");
    int n = killed ? 1 + mc::choose(31, "signal") : mc::choose(256, "code");
    bool out = mc::flag("output");
    vector<Step> st;
    if (out) st.push_back({'o', "text"});
    bool core = killed && mc::flag("core dump");
    st.push_back({killed ? 'k' : 'x', "", core ? n | 0x80 : n});
    S.coarse = true;
    expect(run_sim(st), out ? "text" : "", "", killed ? -1 : n);
}
// signals sent on request
void signals()
{
    fresh();
    static const int SIG[] = {SIGINT, SIGTERM, SIGUSR1, SIGKILL};
    int sig = SIG[mc::choose(4, "signal")];
    string in = mc::flag("input") ? "hello\n" : "";
    vector<Step> st;
    string out;
    int code = 0;
    switch (mc::choose(5, "child")) {      // (unless it is killed before)
        case 0: st = {{'o', "early\n"}, {'x', "", 4}}; out = "early\n"; code = 4; break;                // over before
        case 1: st = {{'o', "a\nb"}, {'w', ""}, {'o', "never\n"}}; out = "a\nb"; code = -1; break;      // killed by it
        case 2: if (sig == SIGKILL) mc::abandon(); S.ignored = {sig}; st = {{'o', "a"}, {'w', ""}, {'o', "handled"}, {'x', "", 7}}; out = "ahandled"; code = 7; break;
        case 3: if (sig == SIGKILL) mc::abandon(); S.ignored = {sig}; st = {{'w', ""}, {'s', "", 9000000000}, {'o', "late\n"}, {'k', "", SIGSEGV}}; out = "late\n"; code = -1; break;
        case 4: st = {{'O', ""}, {'E', ""}, {'w', ""}}; code = -1; break;                               // silent
    }
    if (!in.empty() && code != 4 && mc::flag("reads")) st.insert(st.begin(), {'r', "", long(in.size())});
    auto r = run_sim(st, in, sig);
    if (WIFSIGNALED(S.status) && WTERMSIG(S.status) == sig) { out = S.wrote[0]; code = -1; }
    MC_CHECK(S.wrote[0] == out, "%s: the child did not get that far", S.log.c_str());
    MC_CHECK(S.signalled == sig, "%s: the signal was not sent", S.log.c_str());
    expect(r, out, "", code);
    if (st[0].kind == 'r' && code >= 0) MC_CHECK(S.got == in, "%s: received '%s'", S.log.c_str(), S.got.c_str());
}
// what cannot be started is not a success
void unstartable()
{
    fresh();
    static const int E[] = {ENOENT, EACCES, ENOEXEC, E2BIG, ENOMEM, EAGAIN, ETXTBSY, ELOOP};
    int e = E[mc::choose(8, "error")];
    bool fork_fails = (e == ENOMEM || e == EAGAIN) && mc::flag("fork fails");
    (fork_fails ? S.fork_errno : S.exec_errno) = e;
    S.log = string(fork_fails ? "fork" : "exec") + " fails: " + strerror(e);
    auto r = run_sim({}, mc::flag("input") ? "x" : "", mc::flag("signal") ? SIGTERM : -1);
    MC_CHECK(r.threw || r.code != 0, "%s of a command fails (%s), reported as success", fork_fails ? "fork" : "exec", strerror(e));
    mc::outcome(r.threw ? "exception" : "code");
}
// ---- the same with real processes: binds the simulation to the system ----------------------------------
string g_dir;
void real()
{
    fresh();
    struct Case { const char* script; string out, err, in; int code; };
    string big;
    for (int i = 0; i < 30000; ++i) big += "line" + to_string(i) + "\n";
    static const vector<Case> C{
        {"exit 0", "", "", "", 0}, {"printf 'a\\nb'; exit 3", "a\nb", "", "", 3}, {"echo out; echo err >&2; kill -9 $$", "out\n", "err\n", "", -1},
        {"i=0; while [ $i -lt 30000 ]; do echo line$i; i=$((i+1)); done", big, "", "", 0}, {"read x; echo got $x", "got hello\n", "", "hello\n", 0},
        {"exec >&- 2>&-; sleep 0.1; exit 5", "", "", "", 5}, {"printf x >&2; (sleep 0.1; printf y)", "y", "x", "", 0}, {"exec </dev/null; echo z", "z\n", "", "unread\n", 0},
        {nullptr, "", "", "", -1}};
    auto& c = C[size_t(mc::choose(int(C.size()), "script"))];
    string cmd = g_dir + "/nonexistent";
    S.log = c.script ? c.script : "a command that does not exist";
    if (c.script) {
        ofstream(g_dir + "/script") << c.script << "\n";
        cmd = "/bin/sh " + g_dir + "/script";
    }
    ostringstream printed;
    auto* old = cout.rdbuf(printed.rdbuf());
    Result r;
    try {
        auto e = execute(cmd, "P", c.in);
        cout.rdbuf(old);
        r = parse(e.console_out, e.exit_code, "P", cmd, S.log);
    } catch (exception&) { cout.rdbuf(old); r.threw = true; }
    if (!c.script) { MC_CHECK(r.threw || r.code != 0, "a command that does not exist is a success"); mc::outcome("not started"); return; }
    expect(r, c.out, c.err, c.code);
    mc::trace_validated();
}
}   // namespace

int main(int argc, char** argv)
{
    mc::on_worker_start([] {
        g_dir = string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp") + "/c31." + to_string(getpid());
        ::mkdir(g_dir.c_str(), 0700);
        atexit([] { ::unlink((g_dir + "/script").c_str()); ::rmdir(g_dir.c_str()); });
    });
    mc::Opts o;
    o.in_main = true;
    o.preemptions = 0;
    o.sched_atomics = false;
    o.exec_timeout_s = 60;
    vector<mc::Scenario> v;
    auto add = [&](const char* n, const char* d, function<void()> f, int wt) { mc::Opts p = o; p.weight = wt; v.push_back({n, d, f, p}); };
    add("pieces", "up to two pieces of text on both streams x all interleavings with the reader", [] { pieces(mc::thorough() ? 3 : 2, false); }, 4);
    add("interrupted", "one piece of text x all interleavings x an interrupted system call", [] { pieces(mc::thorough() ? 2 : 1, true); }, 1);
    add("sizes", "two lines of sizes around buffer sizes", sizes, 2);
    add("split", "text of the size of a read in two writes", split, 1);
    add("closing", "streams closed in any order before the end x all interleavings", closing, 4);
    add("input", "input sizes x when and how the child reads it", input, 4);
    add("status", "all exit codes and signals x an interrupted system call", status, 1);
    add("signals", "signal requested x what the child does about it x all interleavings", signals, 4);
    add("unstartable", "commands that cannot be started", unstartable, 1);
    add("real", "real child processes", real, 2);
    return mc::run(argc, argv, v);
}
