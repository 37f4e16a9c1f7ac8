// C38: the fairmq-shmmonitor command (its real main): every action on every way to name a session, with
// several sessions present, and its monitoring mode in virtual time.
#include "transport.h"
#include <boost/interprocess/sync/named_mutex.hpp>
#include <chrono>
#include <csignal>
#include <fairmq/shmem/Monitor.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <poll.h>
#include <sys/stat.h>
#include <termios.h>
#include <unistd.h>
using namespace tr;

int shmmonitor_main(int argc, char** argv);

// the terminal: the keys typed so far that nobody has read
namespace keys {
std::string typed, buffered;   // buffered: read by the C library, not yet by the program
bool closed = false, watched = false, interrupted = false, raw = false, sighup = false;
bool ready() { return closed || !typed.empty(); }
void type(const std::string& s) { mc::Quiet q; typed += s; }
void reset(bool w) { mc::Quiet q; typed.clear(); buffered.clear(); closed = interrupted = raw = false; watched = w; }
int get()
{
    if (buffered.empty()) {
        mc::block_until([] { return ready(); }, -1, "reading stdin");
        mc::Quiet q;
        buffered.swap(typed);
    }
    mc::Quiet q;
    if (buffered.empty()) return EOF;
    int c = static_cast<unsigned char>(buffered[0]);
    buffered.erase(0, 1);
    return c;
}
}   // namespace keys
extern "C" {
int poll(struct pollfd* f, nfds_t n, int timeout)
{
    static auto* real = reinterpret_cast<int (*)(struct pollfd*, nfds_t, int)>(dlsym(RTLD_NEXT, "poll"));
    if (!keys::watched || n != 1 || f->fd > 0) return real(f, n, timeout);
    bool on = f->fd == 0 && (f->events & POLLIN);
    f->revents = 0;
    { mc::Quiet q; keys::interrupted = false; }
    if (!(on && keys::ready()) && timeout) mc::block_until([&] { return (on && keys::ready()) || keys::interrupted; }, timeout < 0 ? -1 : mc::now_ns() + int64_t(timeout) * 1000000, "polling stdin");
    mc::Quiet q;
    if (!(on && keys::ready()) && keys::interrupted) { errno = EINTR; return -1; }
    if (!on || !keys::ready()) return 0;
    f->revents = short((keys::typed.empty() ? 0 : POLLIN) | (keys::closed ? POLLHUP : 0));
    return 1;
}
ssize_t read(int fd, void* b, size_t n)
{
    static auto* real = reinterpret_cast<ssize_t (*)(int, void*, size_t)>(dlsym(RTLD_NEXT, "read"));
    if (!keys::watched || fd != 0) return real(fd, b, n);
    mc::block_until([] { return keys::ready(); }, -1, "reading stdin");
    mc::Quiet q;
    n = std::min(n, keys::typed.size());
    memcpy(b, keys::typed.data(), n);
    keys::typed.erase(0, n);
    return ssize_t(n);
}
int key_getchar() __asm__("getchar");
int key_getchar() { return keys::get(); }
int getc(FILE* f) { return f == stdin ? keys::get() : fgetc(f); }
int tcgetattr(int, struct termios* t) noexcept { memset(t, 0, sizeof *t); t->c_lflag = keys::raw ? 0 : ICANON | ECHO; return 0; }
int tcsetattr(int, int, const struct termios* t) noexcept { mc::Quiet q; keys::raw = !(t->c_lflag & ICANON); return 0; }
}

namespace {
long now_ms() { return long(mc::now_ns() / 1000000); }
int command(std::vector<std::string> a, std::vector<std::string>* out = nullptr)
{
    a.insert(a.begin(), "fairmq-shmmonitor");
    std::vector<char*> v;
    for (auto& s : a) v.push_back(s.data());
    v.push_back(nullptr);
    if (out) fair::stublog::tell = [out](const std::string& s) { mc::Quiet q; out->push_back(s); };
    int rc = shmmonitor_main(int(a.size()), v.data());
    fair::stublog::tell = nullptr;
    return rc;
}
int shmmonitor_other(std::vector<std::string> a)
{
    a.insert(a.begin(), "fairmq-shmmonitor");
    std::vector<char*> v;
    for (auto& s : a) v.push_back(s.data());
    v.push_back(nullptr);
    return shmmonitor_main(int(a.size()), v.data());
}
Fac device(const std::string& session, bool keep = false)
{
    std::unique_ptr<ProgOptions> o;
    { mc::Quiet q; o.reset(options(session, kSeg)); if (keep) o->values["shm-no-cleanup"] = true; }
    Fac f = std::make_shared<shmem::TransportFactory>("d", o.get());
    { mc::Quiet q; o.reset(); }
    return f;
}
std::set<std::string> of(const std::string& session)
{
    std::set<std::string> r;
    for (auto& n : fakeshm::objects()) if (n.find("fmq_" + shmid(session)) != std::string::npos) r.insert(n);
    return r;
}
struct State
{
    std::set<std::string> objects;
    size_t free = 0, used = 0;
    bool operator==(const State& o) const { return objects == o.objects && free == o.free; }
};
State state(const std::string& session)
{
    State s;
    s.objects = of(session);
    if (s.objects.empty()) return s;
    SegView v;
    mc::Quiet q;
    v.open(session, 0, true);
    s.free = v.free();
    v.a.reset();
    return s;
}
std::string text(const std::vector<std::string>& v) { std::string s; for (auto& l : v) s += l + "\n"; return s; }

void actions()
{
    clean();
    char dir[] = "/tmp/monitorcmd.XXXXXX";
    { mc::Quiet q; MC_CHECK(mkdtemp(dir), "scratch directory"); }
    std::vector<std::string> files;
    {
        mc::set_tick(0);
        Acks acks;
        const char* names[2] = {"one", "two"};
        Fac f[2] = {device("one"), device("two")};
        size_t base[2] = {state("one").free, state("two").free};
        RegionConfig cfg;
        cfg.id = 5;
        cfg.linger = 100;
        auto r = region(f[1], acks, 4096, false, cfg);
        bool monitored = mc::flag("a monitor runs");        // or has died
        if (monitored) for (auto* n : names) { boost::interprocess::named_mutex m(boost::interprocess::create_only, shmem::MakeShmName(shmid(n), "ms").c_str()); }
        for (int i = 0; i < 2; ++i) {                       // messages that nobody releases
            auto a = f[i]->CreateSocket("pair", "a"), b = f[i]->CreateSocket("pair", "b");
            MC_CHECK(a->Bind("inproc://x" + std::to_string(i)) && b->Connect("inproc://x" + std::to_string(i)), "connect");
            auto m = f[i]->CreateMessage(500);
            MC_CHECK(a->Send(m, 0) == 500, "send");
        }
        for (auto* n : {"one", "two"}) files.push_back(std::string(dir) + "/fmq_" + shmid(n) + "_mng");
        files.push_back(std::string(dir) + "/fmq_" + shmid("one") + "_m_0");
        files.push_back(std::string(dir) + "/other");
        { mc::Quiet q; for (auto& n : files) { int fd = ::open(n.c_str(), O_CREAT | O_WRONLY, 0600); if (fd >= 0) ::close(fd); } }
        // how the session is named
        int which = mc::choose(7, "session");
        std::vector<std::string> args;
        int target = -1;                                    // -1: a session that does not exist
        switch (which) {
            case 0: args = {"-s", "one"}; target = 0; break;
            case 1: args = {"--session", "two"}; target = 1; break;
            case 2: args = {"--shmid", shmid("one")}; target = 0; break;
            case 3: args = {"-s", "one", "--shmid", shmid("two")}; target = 1; break;
            case 4: args = {}; break;
            case 5: args = {"-s", "on"}; break;
            case 6: args = {"--shmid", shmid("default")}; break;
        }
        std::string id = target >= 0 ? shmid(names[target]) : which == 5 ? shmid("on") : shmid("default");
        static const std::vector<std::vector<std::string>> acts{{"-c"}, {"--cleanup"}, {"-r"}, {"-b"}, {"-v"}, {}, {"--get-shmid"}, {"--get-shmid", "--user-id", "1234"}, {"--list-all", "--list-all-path"}, {"-h"}, {"--bogus"}, {"-t", "soon", "-v"}, {"-v", "-x"}, {"-v", "-t", "10"}, {"-v", "-m"}, {"-v", "-e"}, {"-x", "-t", "10"}, {"-e", "--interval", "10"}};
        int act = mc::choose(int(acts.size()), "action");
        auto b = acts[size_t(act)];
        if (act == 8) b.push_back(dir);
        if (mc::flag("action first")) args.insert(args.begin(), b.begin(), b.end());
        else args.insert(args.end(), b.begin(), b.end());
        std::string line;
        for (auto& a : args) line += " " + a;
        State before[2] = {state("one"), state("two")};
        MC_CHECK(before[0].free < base[0] && before[1].free < base[1], "no memory is in use");
        std::vector<std::string> out;
        long t0 = now_ms();
        int rc = command(args, &out);
        mc::transition();
        MC_CHECK(rc == (act == 10 || act == 11 ? 2 : 0), "%s: returned %d: %s", line.c_str(), rc, text(out).c_str());
        MC_CHECK(now_ms() - t0 < 1000, "%s: took %ld ms", line.c_str(), now_ms() - t0);
        for (int i = 0; i < 2; ++i) {
            State s = state(names[i]);
            if (act <= 1 && i == target) MC_CHECK(s.objects.empty(), "%s: %s is left", line.c_str(), s.objects.begin()->c_str());
            else if (act == 2 && i == target) {
                MC_CHECK(s.free == base[i], "%s: %zu bytes free, %zu in a new segment", line.c_str(), s.free, base[i]);
                for (auto& o : s.objects) MC_CHECK(before[i].objects.count(o), "%s: new object %s", line.c_str(), o.c_str());
                for (auto& o : before[i].objects) MC_CHECK(s.objects.count(o) || o.find("_rgq_") != std::string::npos || o.find("_rrc_") != std::string::npos, "%s: %s was removed", line.c_str(), o.c_str());
                MC_CHECK(shmem::Monitor::SegmentIsPresent(shmem::SessionId{names[i]}, 0), "%s: segment lost", line.c_str());
            } else MC_CHECK(s == before[i], "%s: session %s was changed (%zu objects of %zu, %zu bytes free of %zu)", line.c_str(), names[i], s.objects.size(), before[i].objects.size(), s.free, before[i].free);
        }
        MC_CHECK(fakeshm::objects().size() == state("one").objects.size() + state("two").objects.size(), "%s: objects of another session exist", line.c_str());
        auto shows = [&](const std::string& what) { size_t n = 0; for (auto& l : out) if (l.find(what) != std::string::npos) ++n; return n; };
        if (act == 4 || act == 5 || act >= 12) {
            MC_CHECK(shows("shm id: ") == (target >= 0) && shows("shm id: " + id + ",") == (target >= 0) && shows("No segments found") == (target < 0), "%s: printed %s", line.c_str(), text(out).c_str());
            if (target >= 0) MC_CHECK(shows("session: " + std::string(names[target]) + ","), "%s: printed %s", line.c_str(), text(out).c_str());
        } else if (act == 6 || act == 7) {
            std::string s = which == 0 || which == 2 || which == 3 ? "one" : which == 1 ? "two" : which == 5 ? "on" : "default";
            if (which == 2) s = "default";                  // the session's name was not given
            std::string want = act == 6 ? shmid(s) : shmem::makeShmIdStr(s, "1234");
            MC_CHECK(out.size() >= 1 && shows("is: " + want) == 1 && shows("'" + s + "'") == 1 && (act == 6) == (want == shmid(s)), "%s: printed %s, expected %s", line.c_str(), text(out).c_str(), want.c_str());
        } else if (act == 8) {
            MC_CHECK(shows("shm id: ") == 2 && shows("shm id: " + shmid("one") + ",") == 1 && shows("shm id: " + shmid("two") + ",") == 1, "%s: printed %s", line.c_str(), text(out).c_str());
        } else MC_CHECK(shows("shm id: ") == 0, "%s: printed %s", line.c_str(), text(out).c_str());
        { mc::Quiet q; for (auto& n : files) ::unlink(n.c_str()); ::rmdir(dir); }
        r.reset();
        mc::outcome(std::to_string(act) + "," + std::to_string(target));
        mc::trace_validated();
    }
    for (auto& n : fakeshm::objects()) MC_CHECK(n.find("_ms") != std::string::npos, "%s is left", n.c_str());
}
// monitoring mode, ends by itself
void monitoring()
{
    clean();
    {
        mc::set_tick(0);
        int env = mc::choose(7, "session");                 // never there, leaves, dies, has a monitor, starts late and dies, leaves at once, is dead
        long timeout = mc::flag("timeout") ? 3000 : 500;
        std::vector<std::string> args{"-m", "-x", "-s", "one", "-t", std::to_string(timeout)};
        if (mc::flag("clean on exit")) args.push_back("-e");
        Fac other = device("two");
        State before = state("two");
        Fac d;
        if (env == 1 || env == 2 || env >= 5) d = device("one", env == 2 || env == 6);
        if (env == 6) { ms(250); d.reset(); }
        if (env == 3) boost::interprocess::named_mutex m(boost::interprocess::create_only, shmem::MakeShmName(shmid("one"), "ms").c_str());
        std::thread t;
        if (env == 1 || env == 2) t = std::thread([&] { ms(730); d.reset(); });
        if (env == 5) t = std::thread([&] { ms(30); d.reset(); });
        if (env == 4) t = std::thread([&] { ms(330); d = device("one", true); ms(700); d.reset(); });
        long t0 = now_ms();
        int rc = command(args);
        long e = now_ms() - t0;
        if (t.joinable()) t.join();
        MC_CHECK(rc == 0, "returned %d", rc);
        long lo = 0, hi = 0;
        switch (env) {
            case 0: lo = 2 * timeout; hi = lo + 500; break;
            case 1: lo = 730; hi = 730 + 500; break;
            case 2: lo = 730 + timeout - 300; hi = 730 + timeout + 800; break;
            case 4: lo = 1030 + timeout - 300; hi = 1030 + timeout + 800; break;
            case 5: lo = 30; hi = 30 + 500; break;
            case 6: lo = timeout; hi = timeout + 800; break;
            default: break;
        }
        MC_CHECK(e >= lo && e <= hi, "case %d: the monitor ended after %ld ms, expected %ld to %ld", env, e, lo, hi);
        MC_CHECK(of("one").size() == (env == 3), "case %d: %s is left", env, of("one").empty() ? "nothing" : of("one").begin()->c_str());
        MC_CHECK(state("two") == before, "case %d: the other session was changed", env);
        mc::outcome(std::to_string(env) + "," + std::to_string(e));
        mc::trace_validated();
    }
}
// monitoring mode until it is told to stop, with other commands meanwhile
void stopped()
{
    clean();
    {
        mc::set_tick(0);
        int env = mc::choose(3, "session");                 // absent, alive, leaves
        std::vector<std::string> args{"-m", "-s", "one", "-t", "400"};
        bool onExit = mc::flag("clean on exit");
        if (onExit) args.push_back("--clean-on-exit");
        Fac other = device("two");
        State two = state("two");
        Fac d;
        if (env) d = device("one");
        State one = state("one");
        int rc = -1;
        long t0 = now_ms(), e = 0;
        std::thread t([&] { rc = command(args); e = now_ms() - t0; });
        ms(730);
        MC_CHECK(rc == -1, "the monitor ended: %d", rc);
        MC_CHECK(of("one").count("fmq_" + shmid("one") + "_ms") || of("one").count("sem.fmq_" + shmid("one") + "_ms"), "no mark of the monitor");
        switch (mc::choose(4, "meanwhile")) {
            case 0: break;
            case 1: MC_CHECK(shmmonitor_other({"-m", "-e", "-s", "one"}) == 0, "second monitor"); break;
            case 2: MC_CHECK(shmmonitor_other({"-v", "-s", "one"}) == 0, "view"); break;
            case 3: MC_CHECK(shmmonitor_other({"-m", "-x", "-t", "100", "-e", "-s", "three"}) == 0, "monitor of another session"); break;
        }
        MC_CHECK(rc == -1, "the monitor ended: %d", rc);
        if (env) { State s = state("one"); s.objects.erase("fmq_" + shmid("one") + "_ms"); s.objects.erase("sem.fmq_" + shmid("one") + "_ms"); one.objects.erase("fmq_" + shmid("one") + "_ms"); MC_CHECK(s == one, "the session was changed: %zu objects of %zu, %zu bytes free of %zu", s.objects.size(), one.objects.size(), s.free, one.free); }
        if (env == 2) { d.reset(); if (mc::flag("later")) ms(600); }
        long stop = now_ms() - t0;
        std::raise(mc::flag("SIGINT") ? SIGINT : SIGTERM);
        t.join();
        MC_CHECK(rc == 0, "returned %d", rc);
        MC_CHECK(e >= stop && e <= stop + 500, "told to stop after %ld ms, ended after %ld ms", stop, e);
        MC_CHECK(state("two") == two, "the other session was changed");
        if (env == 1 && !onExit) {
            MC_CHECK(state("one") == one, "the session was changed");
            auto m = d->CreateMessage(300);
            MC_CHECK(m->GetSize() == 300, "message");
            m.reset();
        } else MC_CHECK(of("one").empty(), "%s is left", of("one").begin()->c_str());
        d.reset();
        mc::outcome(std::to_string(env) + (onExit ? "e" : ""));
        mc::trace_validated();
    }
}
// interactive mode: keys and ends
void interactive(bool burst)
{
    clean();
    {
        mc::set_tick(0);
        const long interval = 500;
        int mode = mc::choose(3, "mode");                   // view, full, with cleaning on exit
        bool there = mc::flag("session present");
        std::vector<std::string> args{"-i", "-s", "one", "--interval", std::to_string(interval), "-t", "400"};
        if (mode == 0) args.push_back("-v");
        if (mode == 2) args.push_back("-e");
        Fac other = device("two");
        State two = state("two");
        Fac d;
        if (there) d = device("one", true);
        State one = state("one");
        std::string in;
        static const char kKeys[] = "xhb\nzq";
        for (int i = 0, n = mc::choose(burst ? 4 : 3, "keys"); i < n; ++i) in += kKeys[mc::choose(6, "key")];
        keys::reset(true);
        std::vector<std::string> out;
        int rc = -1;
        long t0 = now_ms(), e = 0;
        std::thread t([&] { rc = command(args, &out); e = now_ms() - t0; });
        auto shows = [&](const std::string& what) { mc::Quiet q; size_t n = 0; for (auto& l : out) if (l.find(what) != std::string::npos) ++n; return n; };
        ms(50);
        MC_CHECK(rc == -1 && keys::raw, "not interactive");
        std::string done;                                   // keys it must have handled
        bool quit = false, removed = false;
        long stop = 0;
        auto handled = [&](char c) { done += c; if (c == 'q') { quit = true; stop = now_ms() - t0; } if (c == 'x' && mode) removed = true; };
        if (burst) {
            keys::type(in);
            for (char c : in) if (!quit) handled(c);
            ms(120);
        } else for (char c : in) {
            keys::type(std::string(1, c));
            if (!quit) handled(c);
            ms(220);
        }
        static const struct { char c; const char* text; } kShown[] = {{'x', "[x] -->"}, {'h', "[h] -->"}, {'\n', "[\\n] -->"}, {'z', "[z] -->"}, {'q', "[q] -->"}};
        for (auto& k : kShown) {
            size_t n = size_t(std::count(done.begin(), done.end(), k.c));
            MC_CHECK(shows(k.text) == n, "keys '%s'%s: %s was handled %zu times of %zu", in.c_str(), burst ? " at once" : "", k.text, shows(k.text), n);
        }
        int how = quit ? 0 : mc::choose(4, "end");          // key, signal, signal in the polling thread, input closed before
        int alive = -1;
        if (!quit) {
            MC_CHECK(rc == -1, "keys '%s': the monitor ended", in.c_str());
            bool now = there && !removed;
            MC_CHECK(now ? state("one").free == one.free : !shmem::Monitor::SegmentIsPresent(shmem::SessionId{"one"}, 0), "keys '%s': the session was %s", in.c_str(), now ? "changed" : "not removed");
            alive = now;
            if (how == 3) { mc::Quiet q; keys::closed = true; }
            else if (mc::flag("continued")) { mc::Quiet q; keys::interrupted = true; }
            long from = now_ms();
            size_t before = shows("shm id: ");
            ms(4 * interval);
            size_t n = shows("shm id: ") - before;
            MC_CHECK(rc == -1, "keys '%s': the monitor ended", in.c_str());
            MC_CHECK(alive ? n >= 3 && n <= 6 : n == 0, "keys '%s': %zu overviews in %ld ms with an interval of %ld ms", in.c_str(), n, now_ms() - from, interval);
            stop = now_ms() - t0;
            if (how == 0) { keys::type("q"); removed = removed; }
            else { std::raise(SIGTERM); if (how == 2) { mc::Quiet q; keys::interrupted = true; } }
        }
        t.join();
        MC_CHECK(rc == 0, "returned %d", rc);
        long late = how == 1 || how == 3 ? interval + 400 : 400;
        MC_CHECK(e >= stop - 200 * long(!burst) && e <= stop + late, "keys '%s', end %d: told to stop after %ld ms, ended after %ld ms", in.c_str(), how, stop, e);
        MC_CHECK(!keys::raw, "the terminal is left in noncanonical mode");
        MC_CHECK(state("two") == two, "the other session was changed");
        if (there && !removed && mode != 2) MC_CHECK(state("one") == one, "the session was changed");
        else MC_CHECK(of("one").empty(), "%s is left", of("one").begin()->c_str());
        keys::reset(false);
        d.reset();
        shmem::Monitor::CleanupFull(shmem::SessionId{"one"}, false);
        mc::outcome(std::to_string(mode) + std::to_string(there) + std::to_string(how));
        mc::trace_validated();
    }
}
}   // namespace

int main(int argc, char** argv)
{
    std::cout.rdbuf(nullptr);
    std::vector<mc::Scenario> v;
    mc::Opts o;
    o.preemptions = 0;
    o.preemptions_thorough = 1;
    o.delays = true;
    o.sched_atomics = false;
    o.max_steps = 200000;
    o.max_time_jumps = 4000;
    o.early_timeouts = false;
    v.push_back({"actions", "every action on every way to name a session, two sessions", [] { actions(); }, o});
    mc::Opts c = o;
    c.preemptions = 1;
    c.preemptions_thorough = 2;
    v.push_back({"monitoring", "monitoring until the session is gone", [] { monitoring(); }, c});
    c.fork_each = true;                                     // the signal is remembered
    v.push_back({"stopped", "monitoring until told to stop", [] { stopped(); }, c});
    mc::Opts i = c;
    i.preemptions = 0;
    i.preemptions_thorough = 1;
    v.push_back({"keys", "interactive mode, keys one by one", [] { interactive(false); }, i});
    v.push_back({"key_bursts", "interactive mode, several keys at once", [] { interactive(true); }, i});
    return mc::run(argc, argv, v);
}
