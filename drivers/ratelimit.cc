// C28: fair::mq::tools::RateLimiter under virtual time, every sequence of phases of iteration durations.
#include "mc.h"
#include <cmath>
#include <fairmq/tools/RateLimit.h>
using namespace fair::mq::tools;

namespace {
// work per iteration as a fraction of the period
const double WORK[] = {0.0, 0.25, 0.75, 0.99, 1.0, 1.5, 5.0, 40.0};
constexpr int NW = 8;

struct Phases
{
    double rate;
    double period;    // ns
    RateLimiter* rl;
    std::string log;

    // run iterations until at least t virtual ns and n iterations went by; returns average ns per iteration
    double runfor(double work, double t, long n, long maxit)
    {
        int64_t t0 = mc::now_ns();
        long i = 0;
        double acc = 0;
        while ((mc::now_ns() - t0 < t || i < n) && i < maxit) {
            acc += work;
            int64_t d = int64_t(acc);
            acc -= double(d);
            if (d) mc::advance_ns(d);
            rl->maybe_sleep();
            ++i;
        }
        return double(mc::now_ns() - t0) / double(i);
    }
    void phase(int wi)
    {
        double f = WORK[wi];
        double work = f * period;
        char b[64];
        snprintf(b, sizeof b, " %gx", f);
        log += b;
        // let it adapt: the limiter re-checks at least once per second or per iteration, and needs a
        // number of checks to follow
        double settle = 40e9;
        long nchk = 160;
        runfor(work, std::min(settle, 3e6 * std::max(period, work) ), nchk, 3000000);
        double want = std::max(period, work);
        double avg = runfor(work, std::min(10e9, 400000 * want), 60, 600000);
        // documented: more than 1% too short or too long is corrected
        MC_CHECK(avg >= want * 0.97, "rate %g Hz, phases%s: iterations take %.0f ns on average, the limit demands %.0f", rate, log.c_str(), avg, want);
        double tol = 1.03;
        MC_CHECK(avg <= want * tol + 20, "rate %g Hz, phases%s: iterations take %.0f ns on average although %.0f would do", rate, log.c_str(), avg, want);
        mc::transition();
        mc::state(mc::hash_str(std::to_string(rate) + log));
    }
};

void phases(std::vector<double> rates, int depth)
{
    mc::set_tick(0);
    Phases p;
    p.rate = rates[mc::choose(int(rates.size()), "rate")];
    p.period = p.rate > 0 ? std::max(1.0, 1e9 / double(float(p.rate))) : 1;
    RateLimiter rl{float(p.rate)};
    p.rl = &rl;
    for (int i = 0; i < depth; ++i) p.phase(mc::choose(NW, "work"));
    mc::outcome(std::to_string(p.rate));
}

// single iterations of varying duration: never asleep longer than the accumulated lead allows, never stuck
void iterations(std::vector<double> rates, int depth)
{
    mc::set_tick(0);
    double rate = rates[mc::choose(int(rates.size()), "rate")];
    double period = 1e9 / double(float(rate));
    RateLimiter rl{float(rate)};
    std::string log;
    for (int i = 0; i < depth; ++i) {
        static const double W[] = {0, 0.5, 1.0, 3.0, 20.0};
        double w = W[mc::choose(5, "work")];
        log += " " + std::to_string(w).substr(0, 4);
        mc::advance_ns(int64_t(w * period));
        int64_t t0 = mc::now_ns();
        rl.maybe_sleep();
        double slept = double(mc::now_ns() - t0);
        mc::transition();
        MC_CHECK(slept <= period * (i + 1) + 10, "rate %g, work%s: slept %.0f ns in one call, the whole lead cannot exceed %.0f", rate, log.c_str(), slept, period * (i + 1));
    }
    // constant slow work now: must not be delayed for long
    int64_t t0 = mc::now_ns();
    for (int i = 0; i < 200; ++i) { mc::advance_ns(int64_t(2 * period)); rl.maybe_sleep(); }
    double extra = double(mc::now_ns() - t0) - 400 * period;
    MC_CHECK(extra <= 40 * period, "rate %g, work%s: slow iterations were delayed by %.1f periods in total", rate, log.c_str(), extra / period);
    // and constant fast work is held back again (at rates where every call checks)
    for (int i = 0; i < 400; ++i) { mc::advance_ns(int64_t(0.1 * period)); rl.maybe_sleep(); }
    t0 = mc::now_ns();
    for (int i = 0; i < 200; ++i) { mc::advance_ns(int64_t(0.1 * period)); rl.maybe_sleep(); }
    double avg = double(mc::now_ns() - t0) / 200;
    MC_CHECK(avg >= 0.97 * period && avg <= 1.03 * period, "rate %g, work%s: afterwards iterations take %.3f periods", rate, log.c_str(), avg / period);
    mc::outcome(log.substr(0, 5));
}
}   // namespace

int main(int argc, char** argv)
{
    mc::Opts o;
    o.in_main = true;
    o.preemptions = 0;
    o.max_time_jumps = 2000000000;
    o.max_steps = 2000000000 / 60;
    o.exec_timeout_s = 120;
    std::vector<mc::Scenario> s{
        {"iterations", "all sequences of 6 iteration durations at rates that check every call", [] { iterations({0.1, 0.5, 0.9, 1, 3, 50, 150}, mc::thorough() ? 8 : 5); }, o},
        {"slow", "phases at rates below 1 Hz", [] { phases({0.05, 0.3, 0.9}, mc::thorough() ? 5 : 4); }, o},
        {"low", "phases at 1..200 Hz", [] { phases({1, 7, 100, 199, 201, 500}, mc::thorough() ? 5 : 4); }, o},
        {"mid", "phases at 1 kHz..20 kHz", [] { phases({1000, 5000, 20000}, mc::thorough() ? 4 : 3); }, o},
        {"none", "rates out of range do not limit and do not fail", [] {
            mc::set_tick(0);
            static const float R[] = {0, -1, -0.0f, 1e9f, 2e9f, 1e12f, 3e38f, 1e-3f, 1e-9f};
            float r = R[mc::choose(9, "rate")];
            RateLimiter rl(r);
            int n = r >= 1e9f || r <= 0 ? 6000000 : 3;
            for (int i = 0; i < n; ++i) { if (r < 1 && r > 0) mc::advance_ns(1000000000); rl.maybe_sleep(); mc::advance_ns(1); }
            mc::outcome(std::to_string(r));
        }, o},
    };
    return mc::run(argc, argv, s);
}
