// C33: the time queue in virtual time against spec/TimeQueue.tla. The functions of the C library that
// tell the time and sleep are replaced: the time stands still except where the scenario moves it, while
// something sleeps, and slowly when nothing but looking at the clock happens.
#include "vk.h"
#include "track.h"
#include "Awl/Testing/TimeQueue.h"
#include "Awl/Coro/UpdateTask.h"
#include "Awl/Coro/ProcessTask.h"
#include <optional>
#include <time.h>
using vk::Val; using vk::rnd;
namespace
{
    const long base = 1000000;      // the time 0
    long clk, looks, events;         // looks at the clock since the last event
    bool jitter; vk::Rng* rng;
    bool own_time;                  // the clock is virtual
    void slept(long d)
    {
        if (d > 0) clk += d + (jitter && rng ? (long)(rnd(*rng, 3) == 0) * rnd(*rng, 3000) : 0);
    }
    long look()
    {
        long r = clk;
        if (++looks > 3) clk += looks < 13 ? 1L << (looks - 3) : 1000;
        return r;
    }
}
extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept
{
    long n = (own_time ? look() : 0) + base;
    t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000;
    return 0;
}
extern "C" int nanosleep(const struct timespec* t, struct timespec*)
{
    slept(t->tv_sec * 1000000000 + t->tv_nsec);
    return 0;
}
extern "C" int clock_nanosleep(clockid_t, int flags, const struct timespec* t, struct timespec*)
{
    long n = t->tv_sec * 1000000000 + t->tv_nsec;
    slept(flags & TIMER_ABSTIME ? n - base - clk : n);
    return 0;
}
namespace
{
    using namespace std::chrono_literals;
    using ns = std::chrono::nanoseconds; using us = std::chrono::microseconds;
    using awl::testing::TimeQueue; using awl::testing::TimeAwaitable; using awl::testing::operator co_await;
    std::ofstream* out; long frames;
    template <class... A> void ev(const char* n, A... a)
    {
        Val op = Val::t(n, a...);
        vk::note(op.str()); looks = 0;
        *out << "{\"o\":" << op.str() << ",\"r\":\"\"}\n"; ++events;
    }
    TimeQueue* queue;               // none: the global one
    // put into the queue whatever the delay is
    struct Direct
    {
        ns d;
        bool await_ready() { return false; }
        void await_suspend(std::coroutine_handle<> h) { (queue ? *queue : awl::testing::timeQueue).push(h, d); }
        void await_resume() {}
    };
    struct Count { Count() { ++frames; } ~Count() { --frames; } };
    int created, most; std::vector<int> kinds; long spread;
    std::map<int, awl::UpdateTask> tasks; std::map<int, awl::ProcessTask<void>> processes;
    long delay()
    {
        switch (rnd(*rng, 8))
        {
        case 0: return 0;
        case 1: return -rnd(*rng, 3000);
        case 2: return 1000 * (1 + rnd(*rng, 4));       // often equal
        default: return 1 + rnd(*rng, (int)spread);
        }
    }
    void start();
    awl::ProcessTask<void> process(int k);
    // some delays; others are started between them
#define BODY \
        Count count; vk::Tracked value(k); \
        ev("start", k, clk); \
        for (int n = rnd(*rng, 4); n > 0; --n) \
        { \
            if (rnd(*rng, 4) == 0) clk += rnd(*rng, 2000); \
            long d = delay(); int how = rnd(*rng, 4); \
            if (how == 1) d = d / 1000 * 1000; \
            ev("delay", k, d, clk, how == 0 ? 1 : 0); \
            if (how == 0) co_await Direct{ ns(d) }; \
            else if (queue) { if (how == 1) co_await TimeAwaitable(*queue, us(d / 1000)); else co_await TimeAwaitable(*queue, ns(d)); } \
            else if (how == 1) co_await us(d / 1000); \
            else co_await ns(d); \
            ev("resumed", k, clk); \
            value.check(); \
            while (created < most && rnd(*rng, 3) == 0) start(); \
        } \
        ev("done", k, clk);
    awl::UpdateTask update(int k) { BODY }
    awl::ProcessTask<void> process(int k) { BODY }
    void start()
    {
        int k = ++created;
        if (rnd(*rng, 2)) tasks.emplace(k, update(k)); else processes.emplace(k, process(k));
    }
}
int main(int argc, char** argv)
{
    vk::install();
    if (argc < 5 || std::string(argv[1]) != "random") return 2;
    vk::Rng g(strtoul(argv[2], 0, 10)); rng = &g;
    long n = atol(argv[3]), traces = 0;
    std::ofstream o(argv[4]); out = &o;
    own_time = true;
    while (events < n)
    {
        vk::last_ops.clear();
        o << "{\"o\":[\"reset\"],\"r\":\"\"}\n"; ++traces;
        clk = 0; created = 0; most = 1 + rnd(g, rnd(g, 3) ? 8 : 40); jitter = rnd(g, 2);
        spread = rnd(g, 2) ? 100 : 20000;
        std::optional<TimeQueue> q; if (rnd(g, 2)) q.emplace();
        queue = q ? &*q : nullptr;
        for (int rounds = 1 + rnd(g, 2); rounds > 0; --rounds)
        {
            for (int k = rnd(g, 6); k > 0 && created < most; --k) start();
            ev("loop", clk);
            (queue ? *queue : awl::testing::timeQueue).loop();
            ev("looped", clk);
        }
        tasks.clear(); processes.clear();
        if (frames || vk::Tracked::live || vk::Tracked::errors) return vk::fail("coroutines are left at the end");
    }
    o.flush();
    printf("OK traces=%ld events=%ld\n", traces, events);
    return 0;
}
